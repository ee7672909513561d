use crate::chunk::*;
use crate::sym;
pub use lunify::{lua50, lua51, unify, BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};

pub fn settings() -> Settings<'static> {
    Settings::default()
}

pub const L51: [(char, u32); 4] = [('o', 6), ('a', 8), ('c', 9), ('b', 9)];
pub const L50: [(char, u32); 4] = [('o', 6), ('c', 9), ('b', 9), ('a', 8)];

/// Lua 5.1 opcode numbers (lopcodes.h).
pub mod op {
    pub const MOVE: u64 = 0;
    pub const LOADK: u64 = 1;
    pub const LOADBOOL: u64 = 2;
    pub const LOADNIL: u64 = 3;
    pub const GETUPVAL: u64 = 4;
    pub const GETGLOBAL: u64 = 5;
    pub const GETTABLE: u64 = 6;
    pub const SETGLOBAL: u64 = 7;
    pub const SETUPVAL: u64 = 8;
    pub const SETTABLE: u64 = 9;
    pub const NEWTABLE: u64 = 10;
    pub const SELF: u64 = 11;
    pub const ADD: u64 = 12;
    pub const SUB: u64 = 13;
    pub const MUL: u64 = 14;
    pub const DIV: u64 = 15;
    pub const MOD: u64 = 16;
    pub const POW: u64 = 17;
    pub const UNM: u64 = 18;
    pub const NOT: u64 = 19;
    pub const LEN: u64 = 20;
    pub const CONCAT: u64 = 21;
    pub const JMP: u64 = 22;
    pub const EQ: u64 = 23;
    pub const LT: u64 = 24;
    pub const LE: u64 = 25;
    pub const TEST: u64 = 26;
    pub const TESTSET: u64 = 27;
    pub const CALL: u64 = 28;
    pub const TAILCALL: u64 = 29;
    pub const RETURN: u64 = 30;
    pub const FORLOOP: u64 = 31;
    pub const FORPREP: u64 = 32;
    pub const TFORLOOP: u64 = 33;
    pub const SETLIST: u64 = 34;
    pub const CLOSE: u64 = 35;
    pub const CLOSURE: u64 = 36;
    pub const VARARG: u64 = 37;
    /// Not opcodes of Lua 5.1: numbers for those only 5.0 has.
    pub const TFORPREP: u64 = 100;
    pub const SETLISTO: u64 = 101;
}

/// Lua 5.0 opcode numbers (lopcodes.h).
pub mod op50 {
    pub const MOVE: u64 = 0;
    pub const LOADK: u64 = 1;
    pub const LOADBOOL: u64 = 2;
    pub const LOADNIL: u64 = 3;
    pub const GETUPVAL: u64 = 4;
    pub const GETGLOBAL: u64 = 5;
    pub const GETTABLE: u64 = 6;
    pub const SETGLOBAL: u64 = 7;
    pub const SETUPVAL: u64 = 8;
    pub const SETTABLE: u64 = 9;
    pub const NEWTABLE: u64 = 10;
    pub const SELF: u64 = 11;
    pub const ADD: u64 = 12;
    pub const SUB: u64 = 13;
    pub const MUL: u64 = 14;
    pub const DIV: u64 = 15;
    pub const POW: u64 = 16;
    pub const UNM: u64 = 17;
    pub const NOT: u64 = 18;
    pub const CONCAT: u64 = 19;
    pub const JMP: u64 = 20;
    pub const EQ: u64 = 21;
    pub const LT: u64 = 22;
    pub const LE: u64 = 23;
    pub const TEST: u64 = 24;
    pub const CALL: u64 = 25;
    pub const TAILCALL: u64 = 26;
    pub const RETURN: u64 = 27;
    pub const FORLOOP: u64 = 28;
    pub const TFORLOOP: u64 = 29;
    pub const TFORPREP: u64 = 30;
    pub const SETLIST: u64 = 31;
    pub const SETLISTO: u64 = 32;
    pub const CLOSE: u64 = 33;
    pub const CLOSURE: u64 = 34;
}

/// What an operand of an instruction means.
#[derive(Clone, Copy, PartialEq)]
pub enum Arg {
    /// Not used.
    N,
    /// Register or plain number.
    R,
    /// Register or constant.
    K,
    /// Size hint without meaning.
    H,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    ABC(Arg, Arg),
    ABx,
    AsBx,
}
use Arg::*;
use Mode::*;

/// Operand modes of the Lua 5.1 opcodes (lopcodes.c).
pub const MODES51: [Mode; 38] = [
    ABC(R, N), // MOVE
    ABx,       // LOADK
    ABC(R, R), // LOADBOOL
    ABC(R, N), // LOADNIL
    ABC(R, N), // GETUPVAL
    ABx,       // GETGLOBAL
    ABC(R, K), // GETTABLE
    ABx,       // SETGLOBAL
    ABC(R, N), // SETUPVAL
    ABC(K, K), // SETTABLE
    ABC(H, H), // NEWTABLE
    ABC(R, K), // SELF
    ABC(K, K), // ADD
    ABC(K, K),
    ABC(K, K),
    ABC(K, K),
    ABC(K, K),
    ABC(K, K), // POW
    ABC(R, N), // UNM
    ABC(R, N), // NOT
    ABC(R, N), // LEN
    ABC(R, R), // CONCAT
    AsBx,      // JMP
    ABC(K, K), // EQ
    ABC(K, K),
    ABC(K, K),
    ABC(N, R), // TEST
    ABC(R, R), // TESTSET
    ABC(R, R), // CALL
    ABC(R, R), // TAILCALL
    ABC(R, N), // RETURN
    AsBx,      // FORLOOP
    AsBx,      // FORPREP
    ABC(N, R), // TFORLOOP
    ABC(R, R), // SETLIST
    ABC(N, N), // CLOSE
    ABx,       // CLOSURE
    ABC(R, N), // VARARG
];

/// Turns a RETURN-terminated code vector into the standard test function.
pub fn ret51(l: &Lay) -> u64 {
    l.abc(op::RETURN, 0, 1, 0)
}

/// Unifies and checks that the result is a chunk of exactly the output format.
/// Returns the error or the parsed main function.
pub fn run(input: &[u8], out: Fmt, s: &Settings) -> Result<Fun, LunifyError> {
    match unify(input, &out.to_lunify(), s) {
        Err(e) => Err(e),
        Ok(bytes) => {
            sym::observe(&bytes);
            match parse51(s.output.binary_signature.as_bytes(), out, &bytes) {
                Some(f) => Ok(f),
                None => {
                    sym::check(false, "the output is a complete chunk in the requested format");
                    loop {}
                }
            }
        }
    }
}
