//! The rules of Lua 5.1's bytecode verifier (ldebug.c), checked on functions.
use crate::chunk::*;
use crate::common::*;
use crate::sym;

pub fn check(f: &Fun, l: Lay) {
    let n = f.code.len();
    let stack = f.maxstack as u64;
    let reg = |r: u64| sym::check(r < stack, "a register lies below the stack size");
    let konst = |k: u64| sym::check(k < f.k.len() as u64, "a constant exists");
    let rk_bit = 1u64 << (l.b.1 - 1);
    sym::check(stack <= 250, "the stack size is permitted");
    sym::check(f.nparams as u64 + (f.vararg as u64 & 1) <= stack, "the parameters fit the stack");
    sym::check(f.vararg & 2 != 0 || f.vararg & 4 == 0, "the vararg flags are consistent");
    sym::check(f.lines.is_empty() || f.lines.len() == n, "there is one line per instruction");
    sym::check(n > 0 && l.op(f.code[n - 1]) == op::RETURN, "a function ends with a return");
    let mut pc = 0;
    while pc < n {
        let i = f.code[pc];
        let (o, a, b, c, bx) = (l.op(i), l.a(i), l.b(i), l.c(i), l.bx(i));
        sym::check(o < 38, "the opcode exists");
        reg(a);
        let rk = |x: u64| {
            if x & rk_bit != 0 {
                konst(x & !rk_bit)
            } else {
                reg(x)
            }
        };
        let arg = |m: Arg, v: u64| match m {
            Arg::N => sym::check(v == 0, "an unused operand is 0"),
            Arg::K => rk(v),
            _ => {}
        };
        let mode = MODES51[o as usize];
        match mode {
            Mode::ABC(mb, mc) => {
                if o != op::NEWTABLE {
                    arg(mb, b);
                    arg(mc, c);
                }
            }
            Mode::ABx => {
                if o != op::CLOSURE {
                    konst(bx)
                }
            }
            Mode::AsBx => {
                let d = pc as i64 + 1 + l.sbx(i);
                sym::check(d >= 0 && d < n as i64, "a jump stays in the function");
                if d > 0 && d < n as i64 {
                    // not into the extra word of a SETLIST
                    let mut j = 0;
                    while j < d && l.op(f.code[(d - 1 - j) as usize]) == op::SETLIST && l.c(f.code[(d - 1 - j) as usize]) == 0 {
                        j += 1;
                    }
                    sym::check(j & 1 == 0, "a jump does not lead into data");
                }
            }
        }
        if matches!(o, op::EQ | op::LT | op::LE | op::TEST | op::TESTSET | op::TFORLOOP) {
            sym::check(pc + 2 < n, "a conditional instruction is not the last");
            if pc + 1 < n {
                sym::check(l.op(f.code[pc + 1]) == op::JMP, "a jump follows a conditional instruction");
            }
        }
        match o {
            op::MOVE | op::UNM | op::NOT | op::LEN | op::TESTSET | op::GETTABLE => reg(b),
            op::SELF => {
                reg(a + 1);
                reg(b)
            }
            op::LOADBOOL => {
                if c == 1 {
                    sym::check(pc + 2 < n, "a skip stays in the function");
                    if pc + 1 < n {
                        let j = f.code[pc + 1];
                        sym::check(l.op(j) != op::SETLIST || l.c(j) != 0, "a skip does not lead into data");
                    }
                }
            }
            op::LOADNIL => reg(b),
            op::GETUPVAL | op::SETUPVAL => sym::check(b < f.nups as u64, "an upvalue exists"),
            op::GETGLOBAL | op::SETGLOBAL => {
                let k = f.k.get(bx as usize);
                sym::check(matches!(k, Some(K::Str(_))), "a global is named by a string");
            }
            op::CONCAT => {
                sym::check(b < c, "at least two values are concatenated");
                reg(c);
            }
            op::CALL | op::TAILCALL => {
                if b != 0 {
                    reg(a + b - 1);
                }
                if o == op::CALL && c == 0 {
                    open(f, l, pc);
                } else if o == op::CALL && c > 1 {
                    reg(a + c - 2);
                }
            }
            op::RETURN => {
                if b > 1 {
                    reg(a + b - 2);
                }
            }
            op::FORLOOP | op::FORPREP => reg(a + 3),
            op::TFORLOOP => {
                sym::check(c >= 1, "a loop has a variable");
                reg(a + 2 + c);
            }
            op::SETLIST => {
                if b > 0 {
                    reg(a + b);
                }
                if c == 0 {
                    pc += 1;
                    sym::check(pc < n, "the page of a SETLIST exists");
                }
            }
            op::CLOSURE => {
                let p = f.p.get(bx as usize);
                sym::check(p.is_some(), "a nested function exists");
                if let Some(p) = p {
                    for _ in 0..p.nups {
                        pc += 1;
                        let j = f.code.get(pc).map(|&j| l.op(j));
                        sym::check(matches!(j, Some(op::MOVE) | Some(op::GETUPVAL)), "the upvalues of a closure follow it");
                    }
                }
            }
            op::VARARG => {
                sym::check(f.vararg & 2 != 0 && f.vararg & 4 == 0, "only a variadic function uses its arguments");
                if b == 0 {
                    open(f, l, pc);
                } else if b > 1 {
                    reg(a + b - 2);
                }
            }
            _ => {}
        }
        pc += 1;
    }
    for p in &f.p {
        check(p, l);
    }
}

/// An open list of values must be used by the next instruction.
fn open(f: &Fun, l: Lay, pc: usize) {
    let ok = match f.code.get(pc + 1) {
        Some(&j) => matches!(l.op(j), op::CALL | op::TAILCALL | op::RETURN | op::SETLIST) && l.b(j) == 0,
        None => false,
    };
    sym::check(ok, "an open list of values is used by the next instruction");
}
