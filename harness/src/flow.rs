//! Structured Lua 5.0 programs, compiled the way lparser.c does, run before
//! and after conversion.
use crate::chunk::*;
use crate::common::*;
use crate::sym;
use crate::vm::*;

pub const E: u64 = 1; // read a global into a temporary
pub const LOCAL: u64 = 2; // read a global into a new local
pub const IF: u64 = 4;
pub const IFELSE: u64 = 8;
pub const WHILE: u64 = 16;
pub const REPEAT: u64 = 32;
pub const FOR: u64 = 64;
pub const TFOR: u64 = 128;
pub const BREAK: u64 = 256;
pub const BOOL: u64 = 512;
pub const TABLE: u64 = 1024;
pub const CLOSURE: u64 = 2048;
pub const RETURN: u64 = 4096;
pub const CALL: u64 = 8192;

// What is asserted.
pub const ACTIONS: u64 = 1;
pub const LINES: u64 = 2;
pub const STACK: u64 = 4;
pub const CONSTS: u64 = 8;
pub const RULES: u64 = 16;
pub const STRIP: u64 = 32;
pub const TABLES: u64 = 64;

struct Gen {
    code: Vec<u64>,
    live: Vec<u64>,
    k: Vec<K>,
    kinds: u64,
    budget: u64,
    free: u64,
    max: u64,
    breaks: Vec<Vec<usize>>,
    names: u64,
    fin: u64,
    elems: u64,
    vars: u64,
    v51: bool,
    l: Lay,
    ekinds: u64,
    plain: u64,
    /// Loads at the start of every nested block.
    pad: u64,
    fout: u64,
    /// Registers that suffice for the converted function.
    max_out: u64,
    /// Difference between a register before and after conversion.
    moved: i64,
    /// Names conversion has to make up.
    made: u64,
}

// Elements of table constructors.
const E_CONST: u64 = 1;
const E_CALL: u64 = 2;
const E_TABLE: u64 = 4;
const E_OR: u64 = 8;
const E_NIL: u64 = 16;
const E_CLOSURE: u64 = 32;
const E_HASH: u64 = 64; // not an element, but a field with a key
const E_EQ: u64 = 128;
const E_ADD: u64 = 256;
const E_SELF: u64 = 512;
const E_OPEN: u64 = 1024; // a call with any number of results, at the end
const E_LOCAL: u64 = 2048;
const E_OP: u64 = 4096; // the result of any other instruction
const E_VARARG: u64 = 8192; // Lua 5.1 only: the extra arguments, at the end

impl Gen {
    fn new(kinds: u64, budget: u64, free: u64) -> Gen {
        Gen {
            code: Vec::new(),
            live: Vec::new(),
            k: Vec::new(),
            kinds,
            budget,
            free,
            max: 2,
            breaks: Vec::new(),
            names: 0,
            fin: 50,
            elems: 0,
            vars: 1,
            v51: false,
            l: Lay::LUA50,
            ekinds: 0,
            plain: 0,
            pad: 0,
            fout: 50,
            max_out: 0,
            moved: 0,
            made: 0,
        }
    }
    fn emit(&mut self, i: u64) -> usize {
        self.code.push(i);
        self.live.push(self.free);
        self.code.len() - 1
    }
    /// The number of an opcode in the version that is made.
    fn o(&self, o: u64) -> u64 {
        if self.v51 {
            number51(o).unwrap()
        } else {
            o
        }
    }
    fn abc(&mut self, o: u64, a: u64, b: u64, c: u64) -> usize {
        let i = self.l.abc(self.o(o), a, b, c);
        self.emit(i)
    }
    fn abx(&mut self, o: u64, a: u64, bx: u64) -> usize {
        let i = self.l.abx(self.o(o), a, bx);
        self.emit(i)
    }
    fn jump(&mut self, o: u64, a: u64) -> usize {
        let i = self.l.asbx(self.o(o), a, 0);
        self.emit(i)
    }
    /// A constant as operand B or C.
    fn rk(&self, k: u64) -> u64 {
        k + if self.v51 { 256 } else { 250 }
    }
    fn here(&self) -> usize {
        self.code.len()
    }
    fn need(&mut self, n: u64) {
        self.max = self.max.max(n);
        self.max_out = self.max_out.max((n as i64 + self.moved) as u64);
    }
    fn patch(&mut self, at: usize, to: usize) {
        let i = self.code[at];
        self.code[at] = self.l.asbx(self.l.op(i), self.l.a(i), to as i64 - at as i64 - 1);
    }
    fn patch_here(&mut self, at: usize) {
        let h = self.here();
        self.patch(at, h);
    }
    fn name(&mut self) -> u64 {
        self.names += 1;
        let mut s = b"n".to_vec();
        s.push(b'a' + self.names as u8);
        s.push(0);
        self.konst(K::Str(s))
    }
    fn konst(&mut self, k: K) -> u64 {
        self.k.push(k);
        self.k.len() as u64 - 1
    }
    fn number(&mut self) -> u64 {
        self.names += 1;
        let n = self.names;
        self.konst(K::Num((n as f64).to_bits()))
    }
    /// A fresh value into a register.
    fn read(&mut self, r: u64) {
        let n = self.name();
        self.need(r + 1);
        self.abx(op50::GETGLOBAL, r, n);
    }
    fn load(&mut self, r: u64) {
        let n = self.number();
        self.need(r + 1);
        self.abx(op50::LOADK, r, n);
    }
    /// Jumps if a register is not `c`, as a statement.
    fn test(&mut self, r: u64, c: u64) -> usize {
        if self.v51 {
            let i = self.l.abc(op::TEST, r, 0, c);
            self.emit(i);
        } else {
            self.abc(op50::TEST, r, r, c);
        }
        self.jump(op50::JMP, 0)
    }
    /// A condition and the jump that is taken if it is `when`.
    fn cond(&mut self, when: u64) -> usize {
        let r = self.free;
        self.read(r);
        self.test(r, when)
    }
    /// The outcome of a comparison as a value.
    fn boolean(&mut self, r: u64) {
        self.read(r);
        let n = self.number();
        self.abc(op50::EQ, 1, r, self.rk(n));
        let j = self.jump(op50::JMP, 0);
        self.abc(op50::LOADBOOL, r, 0, 1);
        self.patch_here(j);
        self.abc(op50::LOADBOOL, r, 1, 0);
    }
    fn setlist(&mut self, a: u64, n: u64, open: bool) {
        if self.v51 {
            let b = if open { 0 } else { (n - 1) % self.fin + 1 };
            let i = self.l.abc(op::SETLIST, a, b, (n - 1) / self.fin + 1);
            self.emit(i);
        } else {
            self.abx(if open { op50::SETLISTO } else { op50::SETLIST }, a, n - 1);
        }
    }
    fn pick_bit(&mut self, name: &str, bits: u64) -> u64 {
        let all: Vec<u64> = (0..32).map(|i| 1 << i).filter(|b| bits & b != 0).collect();
        all[if all.len() == 1 { 0 } else { sym::pick(name, all.len() as u64) as usize }]
    }

    fn table(&mut self, a: u64) {
        let free = self.free;
        self.free = a + 1;
        self.need(a + 1);
        self.abc(op50::NEWTABLE, a, 0, 0);
        let more = sym::pick("elements", self.elems + 1);
        let n = self.plain + more;
        let mut done = 0; // elements so far
        let mut last_nil = usize::MAX;
        for i in 0..n {
            let r = a + 1 + done % self.fin;
            let outer = self.moved;
            self.moved += (done % self.fout) as i64 - (done % self.fin) as i64;
            self.need(r + 1);
            let mut kinds = if i < self.plain { E_CONST } else { self.ekinds };
            if i + 1 < n {
                kinds &= !(E_OPEN | E_VARARG);
            }
            let k = self.pick_bit("element", if kinds == 0 { E_CONST } else { kinds });
            match k {
                E_CALL | E_OPEN => {
                    self.read(r);
                    self.load(r + 1);
                    self.abc(op50::CALL, r, 2, if k == E_OPEN { 0 } else { 2 });
                }
                E_TABLE => {
                    self.abc(op50::NEWTABLE, r, 0, 0);
                    for j in 0..self.fin.min(2) {
                        self.load(r + 1 + j);
                    }
                    self.setlist(r, self.fin.min(2), false);
                }
                E_OR => {
                    self.read(r);
                    let j = self.test(r, 1);
                    self.load(r);
                    self.patch_here(j);
                    last_nil = usize::MAX;
                }
                E_NIL => {
                    let p = self.here() - 1;
                    if p == last_nil && self.l.b(self.code[p]) + 1 == r {
                        let i = self.code[p];
                        self.code[p] = self.l.abc(op50::LOADNIL, self.l.a(i), r, 0);
                    } else {
                        last_nil = self.abc(op50::LOADNIL, r, r, 0);
                    }
                }
                E_CLOSURE => {
                    self.abx(op50::CLOSURE, r, 0);
                    self.abc(op50::MOVE, 0, 0, 0);
                    self.abc(op50::GETUPVAL, 0, 0, 0);
                }
                E_HASH => {
                    if done > 0 && done % self.fout == 0 {
                        // the page may be stored later
                        self.moved += self.fout as i64;
                    }
                    let k = self.name();
                    self.read(r);
                    self.abc(op50::SETTABLE, a, self.rk(k), r);
                }
                E_EQ => self.boolean(r),
                E_ADD => {
                    self.read(r);
                    self.read(r + 1);
                    self.abc(op50::ADD, r, r, r + 1);
                }
                E_SELF => {
                    self.read(r);
                    let k = self.name();
                    self.need(r + 2);
                    self.abc(op50::SELF, r, r, self.rk(k));
                    self.abc(op50::CALL, r, 2, 2);
                }
                E_LOCAL => {
                    self.abc(op50::MOVE, r, 0, 0);
                }
                E_OP => self.operation(r),
                E_VARARG => {
                    let i = self.l.abc(op::VARARG, r, 0, 0);
                    self.emit(i);
                }
                _ => self.load(r),
            }
            self.moved = outer;
            let open = k == E_OPEN || k == E_VARARG;
            if k != E_HASH {
                done += 1;
                if done % self.fin == 0 || i + 1 == n {
                    self.setlist(a, done, open);
                }
            } else if i + 1 == n && done % self.fin != 0 {
                self.setlist(a, done, false);
            }
        }
        self.free = free;
    }

    /// A register set by any of the instructions that compute something.
    fn operation(&mut self, r: u64) {
        let own = if self.v51 { 12 } else { 9 };
        let k = sym::pick("operation", own + 9);
        let n = self.name();
        let n = self.rk(n);
        if k >= own {
            return self.local_operation(r, k - own, n);
        }
        if k != 0 && k != 10 {
            self.read(r);
        }
        match k {
            0 => {
                self.abc(op50::GETUPVAL, r, 0, 0);
            }
            1 => {
                self.abc(op50::GETTABLE, r, r, n);
            }
            2 => {
                self.abc(op50::SUB, r, r, n);
            }
            3 => {
                self.abc(op50::MUL, r, n, r);
            }
            4 => {
                self.read(r + 1);
                self.abc(op50::DIV, r, r + 1, r);
                self.abc(op50::POW, r, r, r);
            }
            5 => {
                self.abc(op50::UNM, r, r, 0);
            }
            6 => {
                self.abc(op50::NOT, r, r, 0);
            }
            7 => {
                self.read(r + 1);
                self.read(r + 2);
                self.abc(op50::CONCAT, r, r, r + 2);
            }
            8 => {
                // f(g())
                self.read(r + 1);
                self.abc(op50::CALL, r + 1, 1, 0);
                self.abc(op50::CALL, r, 0, 2);
            }
            9 => {
                let i = self.l.abc(op::LEN, r, r, 0);
                self.emit(i);
            }
            10 => {
                let i = self.l.abc(op::VARARG, r, 2, 0);
                self.emit(i);
            }
            _ => {
                let i = self.l.abc(op::MOD, r, r, n);
                self.emit(i);
            }
        }
    }

    /// The same with the first local variable as the operand, so that nothing
    /// else writes the register.
    fn local_operation(&mut self, r: u64, k: u64, n: u64) {
        match k {
            0 => {
                self.abc(op50::NOT, r, 0, 0);
            }
            1 => {
                self.abc(op50::GETTABLE, r, 0, n);
            }
            2 => {
                self.abc(op50::LOADBOOL, r, 1, 0);
            }
            3 => {
                self.abc(op50::NEWTABLE, r, 0, 0);
            }
            4 => {
                // x.n(x), and its second register
                self.need(r + 2);
                self.abc(op50::SELF, r, 0, n);
                self.abc(op50::CALL, r, 2, 2);
            }
            5 => {
                // x == n
                self.abc(op50::EQ, 1, 0, n);
                let j = self.jump(op50::JMP, 0);
                self.abc(op50::LOADBOOL, r, 0, 1);
                self.patch_here(j);
                self.abc(op50::LOADBOOL, r, 1, 0);
            }
            6 => {
                // x or y
                self.abc(op50::TEST, r, 0, 1);
                let j = self.jump(op50::JMP, 0);
                self.abc(op50::GETUPVAL, r, 0, 0);
                self.patch_here(j);
            }
            7 => {
                let o = [op50::ADD, op50::SUB, op50::MUL, op50::DIV, op50::POW][sym::pick("arithmetic", 5) as usize];
                self.abc(o, r, 0, n);
            }
            _ => {
                self.abc(op50::UNM, r, 0, 0);
                if self.v51 {
                    let o = [op::LEN, op::NOT, op::UNM][sym::pick("unary", 3) as usize];
                    let i = self.l.abc(o, r, 0, 0);
                    *self.code.last_mut().unwrap() = i;
                }
            }
        }
    }

    fn block(&mut self, depth: u64, least: u64) {
        let free = self.free;
        let mut n = 0;
        if least == 0 || !self.code.is_empty() {
            if self.pad > 0 {
                let n = self.number();
                self.read(free);
                for _ in 0..self.pad {
                    self.abx(op50::LOADK, free, n);
                }
                self.read(free);
            }
        }
        while self.budget > 0 {
            let mut kinds: Vec<u64> = Vec::new();
            if n >= least {
                kinds.push(0);
            }
            for b in 0..14 {
                let k = 1u64 << b;
                let nested = IF | IFELSE | WHILE | REPEAT | FOR | TFOR;
                if self.kinds & k != 0 && (depth > 0 || k & nested == 0) && (k != BREAK || !self.breaks.is_empty()) {
                    kinds.push(k);
                }
            }
            let k = kinds[if kinds.len() == 1 { 0 } else { sym::pick("stmt", kinds.len() as u64) as usize }];
            if k == 0 {
                break;
            }
            self.budget -= 1;
            n += 1;
            self.stmt(k, depth);
            if k == BREAK || k == RETURN {
                break;
            }
        }
        self.free = free;
    }

    fn stmt(&mut self, k: u64, depth: u64) {
        match k {
            E => {
                let r = self.free;
                self.read(r);
            }
            LOCAL => {
                let r = self.free;
                self.read(r);
                self.free += 1;
            }
            IF => {
                let j = self.cond(0);
                self.block(depth - 1, 1);
                self.patch_here(j);
            }
            IFELSE => {
                let j = self.cond(0);
                self.block(depth - 1, 1);
                let e = self.jump(op50::JMP, 0);
                self.patch_here(j);
                self.block(depth - 1, 0);
                self.patch_here(e);
            }
            WHILE => {
                if self.v51 {
                    let start = self.here();
                    let c = self.cond(0);
                    self.breaks.push(Vec::new());
                    self.block(depth - 1, 0);
                    let j = self.jump(op50::JMP, 0);
                    self.patch(j, start);
                    self.patch_here(c);
                } else {
                    let j = self.jump(op50::JMP, 0);
                    let body = self.here();
                    self.breaks.push(Vec::new());
                    self.block(depth - 1, 0);
                    self.patch_here(j);
                    let c = self.cond(1);
                    self.patch(c, body);
                }
                self.leave();
            }
            REPEAT => {
                let body = self.here();
                self.breaks.push(Vec::new());
                self.block(depth - 1, 0);
                let c = self.cond(0);
                self.patch(c, body);
                self.leave();
            }
            FOR => {
                let a = self.free;
                self.made += 1;
                for r in 0..3 {
                    self.load(a + r);
                }
                let j;
                if self.v51 {
                    let i = self.l.asbx(op::FORPREP, a, 0);
                    j = self.emit(i);
                    self.need(a + 4);
                } else {
                    self.abc(op50::SUB, a, a, a + 2);
                    self.max_out = self.max_out.max((a as i64 + 4 + self.moved) as u64);
                    j = self.jump(op50::JMP, 0);
                }
                self.free = a + 3 + self.v51 as u64;
                let body = self.here();
                self.breaks.push(Vec::new());
                self.block(depth - 1, 0);
                self.patch_here(j);
                self.free = a + 3;
                let f = self.jump(op50::FORLOOP, a);
                self.patch(f, body);
                self.free = a;
                self.leave();
            }
            TFOR => {
                let a = self.free;
                let c = sym::pick("vars", self.vars);
                self.made += 2;
                self.read(a);
                for r in 1..3 {
                    self.load(a + r);
                }
                // the call needs three registers above the variables
                self.need(a + 3 + c + 3);
                if c > 0 {
                    let n = (a + 3 + c + (c + 1).max(3)) as i64 + self.moved;
                    self.max_out = self.max_out.max(n as u64);
                }
                let p = if self.v51 { self.jump(op50::JMP, 0) } else { self.jump(op50::TFORPREP, a) };
                self.free = a + 3 + c + self.v51 as u64;
                let body = self.here();
                self.breaks.push(Vec::new());
                self.block(depth - 1, 0);
                self.patch_here(p);
                self.free = a + 3;
                self.abc(op50::TFORLOOP, a, 0, c + self.v51 as u64);
                let j = self.jump(op50::JMP, 0);
                self.patch(j, body);
                self.free = a;
                self.leave();
            }
            BREAK => {
                let j = self.jump(op50::JMP, 0);
                self.breaks.last_mut().unwrap().push(j);
            }
            BOOL => {
                let r = self.free;
                self.boolean(r);
                let n = self.name();
                self.abx(op50::SETGLOBAL, r, n);
            }
            TABLE => {
                let a = self.free;
                self.table(a);
                let n = self.name();
                self.abx(op50::SETGLOBAL, a, n);
            }
            CLOSURE => {
                let r = self.free;
                self.abx(op50::CLOSURE, r, 0);
                self.abc(op50::MOVE, 0, 0, 0);
                self.abc(op50::GETUPVAL, 0, 0, 0);
                self.need(r + 1);
                let n = self.name();
                self.abx(op50::SETGLOBAL, r, n);
            }
            CALL => {
                let r = self.free;
                self.read(r);
                self.load(r + 1);
                self.abc(op50::CALL, r, 2, 3);
                let n = self.name();
                self.abx(op50::SETGLOBAL, r + 1, n);
            }
            _ => {
                self.abc(op50::RETURN, 0, 2, 0);
            }
        }
    }
    fn leave(&mut self) {
        let h = self.here();
        for j in self.breaks.pop().unwrap() {
            self.patch(j, h);
        }
    }
}

/// params: kinds of statements, number of statements, nesting, decisions,
/// assertions, fields per flush in, out, parameters, variadic, elements,
/// loop variables, Lua 5.1 instead of 5.0, kinds of elements, plain elements,
/// further parameters, loads at the start of nested blocks,
/// length of two arbitrary names
pub fn flow() {
    let p = sym::param;
    let checks = p(4);
    let (fin, fout) = (p(5).max(1), p(6).max(1));
    let vararg = p(8);
    let nparams = p(7) + if p(14) > 0 { sym::pick("parameters", p(14) + 1) } else { 0 };
    let mut g = Gen::new(p(0), p(1), nparams + 1);
    g.fin = fin;
    g.fout = fout;
    g.elems = p(9);
    g.vars = p(10).max(1);
    g.v51 = p(11) != 0;
    g.l = if g.v51 { Lay::LUA51 } else { Lay::LUA50 };
    g.ekinds = p(12);
    g.plain = p(13);
    g.pad = p(15);
    // a local that is in use, unless nothing but `arg` is set at the start
    g.max_out = nparams + if g.v51 { 0 } else { 3 * vararg };
    let free = g.free;
    g.need(free);
    if p(16) > 0 {
        // globals with arbitrary names
        for _ in 0..2 {
            let mut s = vec![0u8; p(16) as usize];
            sym::bytes("name", &mut s);
            let n = s.len();
            for b in &s[..n - 1] {
                sym::assume(*b < 0x80);
            }
            sym::assume(s[n - 1] == 0);
            let k = g.konst(K::Str(s));
            g.abx(op50::GETGLOBAL, free, k);
            g.need(free + 1);
        }
    }
    g.block(p(2), 1);
    // the first registers are locals that stay alive
    g.abc(op50::RETURN, 0, free + 1, 0);
    let v51 = g.v51;
    // Lua 5.0 compiles no function that needs more
    sym::assume(g.max <= 249);
    let mut x = Fun::new();
    x.code = std::mem::take(&mut g.code);
    x.k = std::mem::take(&mut g.k);
    x.maxstack = g.max as u8;
    x.nparams = nparams as u8;
    x.vararg = vararg as u8;
    if p(0) & CLOSURE != 0 || p(12) & E_CLOSURE != 0 {
        let mut q = Fun::with_code(vec![g.l.abc(g.o(op50::RETURN), 0, 1, 0)]);
        q.nups = 2;
        x.nups = 1;
        x.p.push(q);
    }
    if p(12) & E_OP != 0 {
        x.nups = 1;
    }
    for i in 0..x.code.len() {
        x.lines.push(if checks & LINES != 0 { sym::u32("line") as i32 as i64 as u64 } else { i as u64 + 1 });
    }
    judge(&x, v51, &g.live, free, fin, fout, p(3), checks, g.max_out);
}

fn chunk(f: Fmt, x: &Fun, v51: bool) -> Vec<u8> {
    if v51 {
        chunk51(f, x)
    } else {
        chunk50(f, x)
    }
}

/// Converts `x` and compares it with the result. Registers from `first` on
/// hold nothing when it starts, those below `live` of an instruction are in use
/// when it is executed.
pub fn judge(x: &Fun, v51: bool, live: &[u64], first: u64, fin: u64, fout: u64, decisions: u64, checks: u64, need: u64) {
    let mut s = settings();
    s.lua50.fields_per_flush = if v51 { 7 } else { fin };
    s.lua51.fields_per_flush = if v51 { fin } else { 7 };
    s.output.fields_per_flush = fout;
    let out = Fmt { format: 1, ..Fmt::STD };
    let y = match run(&chunk(Fmt::STD, x, v51), out, &s) {
        Ok(y) => y,
        Err(e) => {
            sym::cover("rejected");
            let known = matches!(e, LunifyError::StackTooLarge(n) if n > 250);
            sym::check(known && need > 250, "a valid function that needs no more than 250 registers is converted");
            return;
        }
    };
    sym::cover("converted");
    sym::check(y.maxstack as u64 <= 250 && y.maxstack >= x.maxstack, "the stack size is not smaller than before and not too large");
    #[cfg(feature = "native")]
    {
        dump("in", x, if v51 { Lay::LUA51 } else { Lay::LUA50 });
        dump("out", &y, Lay::LUA51);
    }
    if checks & CONSTS != 0 {
        constants(x, &y);
    }
    if checks & RULES != 0 {
        crate::rules::check(&y, Lay::LUA51);
    }
    if checks & LINES != 0 {
        sym::check(y.lines.len() == y.code.len(), "there is one line per instruction");
    }
    if checks & STRIP != 0 {
        stripped(x, v51, &y, out, &s);
    }
    if checks & (ACTIONS | LINES | STACK | TABLES) != 0 {
        compare(x, v51, &y, live, first, fin, fout, decisions, checks);
    }
}

#[cfg(feature = "native")]
fn dump(name: &str, f: &Fun, l: Lay) {
    eprintln!("{} stack {}", name, f.maxstack);
    for (i, c) in f.code.iter().enumerate() {
        eprintln!("  {:3} op {:2} a {} b {} c {} sbx {}", i, l.op(*c), l.a(*c), l.b(*c), l.c(*c), l.sbx(*c));
    }
}

fn constants(x: &Fun, y: &Fun) {
    sym::check(y.k.len() >= x.k.len(), "no constant is lost");
    for i in 0..x.k.len() {
        sym::check(crate::gen::same_const(&x.k[i], &y.k[i]), "every constant keeps its index, type and value");
    }
    for p in 0..x.p.len() {
        constants(&x.p[p], &y.p[p]);
    }
}

fn stripped(x: &Fun, v51: bool, y: &Fun, out: Fmt, s: &Settings) {
    let mut z = x.clone();
    fn strip(f: &mut Fun) {
        f.lines.clear();
        f.locals.clear();
        f.upvalues.clear();
        f.source.clear();
        f.p.iter_mut().for_each(strip);
    }
    strip(&mut z);
    match run(&chunk(Fmt::STD, &z, v51), out, s) {
        Ok(z) => {
            fn same(y: &Fun, z: &Fun) {
                sym::check(y.code == z.code, "a stripped function has the same instructions");
                sym::check(y.maxstack == z.maxstack, "a stripped function has the same stack size");
                sym::check(y.k.len() == z.k.len(), "a stripped function has the same constants");
                for i in 0..y.k.len() {
                    sym::check(crate::gen::same_const(&y.k[i], &z.k[i]), "a stripped function has the same constants");
                }
                sym::check((y.nups, y.nparams, y.vararg) == (z.nups, z.nparams, z.vararg), "a stripped function has the same header");
                sym::check(z.lines.is_empty() && z.locals.is_empty() && z.upvalues.is_empty(), "a stripped function stays stripped");
                sym::check(y.p.len() == z.p.len(), "a stripped function has the same nested functions");
                for i in 0..y.p.len() {
                    same(&y.p[i], &z.p[i]);
                }
            }
            same(y, &z)
        }
        Err(_) => sym::check(false, "a stripped function is converted"),
    }
}

fn compare(x: &Fun, v51: bool, y: &Fun, live: &[u64], first: u64, fin: u64, fout: u64, decisions: u64, checks: u64) {
    let mut w = World::new(decisions as usize);
    w.names(x);
    w.nvarargs = if x.vararg != 0 { sym::pick("varargs", 4) } else { 0 };
    let mut a = Vm::new(&mut w, x, !v51, if v51 { Lay::LUA51 } else { Lay::LUA50 }, fin, first);
    let ea = a.run(&mut w, 400 + 8 * x.code.len() as u64, 40);
    sym::check(ea == End::Return || ea == End::Cut, "harness: the original function can be executed");
    let mut b = Vm::new(&mut w, y, false, Lay::LUA51, fout, first);
    w.max_dec += 2;
    let eb = b.run(&mut w, 20 * a.steps + 200, if ea == End::Return { 60 } else { a.events.len() });
    let n = a.events.len();
    if checks & ACTIONS != 0 {
        sym::check(eb != End::Bad, "the converted function can be executed");
        sym::check(eb != End::Steps, "the converted function does what the original does, and does not run on");
        sym::check(b.events.len() >= n, "every action of the original is performed");
        if ea == End::Return {
            sym::cover("returned");
            sym::check(eb == End::Return && b.events.len() == n, "nothing is performed that the original does not perform");
        } else {
            sym::cover("cut");
        }
    }
    let n = n.min(b.events.len());
    for i in 0..n {
        let (p, q) = (&a.events[i], &b.events[i]);
        if checks & ACTIONS != 0 {
            sym::check(p.kind == q.kind && p.args == q.args, "the same actions are performed in the same order");
            let mut ok = true;
            for r in 0..live[p.pc] as usize {
                ok &= p.regs[r] == DEAD || p.regs[r] == q.regs[r];
            }
            #[cfg(feature = "native")]
            if !ok || p.args != q.args || p.kind != q.kind {
                eprintln!("event {}: {} {:?} / {} {:?}", i, p.kind, p.args, q.kind, q.args);
                for r in 0..live[p.pc] as usize {
                    if p.regs[r] != DEAD && p.regs[r] != q.regs[r] {
                        eprintln!("  register {}: {} / {}", r, w.show(p.regs[r]), w.show(q.regs[r]));
                    }
                }
            }
            sym::check(ok, "the registers hold the same values");
        }
        if checks & LINES != 0 && p.kind == q.kind && p.args == q.args {
            sym::check(p.line == q.line, "every action has the line it had");
        }
    }
    if checks & STACK != 0 {
        sym::check(b.max_reg < y.maxstack as usize, "every register lies below the stated stack size");
        sym::check(y.maxstack >= x.maxstack && y.maxstack <= 250, "the stack is not smaller than before and not too large");
    }
    if checks & TABLES != 0 && ea == End::Return && eb == End::Return {
        sym::check(a.tables.len() == b.tables.len(), "the same tables are made");
        for (t, u) in a.tables.iter().zip(&b.tables) {
            sym::cover("table");
            sym::check(t.len() == u.len(), "a table has the same number of elements");
            for p in t {
                sym::check(u.iter().any(|q| p == q), "every element of a table is at its index");
            }
        }
    }
}

/// Made-up names: params: kinds of loops, number of statements, nesting,
/// length of arbitrary string constants (0: that of the made-up ones), their number, loads at the start
pub fn names() {
    let p = sym::param;
    let mut g = Gen::new(p(0), p(1), 2);
    for i in 0..p(4) {
        let k = g.konst(K::Str(vec![b'q', b'0' + i as u8, 0]));
        // used as a global
        g.abx(if i == 0 { op50::GETGLOBAL } else { op50::SETGLOBAL }, 0, k);
    }
    if p(5) > 0 {
        let n = g.number();
        for _ in 0..p(5) {
            g.abx(op50::LOADK, 0, n);
        }
    }
    g.block(p(2), 1);
    g.abc(op50::RETURN, 0, 1, 0);
    let mut x = Fun::new();
    x.code = std::mem::take(&mut g.code);
    x.k = std::mem::take(&mut g.k);
    x.maxstack = g.max as u8;
    let convert = |x: &Fun| run(&chunk50(Fmt::STD, x), Fmt { format: 1, ..Fmt::STD }, &settings());
    let n = x.k.len() as u64;
    // the strings of the program that matter are as long as the made-up ones
    let mut length = p(3) as usize;
    if length == 0 {
        let y = match convert(&x) {
            Ok(y) => y,
            Err(_) => return sym::check(false, "a valid function is converted"),
        };
        let mut lengths: Vec<usize> = Vec::new();
        for k in y.k.get(n as usize..).unwrap_or(&[]) {
            if let K::Str(s) = k {
                if !lengths.contains(&s.len()) {
                    lengths.push(s.len());
                }
            }
        }
        if lengths.is_empty() {
            return;
        }
        length = lengths[sym::pick("length", lengths.len() as u64) as usize];
    }
    for i in 0..p(4) as usize {
        let mut s = vec![0u8; length];
        sym::bytes("name", &mut s);
        for b in &s[..length - 1] {
            sym::assume(*b < 0x80);
        }
        sym::assume(s[length - 1] == 0);
        x.k[i] = K::Str(s);
    }
    let y = match convert(&x) {
        Ok(y) => y,
        Err(_) => return sym::check(false, "a valid function is converted"),
    };
    sym::cover("converted");
    constants(&x, &y);
    let globals = |f: &Fun, v51: bool| -> Vec<(u64, u64)> {
        let l = if v51 { Lay::LUA51 } else { Lay::LUA50 };
        f.code.iter().map(|&i| (l.op(i), l.bx(i))).filter(|i| i.0 == op::GETGLOBAL || i.0 == op::SETGLOBAL).collect()
    };
    // "type", "next" may be constants the program has already
    let fixed = |k: u64| matches!(&y.k[k as usize], K::Str(s) if s == b"type\0" || s == b"next\0");
    let theirs: Vec<(u64, u64)> = globals(&x, false).into_iter().filter(|g| !fixed(g.1)).collect();
    let all = globals(&y, true);
    let mut at = 0;
    let mut made: Vec<u64> = Vec::new();
    for g in &all {
        if g.1 < n && fixed(g.1) {
            continue; // may be conversion's
        }
        if g.1 < n {
            sym::check(at < theirs.len() && theirs[at] == *g, "the program's own globals are accessed as before");
            at += 1;
        } else if !fixed(g.1) && !made.contains(&g.1) {
            made.push(g.1);
        }
    }
    sym::check(at == theirs.len(), "the program's own globals are accessed as before");
    for &m in &made {
        for k in 0..y.k.len() as u64 {
            if k != m {
                if let (K::Str(a), K::Str(b)) = (&y.k[m as usize], &y.k[k as usize]) {
                    if a.len() == b.len() {
                        let mut same = true;
                        for i in 0..a.len() {
                            same &= a[i] == b[i];
                        }
                        sym::check(!same, "a made-up name differs from every other string constant");
                    }
                }
            }
        }
    }
}
