//! Independent reference encoder and decoder for Lua 5.0 / 5.1 binary chunks
//! and instruction words, written from the Lua sources (lundump.c, ldump.c,
//! lopcodes.h), not from the crate under test.
use lunify::{BitWidth, Endianness, Format, InstructionLayout, OperandType};

#[derive(Clone, Copy, PartialEq)]
pub struct Fmt {
    pub format: u8,
    pub little: bool,
    pub int: u8,
    pub size: u8,
    pub ins: u8,
    pub num: u8,
    pub integral: bool,
}

impl Fmt {
    /// The default of a 64-bit little-endian Lua.
    pub const STD: Fmt = Fmt { format: 0, little: true, int: 4, size: 8, ins: 4, num: 8, integral: false };

    /// One of the 64 combinations of byte order, widths and number kind.
    pub fn nth(k: u64) -> Fmt {
        Fmt {
            format: 0,
            little: k & 1 == 0,
            int: if k & 2 == 0 { 4 } else { 8 },
            size: if k & 4 == 0 { 8 } else { 4 },
            ins: if k & 8 == 0 { 4 } else { 8 },
            num: if k & 16 == 0 { 8 } else { 4 },
            integral: k & 32 != 0,
        }
    }

    pub fn to_lunify(self) -> Format {
        let w = |n: u8| if n == 4 { BitWidth::Bit32 } else { BitWidth::Bit64 };
        Format {
            format: self.format,
            endianness: if self.little { Endianness::Little } else { Endianness::Big },
            integer_width: w(self.int),
            size_t_width: w(self.size),
            instruction_width: w(self.ins),
            number_width: w(self.num),
            is_number_integral: self.integral,
        }
    }
}

/// (position, size) of each operand.
#[derive(Clone, Copy, PartialEq)]
pub struct Lay {
    pub op: (u32, u32),
    pub a: (u32, u32),
    pub b: (u32, u32),
    pub c: (u32, u32),
}

impl Lay {
    pub const LUA51: Lay = Lay { op: (0, 6), a: (6, 8), c: (14, 9), b: (23, 9) };
    pub const LUA50: Lay = Lay { op: (0, 6), c: (6, 9), b: (15, 9), a: (24, 8) };

    pub fn new(spec: [(char, u32); 4]) -> (Lay, [OperandType; 4]) {
        let mut l = Lay { op: (0, 0), a: (0, 0), b: (0, 0), c: (0, 0) };
        let mut pos = 0;
        let mut s = [OperandType::Opcode(6), OperandType::A(8), OperandType::B(9), OperandType::C(9)];
        for (i, (k, n)) in spec.into_iter().enumerate() {
            match k {
                'o' => {
                    l.op = (pos, n);
                    s[i] = OperandType::Opcode(n as u64);
                }
                'a' => {
                    l.a = (pos, n);
                    s[i] = OperandType::A(n as u64);
                }
                'b' => {
                    l.b = (pos, n);
                    s[i] = OperandType::B(n as u64);
                }
                _ => {
                    l.c = (pos, n);
                    s[i] = OperandType::C(n as u64);
                }
            }
            pos += n;
        }
        (l, s)
    }
    pub fn spec(spec: [(char, u32); 4]) -> (Lay, InstructionLayout) {
        let (l, s) = Lay::new(spec);
        (l, InstructionLayout::from_specification(s).unwrap())
    }
    pub fn bx_pos(&self) -> u32 {
        if self.b.0 < self.c.0 {
            self.b.0
        } else {
            self.c.0
        }
    }
    pub fn bx_size(&self) -> u32 {
        self.b.1 + self.c.1
    }
    pub fn bias(&self) -> u64 {
        mask(self.bx_size()) >> 1
    }
    pub fn bits(&self) -> u32 {
        self.op.1 + self.a.1 + self.b.1 + self.c.1
    }
    pub fn op(&self, w: u64) -> u64 {
        fld(w, self.op)
    }
    pub fn a(&self, w: u64) -> u64 {
        fld(w, self.a)
    }
    pub fn b(&self, w: u64) -> u64 {
        fld(w, self.b)
    }
    pub fn c(&self, w: u64) -> u64 {
        fld(w, self.c)
    }
    pub fn bx(&self, w: u64) -> u64 {
        fld(w, (self.bx_pos(), self.bx_size()))
    }
    pub fn sbx(&self, w: u64) -> i64 {
        self.bx(w) as i64 - self.bias() as i64
    }
    pub fn abc(&self, op: u64, a: u64, b: u64, c: u64) -> u64 {
        put(op, self.op) | put(a, self.a) | put(b, self.b) | put(c, self.c)
    }
    pub fn abx(&self, op: u64, a: u64, bx: u64) -> u64 {
        put(op, self.op) | put(a, self.a) | put(bx, (self.bx_pos(), self.bx_size()))
    }
    pub fn asbx(&self, op: u64, a: u64, s: i64) -> u64 {
        self.abx(op, a, (s + self.bias() as i64) as u64)
    }
}

pub fn mask(n: u32) -> u64 {
    if n >= 64 {
        !0
    } else {
        (1u64 << n) - 1
    }
}
fn fld(w: u64, (p, n): (u32, u32)) -> u64 {
    (w >> p) & mask(n)
}
fn put(v: u64, (p, n): (u32, u32)) -> u64 {
    (v & mask(n)) << p
}

/// A constant; numbers are the raw bits in the chunk's number format.
#[derive(Clone, PartialEq)]
pub enum K {
    Nil,
    Bool(u8),
    Num(u64),
    Str(Vec<u8>),
}

#[derive(Clone)]
pub struct Fun {
    pub source: Vec<u8>,
    pub line: u64,
    pub last: u64,
    pub nups: u8,
    pub nparams: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub code: Vec<u64>,
    pub k: Vec<K>,
    pub p: Vec<Fun>,
    pub lines: Vec<u64>,
    pub locals: Vec<(Vec<u8>, u64, u64)>,
    pub upvalues: Vec<Vec<u8>>,
}

impl Fun {
    pub fn new() -> Fun {
        Fun {
            source: Vec::new(),
            line: 0,
            last: 0,
            nups: 0,
            nparams: 0,
            vararg: 0,
            maxstack: 2,
            code: Vec::new(),
            k: Vec::new(),
            p: Vec::new(),
            lines: Vec::new(),
            locals: Vec::new(),
            upvalues: Vec::new(),
        }
    }
    pub fn with_code(code: Vec<u64>) -> Fun {
        let mut f = Fun::new();
        f.lines = (0..code.len() as u64).map(|i| i + 1).collect();
        f.code = code;
        f
    }
}

pub struct W {
    pub f: Fmt,
    pub out: Vec<u8>,
}

impl W {
    pub fn raw(&mut self, v: u64, n: u8) {
        for i in 0..n {
            let k = if self.f.little { i } else { n - 1 - i };
            self.out.push((v >> (8 * k)) as u8);
        }
    }
    pub fn byte(&mut self, b: u8) {
        self.out.push(b);
    }
    pub fn int(&mut self, v: u64) {
        self.raw(v, self.f.int)
    }
    pub fn str(&mut self, s: &[u8]) {
        self.raw(s.len() as u64, self.f.size);
        self.out.extend_from_slice(s);
    }
    fn consts(&mut self, k: &[K]) {
        self.int(k.len() as u64);
        for k in k {
            match k {
                K::Nil => self.byte(0),
                K::Bool(b) => {
                    self.byte(1);
                    self.byte(*b)
                }
                K::Num(n) => {
                    self.byte(3);
                    self.raw(*n, self.f.num)
                }
                K::Str(s) => {
                    self.byte(4);
                    self.str(s)
                }
            }
        }
    }
    fn code(&mut self, c: &[u64]) {
        self.int(c.len() as u64);
        for &i in c {
            self.raw(i, self.f.ins);
        }
    }
    fn debug(&mut self, f: &Fun) {
        self.int(f.lines.len() as u64);
        for &l in &f.lines {
            self.int(l);
        }
        self.int(f.locals.len() as u64);
        for (n, a, b) in &f.locals {
            self.str(n);
            self.int(*a);
            self.int(*b);
        }
        self.int(f.upvalues.len() as u64);
        for u in &f.upvalues {
            self.str(u);
        }
    }
    pub fn fun51(&mut self, f: &Fun) {
        self.str(&f.source);
        self.int(f.line);
        self.int(f.last);
        self.byte(f.nups);
        self.byte(f.nparams);
        self.byte(f.vararg);
        self.byte(f.maxstack);
        self.code(&f.code);
        self.consts(&f.k);
        self.int(f.p.len() as u64);
        for p in &f.p {
            self.fun51(p);
        }
        self.debug(f);
    }
    pub fn fun50(&mut self, f: &Fun) {
        self.str(&f.source);
        self.int(f.line);
        self.byte(f.nups);
        self.byte(f.nparams);
        self.byte(f.vararg);
        self.byte(f.maxstack);
        self.debug(f);
        self.consts(&f.k);
        self.int(f.p.len() as u64);
        for p in &f.p {
            self.fun50(p);
        }
        self.code(&f.code);
    }
}

pub const SIG: &[u8] = b"\x1bLua";

pub fn header51(f: Fmt) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&[0x51, f.format, f.little as u8, f.int, f.size, f.ins, f.num, f.integral as u8]);
    v
}

/// Lua 5.0 header; `sizes` are the operand sizes (op, a, b, c).
pub fn header50(f: Fmt, sizes: [u8; 4]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&[0x50, f.little as u8, f.int, f.size, f.ins]);
    v.extend_from_slice(&sizes);
    v.push(f.num);
    let mut w = W { f, out: v };
    // TEST_NUMBER of lundump.h: ((lua_Number)3.14159265358979323846E7)
    let bits = match (f.integral, f.num) {
        (false, 8) => 3.14159265358979323846E7f64.to_bits(),
        (false, _) => (3.14159265358979323846E7f64 as f32).to_bits() as u64,
        _ => 31415926,
    };
    w.raw(bits, f.num);
    w.out
}

pub fn chunk51(f: Fmt, fun: &Fun) -> Vec<u8> {
    let mut w = W { f, out: header51(f) };
    w.fun51(fun);
    w.out
}

pub fn chunk50(f: Fmt, fun: &Fun) -> Vec<u8> {
    chunk50_with(f, fun, [6, 8, 9, 9])
}
/// Operand sizes of another layout.
pub fn chunk50_with(f: Fmt, fun: &Fun, sizes: [u8; 4]) -> Vec<u8> {
    let mut w = W { f, out: header50(f, sizes) };
    w.fun50(fun);
    w.out
}

pub struct R<'a> {
    pub f: Fmt,
    pub d: &'a [u8],
    pub o: usize,
}

impl<'a> R<'a> {
    pub fn byte(&mut self) -> Option<u8> {
        let b = *self.d.get(self.o)?;
        self.o += 1;
        Some(b)
    }
    pub fn raw(&mut self, n: u8) -> Option<u64> {
        if self.d.len() - self.o < n as usize {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            let k = if self.f.little { i } else { n - 1 - i };
            v |= (self.d[self.o + i as usize] as u64) << (8 * k);
        }
        self.o += n as usize;
        Some(v)
    }
    /// A C int, sign-extended to 64 bits.
    pub fn int(&mut self) -> Option<u64> {
        let v = self.raw(self.f.int)?;
        Some(if self.f.int == 4 { v as u32 as i32 as i64 as u64 } else { v })
    }
    fn count(&mut self) -> Option<usize> {
        let n = self.int()?;
        if n > self.d.len() as u64 {
            return None;
        }
        Some(n as usize)
    }
    pub fn str(&mut self) -> Option<Vec<u8>> {
        let n = self.raw(self.f.size)?;
        if n > (self.d.len() - self.o) as u64 {
            return None;
        }
        let n = n as usize;
        let s = self.d[self.o..self.o + n].to_vec();
        self.o += n;
        Some(s)
    }
    pub fn fun51(&mut self) -> Option<Fun> {
        let mut f = Fun::new();
        f.source = self.str()?;
        f.line = self.int()?;
        f.last = self.int()?;
        f.nups = self.byte()?;
        f.nparams = self.byte()?;
        f.vararg = self.byte()?;
        f.maxstack = self.byte()?;
        for _ in 0..self.count()? {
            f.code.push(self.raw(self.f.ins)?);
        }
        for _ in 0..self.count()? {
            f.k.push(match self.byte()? {
                0 => K::Nil,
                1 => K::Bool(self.byte()?),
                3 => K::Num(self.raw(self.f.num)?),
                4 => K::Str(self.str()?),
                _ => return None,
            });
        }
        for _ in 0..self.count()? {
            f.p.push(self.fun51()?);
        }
        for _ in 0..self.count()? {
            f.lines.push(self.int()?);
        }
        for _ in 0..self.count()? {
            let s = self.str()?;
            let (a, b) = (self.int()?, self.int()?);
            f.locals.push((s, a, b));
        }
        for _ in 0..self.count()? {
            f.upvalues.push(self.str()?);
        }
        Some(f)
    }
}

/// Parses a complete Lua 5.1 chunk that must be in exactly the format `f`.
pub fn parse51(sig: &[u8], f: Fmt, d: &[u8]) -> Option<Fun> {
    let h = [0x51, f.format, f.little as u8, f.int, f.size, f.ins, f.num, f.integral as u8];
    let n = sig.len() + h.len();
    if d.len() < n {
        return None;
    }
    let mut ok = true;
    for i in 0..sig.len() {
        ok &= d[i] == sig[i];
    }
    for i in 0..h.len() {
        ok &= d[sig.len() + i] == h[i];
    }
    if !ok {
        return None;
    }
    let mut r = R { f, d, o: n };
    let fun = r.fun51()?;
    if r.o != d.len() {
        return None;
    }
    Some(fun)
}

pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
