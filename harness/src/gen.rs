//! Builders of (partly) symbolic chunks and comparison of functions.
use crate::chunk::*;
use crate::sym;

/// A string of 0..=max arbitrary bytes.
pub fn any_str(name: &str, max: u64) -> Vec<u8> {
    let n = sym::pick("len", max + 1);
    sym::vec(name, n as usize)
}

/// An integer that both formats can hold.
pub fn any_int(name: &str, f: Fmt, g: Fmt) -> u64 {
    if f.int == 8 && g.int == 8 {
        sym::u64(name)
    } else {
        sym::u32(name) as i32 as i64 as u64
    }
}

/// A number that keeps its bits between formats of the same number type.
pub fn any_num(name: &str, f: Fmt) -> u64 {
    match (f.num, f.integral) {
        (4, i) => {
            let v = sym::u32(name);
            sym::assume(i || v & 0x7f80_0000 != 0x7f80_0000 || v & 0x7f_ffff == 0);
            v as u64
        }
        (_, i) => {
            let v = sym::u64(name);
            sym::assume(i || v & 0x7ff0_0000_0000_0000 != 0x7ff0_0000_0000_0000 || v & 0xf_ffff_ffff_ffff == 0);
            v
        }
    }
}

pub fn any_const(f: Fmt, maxstr: u64) -> K {
    match sym::pick("kind", 4) {
        0 => K::Nil,
        1 => K::Bool(sym::u8("bool")),
        2 => K::Num(any_num("num", f)),
        _ => K::Str(any_str("kstr", maxstr)),
    }
}

/// How large the symbolic parts of a function may get.
#[derive(Clone, Copy)]
pub struct Size {
    pub s: u64,
    pub k: u64,
    pub p: u64,
    pub locals: u64,
    pub ups: u64,
    pub lines: bool,
}

/// A function whose code is `code`, everything else symbolic within `z`.
pub fn any_fun(f: Fmt, g: Fmt, code: &[u64], z: Size, depth: u64) -> Fun {
    let mut x = Fun::new();
    x.source = any_str("source", z.s);
    x.line = any_int("line", f, g);
    x.last = any_int("last", f, g);
    x.nups = sym::u8("nups");
    x.nparams = sym::u8("nparams");
    x.vararg = sym::u8("vararg");
    x.maxstack = sym::u8("maxstack");
    x.code = code.to_vec();
    for _ in 0..sym::pick("nk", z.k + 1) {
        x.k.push(any_const(f, z.s));
    }
    if depth > 0 {
        for _ in 0..sym::pick("np", z.p + 1) {
            x.p.push(any_fun(f, g, code, z, depth - 1));
        }
    }
    if !z.lines || sym::flag("debug") {
        for _ in 0..code.len() {
            x.lines.push(any_int("lineinfo", f, g));
        }
    }
    for _ in 0..sym::pick("nlocals", z.locals + 1) {
        let s = any_str("local", z.s);
        x.locals.push((s, any_int("start", f, g), any_int("end", f, g)));
    }
    for _ in 0..sym::pick("nupv", z.ups + 1) {
        x.upvalues.push(any_str("upvalue", z.s));
    }
    x
}

pub fn same_const(a: &K, b: &K) -> bool {
    match (a, b) {
        (K::Nil, K::Nil) => true,
        (K::Bool(x), K::Bool(y)) => (*x != 0) as u8 == *y,
        (K::Num(x), K::Num(y)) => x == y,
        (K::Str(x), K::Str(y)) => eq_bytes(x, y),
        _ => false,
    }
}

/// Everything of a function but code, stack size and children.
pub fn check_meta(a: &Fun, b: &Fun) {
    sym::check(eq_bytes(&a.source, &b.source), "the source name is kept");
    sym::check(a.line == b.line, "the first line is kept");
    sym::check(a.last == b.last, "the last line is kept");
    sym::check(a.nups == b.nups, "the number of upvalues is kept");
    sym::check(a.nparams == b.nparams, "the number of parameters is kept");
    check_debug(a, b);
}

pub fn check_debug(a: &Fun, b: &Fun) {
    sym::check(a.locals.len() == b.locals.len(), "no local variable is lost or added");
    for i in 0..a.locals.len() {
        sym::check(eq_bytes(&a.locals[i].0, &b.locals[i].0), "the names of local variables are kept");
        sym::check(a.locals[i].1 == b.locals[i].1 && a.locals[i].2 == b.locals[i].2, "the ranges of local variables are kept");
    }
    sym::check(a.upvalues.len() == b.upvalues.len(), "no upvalue name is lost or added");
    for i in 0..a.upvalues.len() {
        sym::check(eq_bytes(&a.upvalues[i], &b.upvalues[i]), "the names of upvalues are kept");
    }
}

pub fn check_consts(a: &Fun, b: &Fun) {
    sym::check(a.k.len() == b.k.len(), "no constant is lost or added");
    for i in 0..a.k.len() {
        sym::check(same_const(&a.k[i], &b.k[i]), "every constant keeps its index, type and value");
    }
}

pub fn check_lines(a: &Fun, b: &Fun) {
    sym::check(a.lines.len() == b.lines.len(), "line information has one entry per instruction, or none");
    for i in 0..a.lines.len() {
        sym::check(a.lines[i] == b.lines[i], "every instruction keeps its line");
    }
}

/// A 5.1 function that must come out the same, with its code re-encoded.
pub fn check_same51(a: &Fun, b: &Fun, code: &[u64]) {
    check_meta(a, b);
    sym::check(a.vararg == b.vararg, "the vararg flags are kept");
    sym::check(a.maxstack == b.maxstack, "the stack size is kept");
    check_consts(a, b);
    check_lines(a, b);
    sym::check(b.code.len() == code.len(), "no instruction is lost or added");
    for i in 0..code.len() {
        sym::check(b.code[i] == code[i], "every instruction is kept");
    }
    sym::check(a.p.len() == b.p.len(), "no nested function is lost or added");
    for i in 0..a.p.len() {
        check_same51(&a.p[i], &b.p[i], code);
    }
}
