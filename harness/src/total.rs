//! Whatever the input, unify returns: no panic, no endless loop, no access
//! outside of memory. The engine reports those by itself.
use crate::chunk::*;
use crate::common::*;
use crate::sym;

fn finish(c: &[u8], s: &Settings, g: Fmt) {
    match unify(c, &g.to_lunify(), s) {
        Ok(o) => {
            sym::cover("converted");
            sym::observe(&o);
        }
        Err(_) => sym::cover("rejected"),
    }
}

fn rich(v50: bool) -> Fun {
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let code = if v50 {
        vec![
            l.abc(op50::NEWTABLE, 0, 0, 0),
            l.abx(op50::LOADK, 1, 0),
            l.abx(op50::SETLIST, 0, 0),
            l.asbx(op50::JMP, 0, 1),
            l.abc(op50::MOVE, 4, 0, 0),
            l.asbx(op50::FORLOOP, 1, -2),
            l.abc(op50::RETURN, 0, 1, 0),
        ]
    } else {
        vec![
            l.abc(op::NEWTABLE, 0, 0, 0),
            l.abx(op::LOADK, 1, 0),
            l.abc(op::SETLIST, 0, 1, 1),
            l.asbx(op::JMP, 0, 1),
            l.abc(op::MOVE, 4, 0, 0),
            l.asbx(op::FORLOOP, 1, -2),
            l.abc(op::RETURN, 0, 1, 0),
        ]
    };
    let mut x = Fun::with_code(code);
    x.source = b"@a\0".to_vec();
    x.maxstack = 6;
    x.k = vec![K::Nil, K::Num(0), K::Str(b"k\0".to_vec())];
    x.locals = vec![(b"l\0".to_vec(), 1, 2)];
    x.upvalues = vec![b"u\0".to_vec()];
    x.p = vec![Fun::with_code(vec![l.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0)])];
    x
}

/// Makes the operands that steer loops of the converter concrete, one path
/// per value, which keeps the remaining queries small. Nothing is left out.
fn split(v50: bool, w: u64, n: i64) {
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let o = l.op(w);
    let is = |x: u64, y: u64| if v50 { o == x } else { o == y };
    if is(op50::JMP, op::JMP) || is(op50::FORLOOP, op::FORLOOP) || is(op50::TFORPREP, op::FORPREP) {
        let s = l.sbx(w);
        if s >= -n - 2 && s <= n + 2 {
            sym::concretize(s as u64);
        }
    } else if v50 && o == op50::TFORLOOP {
        sym::concretize(l.c(w));
    }
}

/// `split` for the instruction words of `c` that overlap `from..to`.
fn split_code(v50: bool, f: Fmt, x: &Fun, c: &[u8], from: usize, to: usize) {
    let mut w = W { f, out: Vec::new() };
    for &i in &x.code {
        w.raw(i, f.ins);
    }
    let mut p = 0;
    let full = if v50 { chunk50(f, x) } else { chunk51(f, x) };
    while full[p..p + w.out.len()] != w.out[..] {
        p += 1;
    }
    for _ in &x.code {
        let q = p + f.ins as usize;
        if p < to && q > from && q <= c.len() {
            let mut r = R { f, d: c, o: p };
            split(v50, r.raw(f.ins).unwrap(), x.code.len() as i64);
        }
        p = q;
    }
}

/// A valid chunk in which any `w` consecutive bytes are arbitrary.
/// params: version, format, w, fields per flush of the output
pub fn window() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let w = sym::param(2) as usize;
    let mut s = settings();
    s.output.fields_per_flush = sym::param(3);
    let x = rich(v50);
    let mut c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let n = c.len() - w + 1;
    let at = {
        let p = sym::u16("at") as u64;
        sym::assume(p < n as u64);
        sym::concretize(p) as usize
    };
    let b = sym::vec("bytes", w);
    c[at..at + w].copy_from_slice(&b);
    split_code(v50, f, &x, &c, at, at + w);
    finish(&c, &s, Fmt { format: 1, ..Fmt::STD });
}

/// Arbitrary instruction words in an otherwise valid function.
/// params: version, number of words, fields per flush in, out, variadic
pub fn words() {
    let v50 = sym::param(0) == 50;
    let n = sym::param(1) as usize;
    let mut s = settings();
    s.lua50.fields_per_flush = sym::param(2);
    s.lua51.fields_per_flush = sym::param(2);
    s.output.fields_per_flush = sym::param(3);
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let mut code = Vec::new();
    for _ in 0..n {
        let w = sym::u32("word") as u64;
        split(v50, w, n as i64 + 1);
        code.push(w);
    }
    code.push(l.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0));
    let mut x = Fun::with_code(code);
    x.maxstack = sym::u8("maxstack");
    x.nparams = sym::u8("nparams");
    x.vararg = sym::param(4) as u8;
    if sym::flag("stripped") {
        x.lines.clear();
    }
    let c = if v50 { chunk50(Fmt::STD, &x) } else { chunk51(Fmt::STD, &x) };
    finish(&c, &s, Fmt { format: 1, ..Fmt::STD });
}

/// The start of a valid chunk, cut anywhere and continued with arbitrary
/// bytes. params: version, format, number of arbitrary bytes
pub fn short() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let n = sym::param(2) as usize;
    let x = rich(v50);
    let c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let at = {
        let p = sym::u16("at") as u64;
        sym::assume(p < c.len() as u64);
        sym::concretize(p) as usize
    };
    let mut d = c[..at].to_vec();
    d.extend_from_slice(&sym::vec("bytes", n));
    split_code(v50, f, &x, &d, at, at + n);
    finish(&d, &settings(), Fmt { format: 1, ..Fmt::STD });
}
