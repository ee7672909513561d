//! Whole-function structure, strings, numbers, truncation, identity.
use crate::chunk::*;
use crate::common::*;
use crate::gen::*;
use crate::sym;

const SIZES: [Size; 5] = [
    // constants of every kind
    Size { s: 1, k: 2, p: 0, locals: 0, ups: 0, lines: true },
    // debug information
    Size { s: 1, k: 0, p: 0, locals: 2, ups: 2, lines: true },
    // nested functions
    Size { s: 0, k: 1, p: 2, locals: 0, ups: 1, lines: false },
    // everything together
    Size { s: 1, k: 1, p: 1, locals: 1, ups: 1, lines: true },
    // deeper
    Size { s: 2, k: 2, p: 1, locals: 1, ups: 1, lines: true },
];

/// 5.1 to 5.1: everything but encodings is kept.
/// params: input format, output format, size, depth.
pub fn struct51() {
    let f = Fmt::nth(sym::param(0));
    let g = Fmt { format: 7, ..Fmt::nth(sym::param(1)) };
    let l = Lay::LUA51;
    let code = [l.abc(op::MOVE, 1, 0, 0), ret51(&l)];
    let x = any_fun(f, g, &code, SIZES[sym::param(2) as usize], sym::param(3));
    match run(&chunk51(f, &x), g, &settings()) {
        Ok(y) => {
            sym::cover("converted");
            check_same51(&x, &y, &code)
        }
        Err(_) => sym::check(false, "a valid chunk is converted"),
    }
}

/// 5.0 to 5.1: metadata, constants, nested functions and names are kept.
pub fn struct50() {
    let f = Fmt::nth(sym::param(0));
    let g = Fmt { format: 7, ..Fmt::nth(sym::param(1)) };
    let l = Lay::LUA50;
    let code = [l.abc(op50::MOVE, 1, 0, 0), l.abc(op50::RETURN, 0, 1, 0)];
    let l = Lay::LUA51;
    let out = [l.abc(op::MOVE, 1, 0, 0), ret51(&l)];
    let x = any_fun(f, g, &code, SIZES[sym::param(2) as usize], sym::param(3));
    fn fixed(x: &Fun) {
        sym::assume(x.vararg == 0);
        x.p.iter().for_each(fixed);
    }
    fixed(&x);
    match run(&chunk50(f, &x), g, &settings()) {
        Ok(y) => {
            sym::cover("converted");
            check_same50(&x, &y, &out)
        }
        Err(_) => sym::check(false, "a valid chunk is converted"),
    }
}

fn check_same50(a: &Fun, b: &Fun, code: &[u64]) {
    // Lua 5.0 does not store the last line
    let mut a2 = a.clone();
    a2.last = b.last;
    check_meta(&a2, b);
    sym::check(b.vararg == 0, "a function with fixed parameters stays one");
    sym::check(b.maxstack == if a.maxstack < 2 { 2 } else { a.maxstack }, "the stack size is kept");
    check_consts(a, b);
    check_lines(a, b);
    sym::check(b.code.len() == code.len(), "no instruction is lost or added");
    for i in 0..code.len() {
        sym::check(b.code[i] == code[i], "every instruction is kept");
    }
    sym::check(a.p.len() == b.p.len(), "no nested function is lost or added");
    for i in 0..a.p.len() {
        check_same50(&a.p[i], &b.p[i], code);
    }
}

/// Strings of arbitrary bytes in every place a chunk can hold one.
/// params: version, place, length, (in, out) formats
pub fn strings() {
    let v = sym::param(0);
    let place = sym::param(1);
    let f = Fmt::nth(sym::param(3));
    let g = Fmt { format: 1, ..Fmt::nth(sym::param(4)) };
    let n = sym::param(2);
    // the longer ones have arbitrary bytes at both ends
    let s = if n <= 8 {
        sym::vec("s", n as usize)
    } else {
        let mut s: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        let e = sym::vec("s", 4);
        s[..2].copy_from_slice(&e[..2]);
        let n = n as usize;
        s[n - 2..].copy_from_slice(&e[2..]);
        s
    };
    let code = if v == 50 { Lay::LUA50.abc(op50::RETURN, 0, 1, 0) } else { ret51(&Lay::LUA51) };
    let mut x = Fun::with_code(vec![code]);
    let mut inner = Fun::with_code(vec![code]);
    match place {
        0 => x.source = s.clone(),
        1 => x.k = vec![K::Nil, K::Str(s.clone())],
        2 => x.locals = vec![(s.clone(), 0, 1)],
        3 => x.upvalues = vec![s.clone()],
        4 => inner.k = vec![K::Str(s.clone())],
        5 => inner.source = s.clone(),
        // two strings that must stay apart
        _ => x.k = vec![K::Str(s.clone()), K::Str(b"b\0".to_vec())],
    }
    x.p.push(inner);
    let c = if v == 50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let y = match run(&c, g, &settings()) {
        Ok(y) => y,
        Err(_) => return sym::check(false, "a chunk is converted whatever bytes its strings hold"),
    };
    sym::cover("converted");
    let kstr = |k: Option<&K>| match k {
        Some(K::Str(s)) => s.clone(),
        _ => {
            sym::check(false, "a string constant stays a string constant");
            Vec::new()
        }
    };
    sym::check(y.p.len() == 1, "the nested function is kept");
    let got = match place {
        0 => y.source.clone(),
        1 => kstr(y.k.get(1)),
        2 => y.locals.first().map(|l| l.0.clone()).unwrap_or(vec![1; 99]),
        3 => y.upvalues.first().cloned().unwrap_or(vec![1; 99]),
        4 => kstr(y.p[0].k.first()),
        5 => y.p[0].source.clone(),
        _ => {
            sym::check(eq_bytes(&kstr(y.k.get(1)), b"b\0"), "the following string is kept");
            kstr(y.k.first())
        }
    };
    sym::check(got.len() == s.len(), "a string keeps its length");
    sym::check(eq_bytes(&got, &s), "a string keeps its bytes");
}

/// The bits of any number, split into cases by sign and exponent (floats) or
/// magnitude (integers), so that every shift the conversions make is constant.
fn any_raw(f: Fmt) -> u64 {
    if f.integral {
        let w = f.num as u64 * 8;
        // 0, or bit n - 1 and arbitrary bits below it
        let n = sym::pick("bits", w);
        let m = match n {
            0 => 0,
            _ => sym::u64("n") & mask(n as u32 - 1) | 1 << (n - 1),
        };
        let v = if sym::flag("negative") { !m } else { m };
        v & mask(w as u32)
    } else {
        let (e, m) = if f.num == 4 { (8, 23) } else { (11, 52) };
        let s = sym::flag("negative") as u64;
        let x = sym::concretize(sym::u16("exponent") as u64 & mask(e));
        s << (e + m) | x << m | sym::u64("n") & mask(m)
    }
}

/// One number constant. params: input format, output format, version
pub fn numbers() {
    let f = Fmt::nth(sym::param(0));
    let g = Fmt { format: 1, ..Fmt::nth(sym::param(1)) };
    let raw = any_raw(f);
    let (code, v50) = if sym::param(2) == 50 { (Lay::LUA50.abc(op50::RETURN, 0, 1, 0), true) } else { (ret51(&Lay::LUA51), false) };
    let mut x = Fun::with_code(vec![code]);
    x.k = vec![K::Num(raw), K::Bool(1)];
    let r = run(&if v50 { chunk50(f, &x) } else { chunk51(f, &x) }, g, &settings());
    let y = match r {
        Ok(y) => {
            sym::check(y.k.len() == 2 && matches!(y.k[1], K::Bool(1)), "the constants around a number are kept");
            match y.k[0] {
                K::Num(n) => Ok(n),
                _ => return sym::check(false, "a number stays a number"),
            }
        }
        Err(e) => Err(e),
    };
    let min = |n: u8| if n == 4 { i32::MIN as i64 } else { i64::MIN };
    let max = |n: u8| if n == 4 { i32::MAX as i64 } else { i64::MAX };
    if f.integral {
        let i = if f.num == 4 { raw as u32 as i32 as i64 } else { raw as i64 };
        if g.integral {
            let fits = i >= min(g.num) && i <= max(g.num);
            match y {
                Ok(n) => {
                    sym::cover("converted");
                    let j = if g.num == 4 { n as u32 as i32 as i64 } else { n as i64 };
                    sym::check(i == j, "an integer keeps its value");
                }
                Err(_) => {
                    sym::cover("rejected");
                    sym::check(!fits, "an integer that fits the output format is converted")
                }
            }
        } else {
            match y {
                Ok(n) => {
                    sym::cover("converted");
                    if g.num == 8 {
                        sym::check(exact(n, i), "an integer keeps its value as a float");
                    } else {
                        let d = i as f64;
                        sym::check(exact(d.to_bits(), i), "an integer without an exact double is rejected");
                        sym::check(n as u32 == (d as f32).to_bits(), "an integer becomes the nearest 32-bit float");
                    }
                }
                Err(_) => {
                    sym::cover("rejected");
                    sym::check(!exact((i as f64).to_bits(), i), "an integer with an exact double is converted");
                }
            }
        }
    } else {
        let d = if f.num == 4 { f32::from_bits(raw as u32) as f64 } else { f64::from_bits(raw) };
        if g.integral {
            match y {
                Ok(n) => {
                    sym::cover("converted");
                    let j = if g.num == 4 { n as u32 as i32 as i64 } else { n as i64 };
                    sym::check(j >= min(g.num) && j <= max(g.num) && exact(d.to_bits(), j), "a float keeps its value as an integer");
                }
                Err(_) => {
                    sym::cover("rejected");
                    // -2^63 and 2^31 are exact doubles
                    let whole = d == d.trunc() && d >= min(g.num) as f64 && (if g.num == 4 { d <= i32::MAX as f64 } else { d < 9223372036854775808.0 });
                    sym::check(!whole, "an integral float that fits the output format is converted");
                }
            }
        } else {
            match y {
                Err(_) => sym::check(false, "a float is converted to a float"),
                Ok(n) => {
                    sym::cover("converted");
                    if f.num == g.num {
                        // the bits of a NaN may change
                        sym::check(n == raw || d != d, "a float keeps its value");
                    } else if g.num == 8 {
                        sym::check(n == d.to_bits() || d != d && f64::from_bits(n) != f64::from_bits(n), "a float keeps its value");
                    } else {
                        let e = f32::from_bits(n as u32);
                        sym::check(n as u32 == (d as f32).to_bits() || d != d && e != e, "a double becomes the nearest 32-bit float");
                    }
                }
            }
        }
    }
}

/// Whether the double with these bits is exactly the integer, by the meaning
/// of the bits (no floating point operation involved).
fn exact(bits: u64, i: i64) -> bool {
    let neg = bits >> 63 != 0;
    let e = ((bits >> 52) & 0x7ff) as u32;
    let m = bits & 0xf_ffff_ffff_ffff;
    if e == 0 {
        return m == 0 && i == 0;
    }
    // value = (2^52 + m) * 2^(e - 1075)
    if e < 1023 || e > 1086 {
        return false;
    }
    let m = m | 1 << 52;
    let mag: u64 = if e >= 1075 {
        // e <= 1086: m < 2^53 shifted by at most 11 stays below 2^64
        m << (e - 1075)
    } else {
        let sh = 1075 - e;
        if m & ((1 << sh) - 1) != 0 {
            return false;
        }
        m >> sh
    };
    if neg {
        i < 0 && mag == (i as u64).wrapping_neg()
    } else {
        i >= 0 && mag == i as u64
    }
}

/// A chunk with something of everything.
fn sample(v50: bool, f: Fmt) -> Fun {
    let g = Fmt::STD;
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let (mv, rt) = if v50 { (op50::MOVE, op50::RETURN) } else { (op::MOVE, op::RETURN) };
    let a = sym::below("ra", 200);
    let mut x = Fun::with_code(vec![l.abc(mv, a, 0, 0), l.abc(rt, 0, 1, 0)]);
    x.source = sym::vec("source", 2);
    x.line = any_int("line", f, g);
    x.nups = sym::u8("nups");
    x.nparams = sym::u8("nparams");
    x.maxstack = sym::u8("maxstack");
    x.k = vec![K::Nil, K::Bool(sym::u8("bool")), K::Num(any_num("num", f)), K::Str(sym::vec("kstr", 1))];
    x.locals = vec![(sym::vec("local", 1), any_int("start", f, g), any_int("end", f, g))];
    x.upvalues = vec![sym::vec("upvalue", 1)];
    let mut y = Fun::with_code(vec![l.abc(rt, 0, 1, 0)]);
    y.k = vec![K::Num(any_num("num", f))];
    x.p = vec![y];
    x
}

/// A chunk cut short anywhere is rejected. params: version, format
pub fn truncated() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let x = sample(v50, f);
    let c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let cut = sym::concretize({
        let c0 = sym::u16("cut") as u64;
        sym::assume(c0 < c.len() as u64);
        c0
    }) as usize;
    let out = Fmt { format: 9, ..f };
    match unify(&c[..cut], &out.to_lunify(), &settings()) {
        Ok(_) => sym::check(false, "a truncated chunk is rejected"),
        Err(e) => {
            if cut <= SIG.len() {
                sym::cover("cut in the signature");
                sym::check(matches!(e, LunifyError::IncorrectSignature), "a chunk without a complete signature is reported as such");
            } else {
                sym::cover("cut after the signature");
                sym::check(matches!(e, LunifyError::InputTooShort), "a truncated chunk is reported as too short");
            }
        }
    }
}

/// A chunk followed by anything is rejected. params: version, format, extra bytes
pub fn trailing() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let x = sample(v50, f);
    let mut c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let n = sym::param(2);
    let t = sym::vec("tail", n as usize);
    c.extend_from_slice(&t);
    let out = Fmt { format: 9, ..f };
    match unify(&c, &out.to_lunify(), &settings()) {
        Ok(_) => {
            sym::cover("complete");
            sym::check(n == 0, "a chunk with trailing bytes is rejected")
        }
        Err(e) => {
            sym::cover("rejected");
            sym::check(n > 0, "a complete chunk is accepted");
            sym::check(matches!(e, LunifyError::InputTooLong), "trailing bytes are reported as too long");
        }
    }
}

/// Input that already is what is asked for comes back unchanged, whatever it
/// holds. params: format, body length
pub fn identity() {
    let f = Fmt { format: sym::u8("format"), ..Fmt::nth(sym::param(0)) };
    let mut c = header51(f);
    c.extend_from_slice(&sym::vec("body", sym::param(1) as usize));
    match unify(&c, &f.to_lunify(), &settings()) {
        Ok(o) => {
            sym::cover("returned");
            sym::check(eq_bytes(&o, &c), "input in the requested format is returned unchanged");
        }
        Err(_) => sym::check(false, "input in the requested format is accepted"),
    }
}

/// Converting twice is converting once, and detours do not matter.
/// params: input format, final format, detour format, size, depth
pub fn twice() {
    let f = Fmt::nth(sym::param(0));
    let g = Fmt { format: 3, ..Fmt::nth(sym::param(1)) };
    let h = Fmt { format: 4, ..Fmt::nth(sym::param(2)) };
    let l = Lay::LUA51;
    let code = [l.abc(op::MOVE, 1, 0, 0), ret51(&l)];
    let x = any_fun(f, g, &code, SIZES[sym::param(3) as usize], sym::param(4));
    let c = chunk51(f, &x);
    let s = settings();
    let a = match unify(&c, &g.to_lunify(), &s) {
        Ok(a) => a,
        Err(_) => return sym::check(false, "a valid chunk is converted"),
    };
    sym::cover("converted");
    match unify(&a, &g.to_lunify(), &s) {
        Ok(b) => sym::check(eq_bytes(&a, &b), "converting again changes nothing"),
        Err(_) => sym::check(false, "the result of a conversion is accepted as input"),
    }
    match unify(&c, &h.to_lunify(), &s).and_then(|d| unify(&d, &g.to_lunify(), &s)) {
        Ok(b) => sym::check(eq_bytes(&a, &b), "a detour over another format changes nothing"),
        Err(_) => sym::check(false, "the result of a conversion is accepted as input"),
    }
    // and back to where it came from
    let f2 = Fmt { format: 5, ..f };
    match unify(&a, &f2.to_lunify(), &s) {
        Ok(b) => match parse51(SIG, f2, &b) {
            Some(y) => check_same51(&x, &y, &code),
            None => sym::check(false, "converting back gives a chunk in the original format"),
        },
        Err(_) => sym::check(false, "the result of a conversion is accepted as input"),
    }
}

/// The result depends on the program, not on how the input encodes it.
/// params: version, two input formats, output format, size
pub fn encoding() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let f2 = Fmt::nth(sym::param(2));
    let g = Fmt { format: 3, ..Fmt::nth(sym::param(3)) };
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let (mv, rt) = if v50 { (op50::MOVE, op50::RETURN) } else { (op::MOVE, op::RETURN) };
    let code = [l.abc(mv, 1, 0, 0), l.abc(rt, 0, 1, 0)];
    let mut lim = f;
    lim.int = f.int.min(f2.int);
    let x = any_fun(lim, g, &code, SIZES[sym::param(4) as usize], 1);
    let c = |f: Fmt| if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    let s = settings();
    let a = unify(&c(f), &g.to_lunify(), &s);
    let b = unify(&c(f2), &g.to_lunify(), &s);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            sym::cover("converted");
            sym::check(eq_bytes(&a, &b), "the byte order and widths of the input do not influence the output");
        }
        (Err(a), Err(b)) => {
            sym::check(a == b, "the byte order and widths of the input do not influence the error");
            sym::cover("rejected");
        }
        _ => sym::check(false, "the byte order and widths of the input do not decide whether it is accepted"),
    }
}

/// One part of a function that is long: everything of it survives.
/// params: version, part, count, input format, output format.
pub fn many() {
    let v50 = sym::param(0) == 50;
    let n = sym::param(2) as usize;
    let f = Fmt::nth(sym::param(3));
    let g = Fmt { format: 7, ..Fmt::nth(sym::param(4)) };
    let (li, lo) = (if v50 { Lay::LUA50 } else { Lay::LUA51 }, Lay::LUA51);
    let (last, last_out) = (li.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0), ret51(&lo));
    let mut x = Fun::with_code(vec![last]);
    let mut code = vec![last_out];
    // arbitrary at the ends and in the middle
    let at = |i: usize| i == 0 || i + 1 == n || i == n / 2;
    let long = || {
        let mut s = vec![b'a'; n];
        for i in 0..n {
            if at(i) {
                s[i] = sym::u8("byte");
            }
        }
        s
    };
    match sym::param(1) {
        0 => x.k.push(K::Str(long())),
        1 => x.source = long(),
        2 => x.upvalues.push(long()),
        3 => x.locals.push((long(), 0, 1)),
        4 => {
            x.k = vec![K::Nil; n];
            for i in 0..n {
                if at(i) {
                    x.k[i] = if i == 0 { K::Str(vec![sym::u8("byte"), 0]) } else { K::Bool(sym::u8("boolean") & 1) };
                }
            }
        }
        5 => {
            x.code = vec![li.abx(1, 0, 0); n];
            code = vec![lo.abx(1, 0, 0); n];
            x.lines = vec![1; n];
            for i in 0..n {
                if at(i) {
                    let bx = sym::u32("bx") as u64 & mask(18);
                    x.code[i] = li.abx(1, 0, bx);
                    code[i] = lo.abx(1, 0, bx);
                    x.lines[i] = sym::u32("line") as i32 as i64 as u64 & mask(31);
                }
            }
            x.code.push(last);
            x.lines.push(1);
            code.push(last_out);
        }
        6 => {
            for i in 0..n {
                x.locals.push((vec![b'v', 0], if at(i) { sym::u32("pc") as u64 & mask(31) } else { i as u64 }, n as u64));
            }
        }
        7 => {
            x.nups = n.min(255) as u8;
            for i in 0..n {
                x.upvalues.push(if at(i) { vec![sym::u8("byte"), 0] } else { vec![] });
            }
        }
        _ => {
            let p = x.clone();
            for i in 0..n {
                let mut p = p.clone();
                p.line = if at(i) { sym::u32("line") as u64 & mask(31) } else { i as u64 };
                x.p.push(p);
            }
        }
    }
    let c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    match run(&c, g, &settings()) {
        Ok(y) => {
            sym::cover("converted");
            fn nested(a: &Fun, b: &Fun, code: &[u64], v50: bool) {
                let mut a2 = a.clone();
                if v50 {
                    a2.last = b.last;
                }
                check_meta(&a2, b);
                check_consts(a, b);
                check_lines(a, b);
                sym::check(b.code.len() == code.len(), "no instruction is lost or added");
                let mut same = true;
                for i in 0..code.len() {
                    same &= b.code[i] == code[i];
                }
                sym::check(same, "every instruction is kept");
                sym::check(a.p.len() == b.p.len(), "no nested function is lost or added");
                for i in 0..a.p.len() {
                    nested(&a.p[i], &b.p[i], &code[code.len() - 1..], v50);
                }
            }
            nested(&x, &y, &code, v50)
        }
        Err(_) => sym::check(false, "a valid chunk is converted"),
    }
}
