//! Headers: what is accepted, which error is reported, what is written.
use crate::chunk::*;
use crate::common::*;
use crate::sym;

/// The error a header with these bytes after the signature must cause, if any.
fn expected(b: &[u8]) -> Option<LunifyError> {
    let w = |x: u8| x == 4 || x == 8;
    let v = b[0];
    if v != 0x50 && v != 0x51 {
        return Some(LunifyError::UnsupportedVersion(v));
    }
    let b = if v == 0x51 { &b[2..] } else { &b[1..] };
    if b[0] > 1 {
        return Some(LunifyError::InvaildEndianness(b[0]));
    }
    if !w(b[1]) {
        return Some(LunifyError::UnsupportedIntegerWidth(b[1]));
    }
    if !w(b[2]) {
        return Some(LunifyError::UnsupportedSizeTWidth(b[2]));
    }
    if !w(b[3]) {
        return Some(LunifyError::UnsupportedInstructionWidth(b[3]));
    }
    let n = if v == 0x51 {
        b[4]
    } else {
        if [b[4], b[5], b[6], b[7]] != [6, 8, 9, 9] {
            return Some(LunifyError::UnsupportedInstructionFormat([b[4], b[5], b[6], b[7]]));
        }
        b[8]
    };
    if !w(n) {
        return Some(LunifyError::UnsupportedNumberWidth(n));
    }
    None
}

fn is_header_error(e: &LunifyError) -> bool {
    use LunifyError::*;
    matches!(
        e,
        IncorrectSignature
            | UnsupportedVersion(_)
            | InvaildEndianness(_)
            | UnsupportedInstructionFormat(_)
            | UnsupportedSizeTWidth(_)
            | UnsupportedIntegerWidth(_)
            | UnsupportedInstructionWidth(_)
            | UnsupportedNumberWidth(_)
    )
}

/// Any header after the signature, then zeros: the first unsupported field
/// is reported, and nothing in the header otherwise.
pub fn fields() {
    let h = sym::vec("header", 10);
    let mut c = SIG.to_vec();
    c.extend_from_slice(if h[0] == 0x51 { &h[..8] } else { &h });
    c.extend_from_slice(&[0; 80]);
    let r = unify(&c, &Fmt { format: 9, ..Fmt::STD }.to_lunify(), &settings());
    match expected(&h) {
        Some(want) => {
            sym::cover("unsupported");
            match r {
                Ok(_) => sym::check(false, "an unsupported header is rejected"),
                Err(e) => sym::check(e == want, "the first unsupported field of the header is reported"),
            }
        }
        None => {
            sym::cover("supported");
            if let Err(e) = r {
                sym::check(!is_header_error(&e), "no supported header is rejected");
            }
        }
    }
}

/// Any bytes in place of the signature.
pub fn signature() {
    let n = sym::pick("len", 6) as usize;
    let mut c = sym::vec("sig", n);
    let whole = sym::flag("whole");
    if whole {
        c.extend_from_slice(&chunk51(Fmt::STD, &Fun::with_code(vec![ret51(&Lay::LUA51)]))[4..]);
    }
    let want = n == 4 && c[..4] == *SIG && whole;
    let r = unify(&c, &Fmt { format: 9, ..Fmt::STD }.to_lunify(), &settings());
    if want {
        sym::cover("signature");
        sym::check(r.is_ok(), "a chunk with the signature is accepted");
    } else if n >= 4 && c[..4] == *SIG {
        sym::check(!matches!(r, Err(LunifyError::IncorrectSignature)) || c.len() == 4, "the signature is recognized");
    } else {
        sym::cover("no signature");
        sym::check(matches!(r, Err(LunifyError::IncorrectSignature)), "input without the signature is reported as such");
    }
}

/// A supported header is decoded as it says, in every combination of byte
/// order, widths and number kind. params: version
pub fn combinations() {
    let v50 = sym::param(0) == 50;
    let k = sym::pick("fmt", 64);
    let f = Fmt { format: if v50 { 0 } else { sym::u8("format") }, ..Fmt::nth(k) };
    let g = Fmt { format: 3, integral: f.integral, num: f.num, ..Fmt::nth(0) };
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let ra = sym::below("ra", 200);
    let code = vec![l.abc(op::MOVE, ra, 0, 0), l.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0)];
    let mut x = Fun::with_code(code);
    x.line = sym::u32("line") as i32 as i64 as u64;
    x.lines[0] = sym::u32("lineinfo") as i32 as i64 as u64;
    x.source = sym::vec("source", 1);
    x.maxstack = 250;
    x.k = vec![K::Num(crate::gen::any_num("num", f)), K::Str(sym::vec("kstr", 2))];
    x.locals = vec![(vec![], 1, sym::u32("end") as i32 as i64 as u64)];
    let c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    match run(&c, g, &settings()) {
        Ok(y) => {
            sym::cover("decoded");
            x.last = y.last;
            x.code = vec![Lay::LUA51.abc(op::MOVE, ra, 0, 0), ret51(&Lay::LUA51)];
            crate::gen::check_same51(&x, &y, &x.code);
        }
        Err(_) => sym::check(false, "a chunk with a supported header is decoded as the header says"),
    }
}

/// The output is a complete chunk in exactly the requested format and with
/// the requested signature, for every output format. params: version
pub fn container() {
    let v50 = sym::param(0) == 50;
    let f = Fmt::nth(sym::param(1));
    let g = Fmt { format: sym::u8("format"), ..Fmt::nth(sym::pick("fmt", 64)) };
    let mut s = settings();
    // an output signature of its own
    s.output.binary_signature = ["\x1bLua", "Q", "\x1bLuaX", ""][sym::pick("sig", 4) as usize];
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let code = vec![l.abc(op::MOVE, 1, 0, 0), l.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0)];
    let n = sym::pick("number", 2) * 40;
    let num = match (f.integral, f.num) {
        (true, _) => n,
        (_, 4) => (n as f32).to_bits() as u64,
        _ => (n as f64).to_bits(),
    };
    let mut x = Fun::with_code(code.clone());
    x.line = sym::u32("line") as i32 as i64 as u64;
    x.lines[0] = sym::u32("lineinfo") as i32 as i64 as u64;
    x.source = sym::vec("source", 1);
    x.nups = sym::u8("nups");
    x.k = vec![K::Num(num), K::Nil, K::Bool(1), K::Str(sym::vec("kstr", 2))];
    x.locals = vec![(sym::vec("local", 1), 1, sym::u32("end") as i32 as i64 as u64)];
    x.upvalues = vec![sym::vec("upvalue", 1)];
    let mut y = Fun::with_code(code);
    y.k = vec![K::Num(num)];
    x.p.push(y);
    let c = if v50 { chunk50(f, &x) } else { chunk51(f, &x) };
    match run(&c, g, &s) {
        Ok(mut y) => {
            sym::cover("converted");
            x.last = y.last;
            x.p[0].last = y.p[0].last;
            let want = match (g.integral, g.num) {
                (true, _) => n,
                (_, 4) => (n as f32).to_bits() as u64,
                _ => (n as f64).to_bits(),
            };
            for q in [&mut x.k[0], &mut y.k[0]] {
                if let K::Num(q) = q {
                    sym::check(*q == want || *q == num, "numbers are written in the requested format");
                    *q = 0;
                }
            }
            if let (Some(K::Num(a)), Some(K::Num(b))) = (x.p[0].k.get_mut(0), y.p[0].k.get_mut(0)) {
                sym::check(*b == want, "numbers are written in the requested format");
                *a = 0;
                *b = 0;
            }
            let code = vec![Lay::LUA51.abc(op::MOVE, 1, 0, 0), ret51(&Lay::LUA51)];
            crate::gen::check_same51(&x, &y, &code);
        }
        Err(_) => sym::check(false, "a valid chunk is converted to every output format"),
    }
}

/// The specification of an operand layout is accepted exactly if it names
/// every operand once, within its size limits, B next to C, 64 bits in all.
pub fn layouts() {
    let mut spec = [OperandType::A(0); 4];
    let mut count = [0; 4];
    let mut size = [0u64; 4];
    let mut place = [0usize; 4];
    for i in 0..4 {
        let k = sym::pick("kind", 4) as usize;
        let n = sym::u64("size");
        spec[i] = match k {
            0 => OperandType::Opcode(n),
            1 => OperandType::A(n),
            2 => OperandType::B(n),
            _ => OperandType::C(n),
        };
        count[k] += 1;
        size[k] = n;
        place[k] = i;
    }
    let r = InstructionLayout::from_specification(spec);
    let mut valid = count == [1; 4];
    if valid {
        for (k, min) in [6, 7, 8, 8].into_iter().enumerate() {
            valid &= size[k] >= min && size[k] < 32;
        }
        valid = valid && size.iter().sum::<u64>() <= 64;
        valid &= place[2].abs_diff(place[3]) == 1;
    }
    match r {
        Ok(_) => {
            sym::cover("accepted");
            sym::check(valid, "only valid layouts are accepted");
        }
        Err(e) => {
            sym::cover("rejected");
            sym::check(!valid, "every valid layout is accepted");
            sym::check(matches!(e, LunifyError::InvalidInstructionLayout), "an invalid layout is reported as such");
        }
    }
}

/// A layout that needs more bits than the output's instructions have is never
/// used to write truncated instructions. params: version
pub fn too_wide() {
    let v50 = sym::param(0) == 50;
    let so = [
        [('o', 6), ('a', 8), ('c', 9), ('b', 9)],
        [('o', 7), ('a', 8), ('c', 9), ('b', 9)],
        [('b', 16), ('c', 16), ('a', 16), ('o', 16)],
        [('o', 6), ('a', 7), ('c', 8), ('b', 8)],
    ][sym::pick("layout", 4) as usize];
    let (lo, layo) = Lay::spec(so);
    let mut s = settings();
    s.output.layout = layo;
    let g = Fmt { format: 1, ins: if sym::flag("wide") { 8 } else { 4 }, ..Fmt::STD };
    let l = if v50 { Lay::LUA50 } else { Lay::LUA51 };
    let ra = sym::below("ra", 100);
    let mut x = Fun::with_code(vec![l.abc(op::MOVE, ra, 1, 0), l.abc(if v50 { op50::RETURN } else { op::RETURN }, 0, 1, 0)]);
    x.maxstack = 200;
    let c = if v50 { chunk50(Fmt::STD, &x) } else { chunk51(Fmt::STD, &x) };
    let fits = lo.bits() <= g.ins as u32 * 8;
    match run(&c, g, &s) {
        Ok(y) => {
            sym::cover("fits");
            sym::check(fits, "instructions are not cut to the output's instruction width");
            sym::check(y.code.len() == 2 && y.code[0] == lo.abc(op::MOVE, ra, 1, 0) && y.code[1] == lo.abc(op::RETURN, 0, 1, 0), "instructions are written in the output layout");
        }
        Err(e) => {
            sym::cover("too wide");
            sym::check(!fits, "a layout that fits the instruction width is used");
            sym::check(matches!(e, LunifyError::InvalidInstructionLayout), "a layout that is too wide is reported as such");
        }
    }
}
