//! Re-encoding of single Lua 5.1 instructions between operand layouts.
use crate::chunk::*;
use crate::common::*;
use crate::sym;

type Spec = [(char, u32); 4];
pub const PAIRS: [(Spec, Spec); 8] = [
    (L51, L51),
    (L51, [('o', 6), ('a', 8), ('b', 9), ('c', 9)]),
    (L51, [('b', 9), ('c', 9), ('a', 8), ('o', 6)]),
    (L51, [('o', 6), ('a', 10), ('c', 8), ('b', 8)]),
    ([('b', 9), ('c', 9), ('a', 8), ('o', 6)], [('a', 7), ('c', 9), ('b', 9), ('o', 7)]),
    ([('a', 12), ('o', 8), ('c', 14), ('b', 14)], L51),
    (L51, [('o', 31), ('a', 7), ('c', 12), ('b', 13)]),
    ([('o', 6), ('a', 9), ('b', 9), ('c', 8)], [('o', 6), ('a', 8), ('c', 10), ('b', 8)]),
];

fn width(l: &Lay) -> u8 {
    if l.bits() > 32 {
        8
    } else {
        4
    }
}

/// One symbolic instruction word of any opcode and operands.
pub fn reenc51() {
    let (si, so) = PAIRS[sym::param(0) as usize];
    let mut s = settings();
    let (li, layi) = Lay::spec(si);
    let (lo, layo) = Lay::spec(so);
    s.lua51.layout = layi;
    s.output.layout = layo;
    let fi = Fmt { ins: width(&li), ..Fmt::STD };
    let fo = Fmt { ins: width(&lo), format: 1, ..Fmt::STD };
    let w = if fi.ins == 4 { sym::u32("w") as u64 } else { sym::u64("w") & mask(li.bits()) };
    let o = sym::concretize(li.op(w));
    let chunk = chunk51(fi, &Fun::with_code(vec![w, ret51(&li)]));
    let r = run(&chunk, fo, &s);
    if o >= 38 {
        sym::cover("invalid opcode");
        sym::check(matches!(r, Err(LunifyError::InvalidOpcode(x)) if x == o), "an opcode above 37 is rejected as InvalidOpcode");
        return;
    }
    let (a, b, c, bx) = (li.a(w), li.b(w), li.c(w), li.bx(w));
    let rk_in = 1u64 << (li.b.1 - 1);
    let rk_out = 1u64 << (lo.b.1 - 1);
    let mut fits = a <= mask(lo.a.1);
    let want;
    let arg = |m: Arg, v: u64, (_, n): (u32, u32)| -> (bool, u64) {
        match m {
            Arg::N => {
                sym::assume(v == 0);
                (true, 0)
            }
            Arg::H => (true, v & mask(n)),
            Arg::R => (v <= mask(n), v),
            Arg::K => {
                // a register or constant index, with the constant flag moved
                let k = v & rk_in != 0;
                let i = v & !rk_in;
                let x = if k { i | rk_out } else { i };
                (i < rk_out && x <= mask(n), x)
            }
        }
    };
    let mode = MODES51[o as usize];
    match mode {
        Mode::ABC(mb, mc) => {
            let (fb, vb) = arg(mb, b, lo.b);
            let (fc, vc) = arg(mc, c, lo.c);
            fits &= fb & fc;
            want = lo.abc(o, a, vb, vc);
        }
        Mode::ABx => {
            fits &= bx <= mask(lo.bx_size());
            want = lo.abx(o, a, bx);
        }
        Mode::AsBx => {
            let v = li.sbx(w) + lo.bias() as i64;
            fits &= v >= 0 && v as u64 <= mask(lo.bx_size());
            want = lo.abx(o, a, v as u64);
        }
    }
    // registers beyond any possible stack are not bytecode
    if o == op::TESTSET {
        sym::assume(b < rk_in && b < rk_out);
    }
    match r {
        Ok(f) => {
            sym::cover("re-encoded");
            sym::check(fits, "an operand that does not fit the output layout is rejected");
            sym::check(f.code.len() == 2, "the instruction count is kept");
            let g = f.code[0];
            if o == op::NEWTABLE {
                sym::check((lo.op(g), lo.a(g)) == (o, a), "opcode and A are re-encoded exactly");
            } else {
                sym::check(g == want, "opcode and operands are re-encoded exactly");
            }
            sym::check(f.code[1] == ret51(&lo), "the following instruction is re-encoded exactly");
        }
        Err(e) => {
            sym::cover("rejected");
            sym::check(!fits, "an instruction whose operands all fit is accepted");
            sym::check(matches!(e, LunifyError::ValueTooBigForOperand), "an operand that does not fit is reported as ValueTooBigForOperand");
        }
    }
}
