//! Single Lua 5.0 instructions with arbitrary operands.
use crate::chunk::*;
use crate::common::*;
use crate::reenc::PAIRS;
use crate::sym;
use crate::vm::number51;

/// Stack limits of the input: where registers end and constants begin.
const LIMITS: [u64; 4] = [250, 200, 256, 128];

/// params: layouts, stack limit
pub fn one50() {
    let (si, so) = match sym::param(0) {
        0 => (L50, L51),
        i => PAIRS[i as usize],
    };
    let limit = LIMITS[sym::param(1) as usize];
    let mut s = settings();
    let (li, layi) = Lay::spec(si);
    let (lo, layo) = Lay::spec(so);
    s.lua50.layout = layi;
    s.lua50.stack_limit = limit;
    s.output.layout = layo;
    let sizes = [li.op.1 as u8, li.a.1 as u8, li.b.1 as u8, li.c.1 as u8];
    let w8 = |l: &Lay| if l.bits() > 32 { 8 } else { 4 };
    let fi = Fmt { ins: w8(&li), ..Fmt::STD };
    let fo = Fmt { ins: w8(&lo), format: 1, ..Fmt::STD };
    let w = if fi.ins == 4 { sym::u32("w") as u64 } else { sym::u64("w") & mask(li.bits()) };
    let stack = sym::u8("stack") as u64;
    // what a Lua 5.0 compiler states
    sym::assume(stack <= 249 && stack <= limit);
    let o = sym::concretize(li.op(w));
    let mut x = Fun::with_code(vec![w, li.abc(op50::RETURN, 0, 1, 0)]);
    x.maxstack = stack as u8;
    let (a, b, c, bx) = (li.a(w), li.b(w), li.c(w), li.bx(w));
    let number = match o {
        op50::FORLOOP | op50::TFORLOOP | op50::TFORPREP | op50::SETLIST | op50::SETLISTO => return,
        op50::TEST => Some(op::TESTSET),
        _ => number51(o),
    };
    let n = match number {
        Some(n) => n,
        None => {
            sym::cover("invalid opcode");
            let r = run(&chunk50_with(fi, &x, sizes), fo, &s);
            sym::check(matches!(r, Err(LunifyError::InvalidOpcode(y)) if y == o), "an opcode above 34 is rejected as InvalidOpcode");
            return;
        }
    };
    let (_, nb) = lo.b;
    let (_, nc) = lo.c;
    // Registers lie in the stack.
    let reg = |r: u64| sym::assume(r < stack);
    let rk_out = 1u64 << (lo.b.1 - 1);
    let mut fits = a <= mask(lo.a.1);
    // a register or constant by its meaning: the constant's index
    let rk = |v: u64, n: u32| -> (bool, u64) {
        let k = v >= limit;
        sym::assume(k || v < stack);
        let i = if k { v - limit } else { v };
        let x = if k { i | rk_out } else { i };
        (i < rk_out && x <= mask(n), x)
    };
    let plain = |v: u64, n: u32| (v <= mask(n), v);
    // what an instruction does not use is 0
    match o {
        op50::MOVE | op50::UNM | op50::NOT | op50::LOADNIL | op50::GETUPVAL | op50::SETUPVAL | op50::RETURN => sym::assume(c == 0),
        op50::CLOSE => sym::assume(b == 0 && c == 0),
        op50::JMP => sym::assume(a == 0),
        _ => {}
    }
    let none = (true, 0);
    let mut extra = 0;
    enum W {
        ABC((bool, u64), (bool, u64)),
        Bx,
        Sbx,
        Any,
    }
    let want = match o {
        op50::MOVE | op50::UNM | op50::NOT => {
            reg(a);
            reg(b);
            W::ABC(plain(b, nb), none)
        }
        op50::LOADK | op50::GETGLOBAL | op50::SETGLOBAL | op50::CLOSURE => {
            reg(a);
            W::Bx
        }
        op50::LOADBOOL => {
            reg(a);
            W::ABC(plain(b, nb), plain(c, nc))
        }
        op50::LOADNIL => {
            reg(a);
            reg(b);
            sym::assume(a <= b);
            W::ABC(plain(b, nb), none)
        }
        op50::GETUPVAL | op50::SETUPVAL => {
            reg(a);
            W::ABC(plain(b, nb), none)
        }
        op50::GETTABLE | op50::SELF => {
            extra = (o == op50::SELF) as u64;
            sym::assume(a + extra < stack);
            reg(b);
            W::ABC(plain(b, nb), rk(c, nc))
        }
        op50::SETTABLE | op50::ADD..=op50::POW => {
            reg(a);
            W::ABC(rk(b, nb), rk(c, nc))
        }
        op50::EQ | op50::LT | op50::LE => W::ABC(rk(b, nb), rk(c, nc)),
        op50::NEWTABLE => {
            reg(a);
            W::Any
        }
        op50::CONCAT => {
            reg(a);
            reg(c);
            sym::assume(b < c);
            W::ABC(plain(b, nb), plain(c, nc))
        }
        op50::JMP => W::Sbx,
        op50::TEST => {
            reg(a);
            reg(b);
            sym::assume(c <= 1);
            sym::assume(b < rk_out);
            W::ABC(plain(b, nb), plain(c, nc))
        }
        op50::CALL | op50::TAILCALL => {
            reg(a);
            sym::assume(a + b.max(1) <= stack && a + c.max(1) <= stack + 1);
            W::ABC(plain(b, nb), plain(c, nc))
        }
        op50::RETURN => {
            reg(a);
            sym::assume(a + b.max(1) <= stack + 1);
            W::ABC(plain(b, nb), none)
        }
        _ => {
            // CLOSE
            reg(a);
            W::ABC(none, none)
        }
    };
    // The jump of the second instruction's kind leaves the function: no target.
    let want = match want {
        W::ABC((fb, vb), (fc, vc)) => {
            fits &= fb & fc;
            Some(lo.abc(n, a, vb, vc))
        }
        W::Bx => {
            fits &= bx <= mask(lo.bx_size());
            Some(lo.abx(n, a, bx))
        }
        W::Sbx => {
            let v = li.sbx(w) + lo.bias() as i64;
            fits &= v >= 0 && v as u64 <= mask(lo.bx_size());
            Some(lo.abx(n, a, v as u64))
        }
        W::Any => None,
    };
    match run(&chunk50_with(fi, &x, sizes), fo, &s) {
        Ok(f) => {
            sym::cover("converted");
            sym::check(fits, "an operand that does not fit the output is rejected");
            sym::check(f.code.len() == 2, "one instruction comes from one");
            let mut g = f.code[0];
            let mut want = want.unwrap_or(lo.abc(n, a, lo.b(g), lo.c(g)));
            if n == op::TESTSET {
                // with the same register it may be TEST as well
                let t = lo.op(g) == op::TEST;
                let (ga, gb, gc) = (lo.a(g), lo.b(g), lo.c(g));
                sym::check(gc == c && ga == a && if t { a == b } else { lo.op(g) == n && gb == b }, "the instruction has the same meaning");
                g = 0;
                want = 0;
            }
            if n == op::JMP {
                // A means nothing
                sym::check(lo.op(g) == n && lo.bx(g) == lo.bx(want), "the instruction has the same meaning");
            } else {
                sym::check(g == want, "the instruction has the same meaning");
            }
            sym::check(f.code[1] == lo.abc(op::RETURN, 0, 1, 0), "the next instruction has the same meaning");
            let m = f.maxstack as u64;
            sym::check(m >= stack && m <= 250, "the stack is not smaller than before and not too large");
            let _ = extra;
        }
        Err(e) => {
            sym::cover("rejected");
            sym::check(!fits, "an instruction whose operands all fit is converted");
            sym::check(matches!(e, LunifyError::ValueTooBigForOperand), "an operand that does not fit is reported as ValueTooBigForOperand");
        }
    }
}
