//! Floating-point conversions and roundings as bit-vector circuits, so that
//! partly known operands (a constant exponent, say) fold.
use crate::expr::*;

fn shape(w: u32) -> (u32, u32) {
    if w == 32 {
        (8, 23)
    } else {
        (11, 52)
    }
}

impl Arena {
    fn c(v: u128, w: u32) -> Bv {
        Bv::C(v & mask(w), w)
    }
    fn zf(&mut self, a: Bv, w: u32) -> Bv {
        if a.w() >= w {
            self.ext(a, 0, w)
        } else {
            self.zext(a, w)
        }
    }

    /// The circuit of `op`, or None for arithmetic.
    pub fn fp_circuit(&mut self, op: FpOp, a: Bv, w: u32) -> Option<Bv> {
        Some(match op {
            FpOp::Add | FpOp::Sub | FpOp::Mul | FpOp::Div => return None,
            FpOp::Ext => self.fp_ext(a),
            FpOp::Trunc => self.fp_trunc(a),
            FpOp::FromS | FpOp::FromU => self.fp_from(a, w, op == FpOp::FromS),
            FpOp::ToSSat | FpOp::ToUSat => self.fp_to(a, w, op == FpOp::ToSSat),
            _ => self.fp_round(op, a),
        })
    }

    fn fp_to(&mut self, a: Bv, w: u32, signed: bool) -> Bv {
        let (eb, mb) = shape(a.w());
        let bias = mask(eb - 1);
        let e = self.ext(a, mb, eb);
        let m = self.ext(a, 0, mb);
        let s = self.ext(a, a.w() - 1, 1);
        let big = w.max(mb + 1);
        let sig = self.concat(Bv::C(1, 1), m);
        let sig = self.zf(sig, big);
        let e32 = self.zext(e, 32);
        let sh = self.bin(BinOp::Sub, e32, Self::c(bias, 32));
        let ls = self.bin(BinOp::Sub, sh, Self::c(mb as u128, 32));
        let rs = self.bin(BinOp::Sub, Self::c(mb as u128, 32), sh);
        let (lsw, rsw) = (self.zf(ls, big), self.zf(rs, big));
        let l = self.bin(BinOp::Shl, sig, lsw);
        let r = self.bin(BinOp::LShr, sig, rsw);
        let right = self.cmp(CmpOp::Ule, sh, Self::c(mb as u128, 32));
        let mag = self.ite(right, r, l);
        let mag = self.zf(mag, w);
        let small = self.cmp(CmpOp::Ult, e, Self::c(bias, eb));
        let lim = if signed { w - 1 } else { w };
        let over = self.cmp(CmpOp::Ule, Self::c(bias + lim as u128, 32), e32);
        let neg = self.bin(BinOp::Sub, Self::c(0, w), mag);
        let (nv, nsat, psat) = if signed { (neg, Self::c(1 << (w - 1), w), Self::c(mask(w - 1), w)) } else { (Self::c(0, w), Self::c(0, w), Self::c(!0, w)) };
        let v = self.ite(s, nv, mag);
        let sat = self.ite(s, nsat, psat);
        let v = self.ite(over, sat, v);
        let v = self.ite(small, Self::c(0, w), v);
        let nan = self.is_nan(a);
        self.ite(nan, Self::c(0, w), v)
    }

    /// Shifts out leading zeros; returns (shifted, number of zeros as 32 bits).
    fn normalize(&mut self, mut n: Bv) -> (Bv, Bv) {
        let w = n.w();
        let mut lz = Self::c(0, 32);
        let mut k = 1;
        while k * 2 < w {
            k *= 2;
        }
        while k > 0 {
            let top = self.ext(n, w - k, k);
            let z = self.cmp(CmpOp::Eq, top, Self::c(0, k));
            let sh = self.bin(BinOp::Shl, n, Self::c(k as u128, w));
            n = self.ite(z, sh, n);
            let inc = self.ite(z, Self::c(k as u128, 32), Self::c(0, 32));
            lz = self.bin(BinOp::Add, lz, inc);
            k /= 2;
        }
        (n, lz)
    }

    fn fp_from(&mut self, a: Bv, w: u32, signed: bool) -> Bv {
        let (_, mb) = shape(w);
        let bias = if w == 32 { 127u128 } else { 1023 };
        let aw = a.w();
        let s = if signed { self.ext(a, aw - 1, 1) } else { Bv::C(0, 1) };
        let neg = self.bin(BinOp::Sub, Self::c(0, aw), a);
        let mag = self.ite(s, neg, a);
        let mag = if aw < mb + 2 { self.zext(mag, mb + 2) } else { mag };
        let zero = self.cmp(CmpOp::Eq, mag, Self::c(0, mag.w()));
        let (n, lz) = self.normalize(mag);
        let nw = n.w();
        let e = self.bin(BinOp::Sub, Self::c(bias + nw as u128 - 1, 32), lz);
        let e = self.zf(e, w);
        let e = self.bin(BinOp::Shl, e, Self::c(mb as u128, w));
        // below the leading bit: mb kept bits, a round bit, sticky bits
        let m = self.ext(n, nw - 1 - mb, mb);
        let m = self.zext(m, w);
        let v = self.bin(BinOp::Or, e, m);
        let v = if nw - 1 > mb {
            let r = self.ext(n, nw - 2 - mb, 1);
            let odd = self.ext(n, nw - 1 - mb, 1);
            let tail = nw - 2 - mb;
            let up = if tail > 0 {
                let t = self.ext(n, 0, tail);
                let t = self.cmp(CmpOp::Eq, t, Self::c(0, tail));
                let t = self.not(t);
                let t = self.bin(BinOp::Or, t, odd);
                self.bin(BinOp::And, r, t)
            } else {
                self.bin(BinOp::And, r, odd)
            };
            let up = self.zext(up, w);
            self.bin(BinOp::Add, v, up)
        } else {
            v
        };
        let sw = self.zext(s, w);
        let sw = self.bin(BinOp::Shl, sw, Self::c(w as u128 - 1, w));
        let v = self.bin(BinOp::Or, v, sw);
        self.ite(zero, Self::c(0, w), v)
    }

    fn fp_round(&mut self, op: FpOp, a: Bv) -> Bv {
        let w = a.w();
        let (eb, mb) = shape(w);
        let bias = mask(eb - 1);
        let e = self.ext(a, mb, eb);
        let s = self.ext(a, w - 1, 1);
        let sw = self.bin(BinOp::And, a, Self::c(1 << (w - 1), w));
        let mag = self.bin(BinOp::And, a, Self::c(mask(w - 1), w));
        let one = self.bin(BinOp::Or, sw, Self::c(bias << mb, w));
        let ns = self.not(s);
        let zero = self.cmp(CmpOp::Eq, mag, Self::c(0, w));
        let nz = self.not(zero);
        let half = Self::c((bias - 1) << mb, w);
        // |a| < 1
        let up = match op {
            FpOp::RoundAway => self.cmp(CmpOp::Ule, half, mag),
            FpOp::RoundEven => self.cmp(CmpOp::Ult, half, mag),
            FpOp::Floor => self.bin(BinOp::And, s, nz),
            FpOp::Ceil => self.bin(BinOp::And, ns, nz),
            _ => Bv::C(0, 1),
        };
        let low = self.ite(up, one, sw);
        // 1 <= |a| < 2^mb: sh = mb - (e - bias) fraction bits
        let ew = self.zext(e, w);
        let sh = self.bin(BinOp::Sub, Self::c(mb as u128 + bias, w), ew);
        let ones = Self::c(!0, w);
        let keep = self.bin(BinOp::Shl, ones, sh);
        let frac = self.bin(BinOp::Xor, keep, ones);
        let sh1 = self.bin(BinOp::Sub, sh, Self::c(1, w));
        let hf = self.bin(BinOp::Shl, Self::c(1, w), sh1);
        let add = match op {
            FpOp::RoundAway => hf,
            FpOp::RoundEven => {
                let odd = self.bin(BinOp::LShr, a, sh);
                let odd = self.bin(BinOp::And, odd, Self::c(1, w));
                let h = self.bin(BinOp::Sub, hf, Self::c(1, w));
                self.bin(BinOp::Add, h, odd)
            }
            FpOp::Floor => self.ite(s, frac, Self::c(0, w)),
            FpOp::Ceil => self.ite(s, Self::c(0, w), frac),
            _ => Self::c(0, w),
        };
        let mid = self.bin(BinOp::Add, a, add);
        let mid = self.bin(BinOp::And, mid, keep);
        let is_low = self.cmp(CmpOp::Ult, e, Self::c(bias, eb));
        let is_high = self.cmp(CmpOp::Ule, Self::c(bias + mb as u128, eb), e);
        let v = self.ite(is_high, a, mid);
        self.ite(is_low, low, v)
    }

    fn fp_ext(&mut self, a: Bv) -> Bv {
        let e = self.ext(a, 23, 8);
        let m = self.ext(a, 0, 23);
        let s = self.ext(a, 31, 1);
        let m0 = self.cmp(CmpOp::Eq, m, Self::c(0, 23));
        let e0 = self.cmp(CmpOp::Eq, e, Self::c(0, 8));
        let ef = self.cmp(CmpOp::Eq, e, Self::c(255, 8));
        let e11 = self.zext(e, 11);
        let en = self.bin(BinOp::Add, e11, Self::c(896, 11));
        let m52 = self.zext(m, 52);
        let mn = self.bin(BinOp::Shl, m52, Self::c(29, 52));
        // subnormal: m * 2^-149
        let (n, lz) = self.normalize(m);
        let lz = self.zf(lz, 11);
        let es = self.bin(BinOp::Sub, Self::c(1023 - 149 + 22, 11), lz);
        let ns = self.zext(n, 52);
        let ns = self.bin(BinOp::Shl, ns, Self::c(30, 52));
        let es = self.ite(m0, Self::c(0, 11), es);
        let ns = self.ite(m0, Self::c(0, 52), ns);
        // infinity and NaN (made quiet)
        let q = self.bin(BinOp::Or, mn, Self::c(1 << 51, 52));
        let mi = self.ite(m0, Self::c(0, 52), q);
        let x = self.ite(e0, es, en);
        let x = self.ite(ef, Self::c(0x7ff, 11), x);
        let y = self.ite(e0, ns, mn);
        let y = self.ite(ef, mi, y);
        let v = self.concat(x, y);
        self.concat(s, v)
    }

    fn fp_trunc(&mut self, a: Bv) -> Bv {
        let e = self.ext(a, 52, 11);
        let m = self.ext(a, 0, 52);
        let s = self.ext(a, 63, 1);
        // normal: exponent 897..=1150; rounding may carry into the exponent
        let rne = |x: &mut Arena, v: Bv| -> Bv {
            // 31 result bits, then 29 bits to round away, of 60
            let k = x.ext(v, 29, 31);
            let r = x.ext(v, 28, 1);
            let odd = x.ext(v, 29, 1);
            let t = x.ext(v, 0, 28);
            let t = x.cmp(CmpOp::Eq, t, Self::c(0, 28));
            let t = x.not(t);
            let t = x.bin(BinOp::Or, t, odd);
            let up = x.bin(BinOp::And, r, t);
            let up = x.zext(up, 31);
            x.bin(BinOp::Add, k, up)
        };
        let en = self.bin(BinOp::Sub, e, Self::c(896, 11));
        let en = self.ext(en, 0, 8);
        let vn = self.concat(en, m);
        let vn = rne(self, vn);
        // subnormal: shift the significand right by 897 - e, keeping a sticky bit
        let sig = self.concat(Bv::C(1, 1), m);
        let sig = self.zext(sig, 60);
        let sh = self.bin(BinOp::Sub, Self::c(897, 11), e);
        let sh = self.zext(sh, 60);
        let r = self.bin(BinOp::LShr, sig, sh);
        let back = self.bin(BinOp::Shl, r, sh);
        let lost = self.cmp(CmpOp::Eq, back, sig);
        let lost = self.not(lost);
        let lost = self.zext(lost, 60);
        let r = self.bin(BinOp::Or, r, lost);
        let vs = rne(self, r);
        // 2^-151 and below rounds to zero, shifts beyond 59 bits included
        let tiny = self.cmp(CmpOp::Ult, e, Self::c(840, 11));
        let vs = self.ite(tiny, Self::c(0, 31), vs);
        let sub = self.cmp(CmpOp::Ult, e, Self::c(897, 11));
        let over = self.cmp(CmpOp::Ule, Self::c(1151, 11), e);
        let v = self.ite(sub, vs, vn);
        let v = self.ite(over, Self::c(0xff << 23, 31), v);
        let nan = self.is_nan(a);
        let p = self.ext(a, 29, 23);
        let p = self.bin(BinOp::Or, p, Self::c(1 << 22, 23));
        let p = self.concat(Self::c(0xff, 8), p);
        let v = self.ite(nan, p, v);
        self.concat(s, v)
    }
}

/// Compares every circuit with the processor on random and special operands.
pub fn selftest() {
    let mut r = 0x9e37_79b9_7f4a_7c15u64;
    let mut next = || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        r
    };
    let ops = [
        (FpOp::Ext, 32, 64),
        (FpOp::Trunc, 64, 32),
        (FpOp::FromS, 64, 64),
        (FpOp::FromS, 32, 64),
        (FpOp::FromS, 64, 32),
        (FpOp::FromS, 128, 64),
        (FpOp::FromU, 64, 64),
        (FpOp::FromU, 16, 32),
        (FpOp::FromU, 128, 64),
        (FpOp::ToSSat, 64, 64),
        (FpOp::ToSSat, 64, 32),
        (FpOp::ToSSat, 64, 128),
        (FpOp::ToSSat, 32, 64),
        (FpOp::ToUSat, 64, 64),
        (FpOp::ToUSat, 64, 8),
        (FpOp::ToUSat, 64, 128),
        (FpOp::RoundAway, 64, 64),
        (FpOp::RoundEven, 64, 64),
        (FpOp::Floor, 64, 64),
        (FpOp::Ceil, 64, 64),
        (FpOp::RoundZero, 64, 64),
        (FpOp::RoundAway, 32, 32),
        (FpOp::RoundEven, 32, 32),
        (FpOp::Floor, 32, 32),
    ];
    for (op, aw, w) in ops {
        let mut x = Arena::new();
        let mut v = x.var("b0");
        for i in 1..aw / 8 {
            let b = x.var(&format!("b{}", i));
            v = x.concat(b, v);
        }
        let e = x.fp_circuit(op, v, w).unwrap();
        let id = x.id(e);
        for k in 0..200_000u32 {
            let mut n = next() as u128 | (next() as u128) << 64;
            match k % 8 {
                // exponents near the interesting ones
                0 if aw == 64 => n = n & 0x800f_ffff_ffff_ffff | (1023 - 70 + (next() % 140) as u128) << 52,
                1 if aw == 64 => n = n & 0x800f_ffff_ffff_ffff | (830 + (next() % 80) as u128) << 52,
                2 if aw == 64 => n = n & 0x800f_ffff_f000_0000 | (880 + (next() % 300) as u128) << 52,
                3 => n >>= next() % 128,
                4 => n = (!0u128 >> (next() % 128)).wrapping_sub((next() % 4) as u128),
                5 => n = (1u128 << (next() % 128)).wrapping_neg(),
                6 => n &= !0u128 << (next() % 128),
                7 if aw == 32 => n = n & 0x807f_ffff | (120 + (next() % 40) as u128) << 23,
                _ => {}
            }
            n &= mask(aw);
            let m: Vec<u8> = (0..aw / 8).map(|i| (n >> (8 * i)) as u8).collect();
            let mut memo = Default::default();
            let got = x.eval(id, &m, &mut memo);
            let want = fp_c(op, n, n, aw, w);
            let nan = matches!(op, FpOp::RoundAway | FpOp::RoundEven | FpOp::Floor | FpOp::Ceil | FpOp::RoundZero) && (if w == 32 { f32::from_bits(n as u32).is_nan() } else { f64::from_bits(n as u64).is_nan() });
            if got != want && !nan {
                println!("{:?} {} -> {}: {:x}: got {:x}, want {:x}", op, aw, w, n, got, want);
                std::process::exit(1);
            }
        }
    }
    println!("ok");
}
