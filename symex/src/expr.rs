//! Hash-consed bit-vector expressions with local simplification, unsigned
//! interval bounds, and concrete evaluation.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

/// Floating-point operations; operands and results are the IEEE bit patterns.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FpOp {
    Add,
    Sub,
    Mul,
    Div,
    Ext,       // f32 -> f64
    Trunc,     // f64 -> f32
    FromS,     // signed int -> fp (width of result)
    FromU,     // unsigned int -> fp
    ToSSat,    // fp -> signed int, saturating, NaN -> 0
    ToUSat,    // fp -> unsigned int, saturating, NaN -> 0
    RoundAway, // round half away from zero
    RoundEven,
    Floor,
    Ceil,
    RoundZero,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32),
    Const(u128),
    Bin(BinOp, Id, Id),
    Cmp(CmpOp, Id, Id),
    Ite(Id, Id, Id),
    Ext(Id, u32),
    Concat(Id, Id), // high, low
    ZExt(Id),
    SExt(Id),
    Not(Id), // width 1 only
    Fp(FpOp, Id, Id),
}

/// A scalar value: concrete or symbolic.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bv {
    C(u128, u32),
    E(Id, u32),
}

impl Bv {
    #[inline]
    pub fn w(&self) -> u32 {
        match *self {
            Bv::C(_, w) | Bv::E(_, w) => w,
        }
    }
    #[inline]
    pub fn c(&self) -> Option<u128> {
        match *self {
            Bv::C(v, _) => Some(v),
            _ => None,
        }
    }
    #[inline]
    pub fn bool(b: bool) -> Bv {
        Bv::C(b as u128, 1)
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Info {
    pub node: Node,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    /// The only byte the expression depends on, if it is one (-1: none, -2: more).
    pub one: i32,
}

pub struct Arena {
    tables: std::cell::RefCell<HashMap<Id, Rc<Vec<u128>>>>,
    pub nodes: Vec<Info>,
    map: HashMap<(Node, u32), Id>,
    pub vars: Vec<String>,
    var_map: HashMap<String, u32>,
    var_sets: HashMap<Id, Rc<Vec<u32>>>,
    pub has_fp: HashMap<Id, bool>,
}

pub fn bin_c(op: BinOp, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let x = sx(a, w);
            if b >= w as u128 {
                (x >> 127) as u128
            } else {
                (x >> b) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}

pub fn cmp_c(op: CmpOp, a: u128, b: u128, w: u32) -> bool {
    match op {
        CmpOp::Eq => a == b,
        CmpOp::Ult => a < b,
        CmpOp::Ule => a <= b,
        CmpOp::Slt => sx(a, w) < sx(b, w),
        CmpOp::Sle => sx(a, w) <= sx(b, w),
    }
}

fn f_of(v: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}

/// The NaN an invalid operation results in.
pub fn invalid(w: u32) -> u128 {
    if w == 32 {
        0xffc0_0000
    } else {
        0xfff8 << 48
    }
}

fn quiet(w: u32) -> u128 {
    if w == 32 {
        1 << 22
    } else {
        1 << 51
    }
}

/// `aw` is the operand width, `w` the result width.
pub fn fp_c(op: FpOp, a: u128, b: u128, aw: u32, w: u32) -> u128 {
    if matches!(op, FpOp::Add | FpOp::Sub | FpOp::Mul | FpOp::Div) {
        // Rust does not define the NaN of its own arithmetic.
        for v in [a, b] {
            if f_of(v, aw).is_nan() {
                return v | quiet(w);
            }
        }
    }
    if aw == 32 && w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            FpOp::Add => x + y,
            FpOp::Sub => x - y,
            FpOp::Mul => x * y,
            FpOp::Div => x / y,
            FpOp::RoundAway => x.round(),
            FpOp::RoundEven => x.round_ties_even(),
            FpOp::Floor => x.floor(),
            FpOp::Ceil => x.ceil(),
            FpOp::RoundZero => x.trunc(),
            FpOp::FromS => return (sx(a, aw) as f32).to_bits() as u128,
            FpOp::FromU => return (a as f32).to_bits() as u128,
            FpOp::ToSSat => return to_s_sat(x as f64, w),
            FpOp::ToUSat => return to_u_sat(x as f64, w),
            _ => unreachable!(),
        };
        if r.is_nan() && !x.is_nan() {
            return invalid(w);
        }
        return r.to_bits() as u128;
    }
    match op {
        FpOp::Ext => {
            let x = f32::from_bits(a as u32);
            if x.is_nan() {
                let s = (a >> 31) & 1;
                let p = (a & 0x7f_ffff) | 0x40_0000;
                return (s << 63) | (0x7ffu128 << 52) | (p << 29);
            }
            (x as f64).to_bits() as u128
        }
        FpOp::Trunc => {
            let x = f64::from_bits(a as u64);
            if x.is_nan() {
                let s = (a >> 63) & 1;
                let p = ((a & 0xf_ffff_ffff_ffff) >> 29) | 0x40_0000;
                return (s << 31) | (0xffu128 << 23) | p;
            }
            (x as f32).to_bits() as u128
        }
        FpOp::FromS => {
            if w == 32 {
                (sx(a, aw) as f32).to_bits() as u128
            } else {
                (sx(a, aw) as f64).to_bits() as u128
            }
        }
        FpOp::FromU => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        FpOp::ToSSat => to_s_sat(f_of(a, aw), w),
        FpOp::ToUSat => to_u_sat(f_of(a, aw), w),
        _ => {
            let (x, y) = (f_of(a, aw), f_of(b, aw));
            let r = match op {
                FpOp::Add => x + y,
                FpOp::Sub => x - y,
                FpOp::Mul => x * y,
                FpOp::Div => x / y,
                FpOp::RoundAway => x.round(),
                FpOp::RoundEven => x.round_ties_even(),
                FpOp::Floor => x.floor(),
                FpOp::Ceil => x.ceil(),
                FpOp::RoundZero => x.trunc(),
                _ => unreachable!(),
            };
            if r.is_nan() && !x.is_nan() {
                return invalid(w);
            }
            r.to_bits() as u128
        }
    }
}

fn to_s_sat(x: f64, w: u32) -> u128 {
    if x.is_nan() {
        return 0;
    }
    let min = -(1i128 << (w - 1));
    let max = (1i128 << (w - 1)) - 1;
    let v = x as i128;
    (v.clamp(min, max) as u128) & mask(w)
}

fn to_u_sat(x: f64, w: u32) -> u128 {
    if x.is_nan() {
        return 0;
    }
    let v = x as u128;
    v.min(mask(w))
}

fn both(a: i32, b: i32) -> i32 {
    if a == -1 || a == b {
        b
    } else if b == -1 {
        a
    } else {
        -2
    }
}

impl Arena {
    /// The values of an expression of one byte.
    pub fn table(&self, id: Id) -> Rc<Vec<u128>> {
        if let Some(t) = self.tables.borrow().get(&id) {
            return t.clone();
        }
        let v = self.nodes[id as usize].one as usize;
        let mut model = vec![0u8; v + 1];
        let mut memo = HashMap::new();
        let t: Vec<u128> = (0..=255u8)
            .map(|b| {
                model[v] = b;
                memo.clear();
                self.eval(id, &model, &mut memo)
            })
            .collect();
        let t = Rc::new(t);
        self.tables.borrow_mut().insert(id, t.clone());
        t
    }

    pub fn new() -> Self {
        Arena {
            tables: Default::default(),
            nodes: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            var_map: HashMap::new(),
            var_sets: HashMap::new(),
            has_fp: HashMap::new(),
        }
    }

    fn bounds(&self, n: &Node, w: u32) -> (u128, u128) {
        let m = mask(w);
        let b = |i: Id| {
            let x = &self.nodes[i as usize];
            (x.lo, x.hi)
        };
        let ww = |i: Id| self.nodes[i as usize].w;
        match *n {
            Node::Var(_) => (0, m),
            Node::Const(v) => (v, v),
            Node::ZExt(a) => b(a),
            Node::Concat(h, l) => {
                let lw = ww(l);
                let (hl, hh) = b(h);
                let (ll, lh) = b(l);
                ((hl << lw) + ll, (hh << lw) + lh)
            }
            Node::Ite(_, x, y) => {
                let (xl, xh) = b(x);
                let (yl, yh) = b(y);
                (xl.min(yl), xh.max(yh))
            }
            Node::Ext(a, lo) => {
                let (al, ah) = b(a);
                if ah >> lo <= m {
                    ((al >> lo), (ah >> lo))
                } else {
                    (0, m)
                }
            }
            Node::Bin(op, x, y) => {
                let (xl, xh) = b(x);
                let (yl, yh) = b(y);
                match op {
                    BinOp::Add => match (xl.checked_add(yl), xh.checked_add(yh)) {
                        (Some(l), Some(h)) if h <= m => (l, h),
                        _ => (0, m),
                    },
                    BinOp::Sub => {
                        if xl >= yh {
                            (xl - yh, xh - yl)
                        } else {
                            (0, m)
                        }
                    }
                    BinOp::Mul => match (xl.checked_mul(yl), xh.checked_mul(yh)) {
                        (Some(l), Some(h)) if h <= m => (l, h),
                        _ => (0, m),
                    },
                    BinOp::UDiv => {
                        if yl > 0 {
                            (xl / yh, xh / yl)
                        } else {
                            (0, m)
                        }
                    }
                    BinOp::URem => {
                        if yl > 0 {
                            if xh < yl {
                                (xl, xh)
                            } else {
                                (0, xh.min(yh - 1))
                            }
                        } else {
                            (0, m)
                        }
                    }
                    BinOp::And => (0, xh.min(yh)),
                    BinOp::Or | BinOp::Xor => {
                        let t = xh | yh;
                        let bits = 128 - t.leading_zeros();
                        let lo = if op == BinOp::Or { xl.max(yl) } else { 0 };
                        (lo, mask(bits).min(m))
                    }
                    BinOp::LShr => {
                        if yl == yh && yl < w as u128 {
                            (xl >> yl, xh >> yl)
                        } else {
                            (0, xh)
                        }
                    }
                    BinOp::Shl => {
                        if yl == yh && yl < w as u128 && xh <= (m >> yl) {
                            (xl << yl, xh << yl)
                        } else if xl <= 1 && xh <= 1 && yh < w as u128 {
                            (if xl == 1 { 1 << yl } else { 0 }, 1u128 << yh)
                        } else {
                            (0, m)
                        }
                    }
                    _ => (0, m),
                }
            }
            _ => (0, m),
        }
    }

    fn mk(&mut self, n: Node, w: u32) -> Bv {
        if let Some(&id) = self.map.get(&(n.clone(), w)) {
            return Bv::E(id, w);
        }
        let (lo, hi) = self.bounds(&n, w);
        if lo == hi && !matches!(n, Node::Const(_)) {
            return Bv::C(lo, w);
        }
        let id = self.nodes.len() as Id;
        let of = |i: &Id| self.nodes[*i as usize].one;
        let one = match &n {
            Node::Var(v) => *v as i32,
            Node::Const(_) => -1,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) | Node::Fp(_, a, b) => both(of(a), of(b)),
            Node::Ite(a, b, c) => both(of(a), both(of(b), of(c))),
            Node::Ext(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Not(a) => of(a),
        };
        self.nodes.push(Info { node: n.clone(), w, lo, hi, one });
        self.map.insert((n, w), id);
        Bv::E(id, w)
    }

    pub fn id(&mut self, v: Bv) -> Id {
        match v {
            Bv::E(id, _) => id,
            Bv::C(c, w) => match self.mk(Node::Const(c), w) {
                Bv::E(id, _) => id,
                _ => unreachable!(),
            },
        }
    }

    pub fn bv(&self, id: Id) -> Bv {
        let n = &self.nodes[id as usize];
        match n.node {
            Node::Const(c) => Bv::C(c, n.w),
            _ => Bv::E(id, n.w),
        }
    }

    #[inline]
    fn n(&self, id: Id) -> &Node {
        &self.nodes[id as usize].node
    }

    pub fn var(&mut self, name: &str) -> Bv {
        let v = match self.var_map.get(name) {
            Some(&v) => v,
            None => {
                let v = self.vars.len() as u32;
                self.vars.push(name.to_string());
                self.var_map.insert(name.to_string(), v);
                v
            }
        };
        self.mk(Node::Var(v), 8)
    }

    pub fn bounds_of(&self, v: Bv) -> (u128, u128) {
        match v {
            Bv::C(c, _) => (c, c),
            Bv::E(id, _) => {
                let i = &self.nodes[id as usize];
                (i.lo, i.hi)
            }
        }
    }

    pub fn bin(&mut self, op: BinOp, a: Bv, b: Bv) -> Bv {
        let w = a.w();
        debug_assert_eq!(w, b.w());
        if let (Bv::C(x, _), Bv::C(y, _)) = (a, b) {
            return Bv::C(bin_c(op, x, y, w), w);
        }
        let m = mask(w);
        use BinOp::*;
        // Constant to the right for commutative operators.
        let (a, b) = match op {
            Add | Mul | And | Or | Xor => match (a, b) {
                (Bv::C(..), Bv::E(..)) => (b, a),
                (Bv::E(x, _), Bv::E(y, _)) if x > y => (b, a),
                _ => (a, b),
            },
            _ => (a, b),
        };
        if let Bv::C(y, _) = b {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
                Mul if y == 1 => return a,
                Mul | And if y == 0 => return Bv::C(0, w),
                UDiv if y == 1 => return a,
                URem if y == 1 => return Bv::C(0, w),
                And if y == m => return a,
                Or if y == m => return Bv::C(m, w),
                Xor if w == 1 && y == 1 => return self.not(a),
                Sub => return self.bin(Add, a, Bv::C(y.wrapping_neg() & m, w)),
                Mul if y.is_power_of_two() => {
                    return self.bin(Shl, a, Bv::C(y.trailing_zeros() as u128, w));
                }
                UDiv if y.is_power_of_two() => {
                    return self.bin(LShr, a, Bv::C(y.trailing_zeros() as u128, w));
                }
                URem if y.is_power_of_two() => {
                    return self.bin(And, a, Bv::C(y - 1, w));
                }
                Shl | LShr if y >= w as u128 => return Bv::C(0, w),
                _ => {}
            }
            // Shifts and masks by constants become concat/extract.
            match op {
                Shl => {
                    let s = y as u32;
                    let low = self.ext(a, 0, w - s);
                    return self.concat(low, Bv::C(0, s));
                }
                LShr => {
                    let s = y as u32;
                    let hi = self.ext(a, s, w - s);
                    return self.zext(hi, w);
                }
                And if (y + 1).is_power_of_two() => {
                    let k = y.trailing_ones();
                    let lo = self.ext(a, 0, k);
                    return self.zext(lo, w);
                }
                And if w > 1 && y.trailing_zeros() > 0 => {
                    let t = y.trailing_zeros();
                    let hi = self.ext(a, t, w - t);
                    let hi = self.bin(And, hi, Bv::C(y >> t, w - t));
                    return self.concat(hi, Bv::C(0, t));
                }
                And if w > 1 && y.leading_zeros() > 128 - w => {
                    let k = 128 - y.leading_zeros();
                    let lo = self.ext(a, 0, k);
                    let lo = self.bin(And, lo, Bv::C(y & mask(k), k));
                    return self.zext(lo, w);
                }
                _ => {}
            }
            if let Bv::E(ia, _) = a {
                match (op, self.n(ia).clone()) {
                    (Add, Node::Bin(Add, x, c)) | (Xor, Node::Bin(Xor, x, c)) | (And, Node::Bin(And, x, c)) | (Or, Node::Bin(Or, x, c)) => {
                        if let Node::Const(cv) = *self.n(c) {
                            let x = self.bv(x);
                            return self.bin(op, x, Bv::C(bin_c(op, cv, y, w), w));
                        }
                    }
                    (_, Node::Ite(c, x, z)) => {
                        let (bx, bz) = (self.bv(x), self.bv(z));
                        if bx.c().is_some() || bz.c().is_some() {
                            let c = self.bv(c);
                            let p = self.bin(op, bx, b);
                            let q = self.bin(op, bz, b);
                            return self.ite(c, p, q);
                        }
                    }
                    (Or, Node::Concat(h, l)) | (Xor, Node::Concat(h, l)) => {
                        let lw = self.nodes[l as usize].w;
                        let (h, l) = (self.bv(h), self.bv(l));
                        let h2 = self.bin(op, h, Bv::C(y >> lw, w - lw));
                        let l2 = self.bin(op, l, Bv::C(y & mask(lw), lw));
                        return self.concat(h2, l2);
                    }
                    (Or, Node::ZExt(x)) | (Xor, Node::ZExt(x)) => {
                        let xw = self.nodes[x as usize].w;
                        let x = self.bv(x);
                        let l2 = self.bin(op, x, Bv::C(y & mask(xw), xw));
                        return self.concat(Bv::C(y >> xw, w - xw), l2);
                    }
                    _ => {}
                }
            }
        }
        // Arithmetic on values that need few bits is done on few bits.
        if matches!(op, UDiv | URem | Mul | SDiv | SRem) {
            let (_, ah) = self.bounds_of(a);
            let (_, bh) = self.bounds_of(b);
            let half = 1u128 << (w - 1);
            let op = match op {
                SDiv if ah < half && bh < half => UDiv,
                SRem if ah < half && bh < half => URem,
                o => o,
            };
            let need = match op {
                UDiv | URem => Some(ah.max(bh)),
                Mul => ah.checked_mul(bh),
                _ => None,
            };
            if let Some(h) = need {
                let k = (128 - h.leading_zeros()).max(1);
                // division by zero must keep its meaning
                let zero = !matches!(op, Mul) && self.bounds_of(b).0 == 0;
                if k < w && !zero {
                    let x = self.ext(a, 0, k);
                    let y = self.ext(b, 0, k);
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        if a == b {
            match op {
                Sub | Xor => return Bv::C(0, w),
                And | Or => return a,
                _ => {}
            }
        }
        // or/add of values with disjoint bits: concat
        if matches!(op, Or | Add | Xor) {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
            if let Some(r) = self.disjoint(b, a) {
                return r;
            }
        }
        if op == LShr || op == Shl {
            if let Bv::C(0, _) = a {
                return a;
            }
        }
        if w == 1 {
            match op {
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.bin(And, a, b),
                _ => {}
            }
        }
        if op == Sub {
            // (x + c) - x and similar
            if let (Bv::E(ia, _), Bv::E(ib, _)) = (a, b) {
                let (xa, ca) = self.split_add(ia);
                let (xb, cb) = self.split_add(ib);
                if xa == xb {
                    return Bv::C(ca.wrapping_sub(cb) & m, w);
                }
            }
        }
        let (x, y) = (self.id(a), self.id(b));
        self.mk(Node::Bin(op, x, y), w)
    }

    fn split_add(&self, id: Id) -> (Id, u128) {
        if let Node::Bin(BinOp::Add, x, c) = *self.n(id) {
            if let Node::Const(v) = *self.n(c) {
                return (x, v);
            }
        }
        (id, 0)
    }

    /// If the set bits of `b` all lie at or above position k while `a` lies
    /// strictly below, a|b == concat(b[w-1:k], a[k-1:0]).
    fn disjoint(&mut self, a: Bv, b: Bv) -> Option<Bv> {
        let w = a.w();
        if w == 1 {
            return None;
        }
        let (_, ah) = self.bounds_of(a);
        let k = 128 - ah.leading_zeros();
        if k == 0 || k >= w {
            return None;
        }
        let tz = match b {
            Bv::C(v, _) => v.trailing_zeros(),
            Bv::E(id, _) => match *self.n(id) {
                Node::Concat(_, l) => match *self.n(l) {
                    Node::Const(0) => self.nodes[l as usize].w,
                    _ => return None,
                },
                Node::ZExt(x) => match *self.n(x) {
                    Node::Concat(_, l) => match *self.n(l) {
                        Node::Const(0) => self.nodes[l as usize].w,
                        _ => return None,
                    },
                    _ => return None,
                },
                _ => return None,
            },
        };
        if tz < k {
            return None;
        }
        let hi = self.ext(b, k, w - k);
        let lo = self.ext(a, 0, k);
        Some(self.concat(hi, lo))
    }

    pub fn not(&mut self, a: Bv) -> Bv {
        match a {
            Bv::C(v, w) => Bv::C(!v & mask(w), w),
            Bv::E(id, 1) => match *self.n(id) {
                Node::Not(x) => self.bv(x),
                Node::Cmp(CmpOp::Ult, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    self.cmp(CmpOp::Ule, y, x)
                }
                Node::Cmp(CmpOp::Ule, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    self.cmp(CmpOp::Ult, y, x)
                }
                Node::Cmp(CmpOp::Slt, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    self.cmp(CmpOp::Sle, y, x)
                }
                Node::Cmp(CmpOp::Sle, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    self.cmp(CmpOp::Slt, y, x)
                }
                _ => self.mk(Node::Not(id), 1),
            },
            Bv::E(_, w) => self.bin(BinOp::Xor, a, Bv::C(mask(w), w)),
        }
    }

    /// Splits a sum that cannot wrap into its terms and a constant.
    fn sum(&self, v: Bv, t: &mut Vec<Id>, c: &mut i128) {
        let (id, w) = match v {
            Bv::C(x, _) => {
                *c += x as i128;
                return;
            }
            Bv::E(id, w) => (id, w),
        };
        if let Node::Bin(BinOp::Add, x, y) = *self.n(id) {
            let (xl, xh) = self.bounds_of(self.bv(x));
            if let Node::Const(k) = *self.n(y) {
                if xh + k <= mask(w) {
                    *c += k as i128;
                    return self.sum(self.bv(x), t, c);
                }
                let n = (mask(w) - k) + 1;
                if n <= xl {
                    *c -= n as i128;
                    return self.sum(self.bv(x), t, c);
                }
            } else if xh + self.bounds_of(self.bv(y)).1 <= mask(w) {
                self.sum(self.bv(x), t, c);
                return self.sum(self.bv(y), t, c);
            }
        }
        t.push(id);
    }

    /// Compares sums that cannot wrap by cancelling what they share.
    fn cmp_sums(&mut self, op: CmpOp, a: Bv, b: Bv) -> Option<Bv> {
        let is_add = |s: &Arena, v: Bv| matches!(v, Bv::E(i, _) if matches!(*s.n(i), Node::Bin(BinOp::Add, ..)));
        if !is_add(self, a) && !is_add(self, b) {
            return None;
        }
        let w = a.w();
        let (mut ta, mut tb, mut ca, mut cb) = (Vec::new(), Vec::new(), 0i128, 0i128);
        self.sum(a, &mut ta, &mut ca);
        self.sum(b, &mut tb, &mut cb);
        if ta.len() > 6 || tb.len() > 6 {
            return None;
        }
        let n0 = ta.len();
        ta.retain(|x| match tb.iter().position(|y| y == x) {
            Some(i) => {
                tb.swap_remove(i);
                false
            }
            None => true,
        });
        let mut changed = ta.len() != n0;
        // constants go to the side where they are positive
        let d = ca - cb;
        let (na, nb) = if d >= 0 { (d, 0) } else { (0, -d) };
        changed |= (na, nb) != (ca, cb);
        if na as u128 > mask(w) || nb as u128 > mask(w) {
            return None;
        }
        if ta.is_empty() && tb.is_empty() {
            return Some(Bv::bool(cmp_c(op, na as u128, nb as u128, w)));
        }
        // the sums are below their originals' maxima unless constants were negative
        let total = |s: &Arena, t: &[Id], c: i128| t.iter().map(|&i| s.nodes[i as usize].hi).fold(c as u128, |x, y| x.saturating_add(y));
        let h = total(self, &ta, na).max(total(self, &tb, nb));
        if h > mask(w) {
            return None;
        }
        let k = (128 - h.leading_zeros()).max(1);
        if !changed && k + 8 > w {
            return None;
        }
        let build = |s: &mut Arena, t: &[Id], c: i128| {
            let mut v = Bv::C(0, k);
            for &i in t {
                let x = s.bv(i);
                let x = s.ext(x, 0, k);
                v = s.bin(BinOp::Add, v, x);
            }
            s.bin(BinOp::Add, v, Bv::C(c as u128, k))
        };
        let (x, y) = (build(self, &ta, na), build(self, &tb, nb));
        Some(self.cmp(op, x, y))
    }

    pub fn cmp(&mut self, op: CmpOp, a: Bv, b: Bv) -> Bv {
        let w = a.w();
        debug_assert_eq!(w, b.w());
        if let (Bv::C(x, _), Bv::C(y, _)) = (a, b) {
            return Bv::bool(cmp_c(op, x, y, w));
        }
        if a == b {
            return Bv::bool(matches!(op, CmpOp::Eq | CmpOp::Ule | CmpOp::Sle));
        }
        let (al, ah) = self.bounds_of(a);
        let (bl, bh) = self.bounds_of(b);
        let half = 1u128 << (w - 1);
        match op {
            CmpOp::Eq => {
                if ah < bl || bh < al {
                    return Bv::bool(false);
                }
            }
            CmpOp::Ult => {
                if ah < bl {
                    return Bv::bool(true);
                }
                if al >= bh {
                    return Bv::bool(false);
                }
            }
            CmpOp::Ule => {
                if ah <= bl {
                    return Bv::bool(true);
                }
                if al > bh {
                    return Bv::bool(false);
                }
            }
            CmpOp::Slt | CmpOp::Sle => {
                if ah < half && bh < half {
                    let o = if op == CmpOp::Slt { CmpOp::Ult } else { CmpOp::Ule };
                    return self.cmp(o, a, b);
                }
                if ah < half && bl >= half {
                    return Bv::bool(false);
                }
                if al >= half && bh < half {
                    return Bv::bool(true);
                }
            }
        }
        if matches!(op, CmpOp::Eq | CmpOp::Ult | CmpOp::Ule) && w > 1 && w <= 64 {
            if let Some(r) = self.cmp_sums(op, a, b) {
                return r;
            }
        }
        // Orientation for equality: constant right.
        let (a, b) = if op == CmpOp::Eq {
            match (a, b) {
                (Bv::C(..), Bv::E(..)) => (b, a),
                (Bv::E(x, _), Bv::E(y, _)) if x > y => (b, a),
                _ => (a, b),
            }
        } else {
            (a, b)
        };
        if op == CmpOp::Eq {
            if w == 1 {
                if let Bv::C(v, _) = b {
                    return if v == 1 { a } else { self.not(a) };
                }
            }
            if let (Bv::E(ia, _), Bv::C(v, _)) = (a, b) {
                match self.n(ia).clone() {
                    Node::ZExt(x) => {
                        let x = self.bv(x);
                        let xw = x.w();
                        if v > mask(xw) {
                            return Bv::bool(false);
                        }
                        return self.cmp(op, x, Bv::C(v, xw));
                    }
                    Node::SExt(x) => {
                        let x = self.bv(x);
                        let xw = x.w();
                        if (sx(v & mask(xw), xw) as u128) & mask(w) != v {
                            return Bv::bool(false);
                        }
                        return self.cmp(op, x, Bv::C(v & mask(xw), xw));
                    }
                    Node::Bin(BinOp::Add, x, c) => {
                        if let Node::Const(cv) = *self.n(c) {
                            let x = self.bv(x);
                            return self.cmp(op, x, Bv::C(v.wrapping_sub(cv) & mask(w), w));
                        }
                    }
                    Node::Bin(BinOp::Xor, x, c) => {
                        if let Node::Const(cv) = *self.n(c) {
                            let x = self.bv(x);
                            return self.cmp(op, x, Bv::C(v ^ cv, w));
                        }
                    }
                    Node::Concat(h, l) => {
                        let (h, l) = (self.bv(h), self.bv(l));
                        let lw = l.w();
                        if h.c().is_some() || l.c().is_some() {
                            let p = self.cmp(op, h, Bv::C(v >> lw, w - lw));
                            let q = self.cmp(op, l, Bv::C(v & mask(lw), lw));
                            return self.bin(BinOp::And, p, q);
                        }
                    }
                    Node::Ite(c, x, y) => {
                        let (x, y) = (self.bv(x), self.bv(y));
                        if x.c().is_some() || y.c().is_some() {
                            let c = self.bv(c);
                            let p = self.cmp(op, x, b);
                            let q = self.cmp(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                    _ => {}
                }
            } else if let (Bv::E(ia, _), Bv::E(ib, _)) = (a, b) {
                match (self.n(ia).clone(), self.n(ib).clone()) {
                    (Node::ZExt(x), Node::ZExt(y)) if self.nodes[x as usize].w == self.nodes[y as usize].w => {
                        let (x, y) = (self.bv(x), self.bv(y));
                        return self.cmp(op, x, y);
                    }
                    (Node::Bin(BinOp::Add, x, c), Node::Bin(BinOp::Add, y, d)) if c == d => {
                        let (x, y) = (self.bv(x), self.bv(y));
                        return self.cmp(op, x, y);
                    }
                    (Node::Concat(h1, l1), Node::Concat(h2, l2)) if self.nodes[l1 as usize].w == self.nodes[l2 as usize].w => {
                        let (h1, l1, h2, l2) = (self.bv(h1), self.bv(l1), self.bv(h2), self.bv(l2));
                        let p = self.cmp(op, h1, h2);
                        let q = self.cmp(op, l1, l2);
                        return self.bin(BinOp::And, p, q);
                    }
                    _ => {}
                }
                let (xa, ca) = self.split_add(ia);
                let (xb, cb) = self.split_add(ib);
                if xa == xb && ca != cb {
                    return Bv::bool(false);
                }
            }
        }
        if matches!(op, CmpOp::Ult | CmpOp::Ule) {
            let strip = |s: &Arena, v: Bv| -> Option<(Bv, u32)> {
                match v {
                    Bv::E(i, _) => match *s.n(i) {
                        Node::ZExt(x) => Some((s.bv(x), s.nodes[x as usize].w)),
                        _ => None,
                    },
                    _ => None,
                }
            };
            match (strip(self, a), strip(self, b), a, b) {
                (Some((x, xw)), Some((y, yw)), _, _) if xw == yw => return self.cmp(op, x, y),
                (Some((x, xw)), None, _, Bv::C(v, _)) if v <= mask(xw) => return self.cmp(op, x, Bv::C(v, xw)),
                (None, Some((y, yw)), Bv::C(v, _), _) if v <= mask(yw) => return self.cmp(op, Bv::C(v, yw), y),
                _ => {}
            }
            // x < 1  <=>  x == 0
            if let Bv::C(v, _) = b {
                if op == CmpOp::Ult && v == 1 {
                    return self.cmp(CmpOp::Eq, a, Bv::C(0, w));
                }
                if op == CmpOp::Ule && v == 0 {
                    return self.cmp(CmpOp::Eq, a, Bv::C(0, w));
                }
            }
            if let Bv::C(v, _) = a {
                if op == CmpOp::Ult && v == 0 {
                    let e = self.cmp(CmpOp::Eq, b, Bv::C(0, w));
                    return self.not(e);
                }
            }
        }
        let (x, y) = (self.id(a), self.id(b));
        self.mk(Node::Cmp(op, x, y), 1)
    }

    pub fn ite(&mut self, c: Bv, a: Bv, b: Bv) -> Bv {
        if let Bv::C(v, _) = c {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = a.w();
        if w == 1 {
            match (a, b) {
                (Bv::C(1, _), Bv::C(0, _)) => return c,
                (Bv::C(0, _), Bv::C(1, _)) => return self.not(c),
                (Bv::C(1, _), _) => return self.bin(BinOp::Or, c, b),
                (Bv::C(0, _), _) => {
                    let n = self.not(c);
                    return self.bin(BinOp::And, n, b);
                }
                (_, Bv::C(0, _)) => return self.bin(BinOp::And, c, a),
                (_, Bv::C(1, _)) => {
                    let n = self.not(c);
                    return self.bin(BinOp::Or, n, a);
                }
                _ => {}
            }
        }
        if let Bv::E(ic, _) = c {
            if let Node::Not(x) = *self.n(ic) {
                let x = self.bv(x);
                return self.ite(x, b, a);
            }
        }
        let (c, a, b) = (self.id(c), self.id(a), self.id(b));
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn ext(&mut self, a: Bv, lo: u32, w: u32) -> Bv {
        let aw = a.w();
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        match a {
            Bv::C(v, _) => Bv::C((v >> lo) & mask(w), w),
            Bv::E(id, _) => match self.n(id).clone() {
                Node::Ext(x, l2) => {
                    let x = self.bv(x);
                    self.ext(x, lo + l2, w)
                }
                Node::ZExt(x) => {
                    let x = self.bv(x);
                    let xw = x.w();
                    if lo >= xw {
                        Bv::C(0, w)
                    } else if lo + w <= xw {
                        self.ext(x, lo, w)
                    } else {
                        let t = self.ext(x, lo, xw - lo);
                        self.zext(t, w)
                    }
                }
                Node::SExt(x) => {
                    let x = self.bv(x);
                    let xw = x.w();
                    if lo + w <= xw {
                        self.ext(x, lo, w)
                    } else if lo < xw {
                        let t = self.ext(x, lo, xw - lo);
                        self.sext(t, w)
                    } else {
                        let t = self.ext(x, xw - 1, 1);
                        self.sext(t, w)
                    }
                }
                Node::Concat(h, l) => {
                    let (h, l) = (self.bv(h), self.bv(l));
                    let lw = l.w();
                    if lo >= lw {
                        self.ext(h, lo - lw, w)
                    } else if lo + w <= lw {
                        self.ext(l, lo, w)
                    } else {
                        let hp = self.ext(h, 0, lo + w - lw);
                        let lp = self.ext(l, lo, lw - lo);
                        self.concat(hp, lp)
                    }
                }
                Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    let x = self.ext(x, lo, w);
                    let y = self.ext(y, lo, w);
                    self.bin(op, x, y)
                }
                Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    let x = self.ext(x, 0, w);
                    let y = self.ext(y, 0, w);
                    self.bin(op, x, y)
                }
                Node::Ite(c, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    let c = self.bv(c);
                    let x = self.ext(x, lo, w);
                    let y = self.ext(y, lo, w);
                    self.ite(c, x, y)
                }
                _ => self.mk(Node::Ext(id, lo), w),
            },
        }
    }

    pub fn concat(&mut self, h: Bv, l: Bv) -> Bv {
        let w = h.w() + l.w();
        match (h, l) {
            (Bv::C(a, _), Bv::C(b, lw)) => return Bv::C((a << lw) | b, w),
            (Bv::C(0, _), _) => return self.zext(l, w),
            _ => {}
        }
        if let (Bv::E(ih, _), Bv::E(il, _)) = (h, l) {
            match (self.n(ih).clone(), self.n(il).clone()) {
                (Node::Ext(x, lx), Node::Ext(y, ly)) if x == y && ly + l.w() == lx => {
                    let x = self.bv(x);
                    return self.ext(x, ly, w);
                }
                (Node::Ext(x, lx), Node::Concat(lh, ll)) => {
                    if let Node::Ext(y, ly) = *self.n(lh) {
                        if y == x && ly + self.nodes[lh as usize].w == lx {
                            let hw = h.w() + self.nodes[lh as usize].w;
                            let x = self.bv(x);
                            let t = self.ext(x, ly, hw);
                            let ll = self.bv(ll);
                            return self.concat(t, ll);
                        }
                    }
                }
                (Node::Ext(x, lx), _) if x == il && lx == l.w() => {
                    // concat(x[hi:lw], x) cannot happen with x of width lw
                }
                _ => {}
            }
            // Low part is the full (narrow) expression whose high bits are h.
            if let Node::Concat(hh, hl) = self.n(ih).clone() {
                // Keep right-nested: concat(concat(hh,hl), l) = concat(hh, concat(hl, l))
                let (hh, hl) = (self.bv(hh), self.bv(hl));
                let t = self.concat(hl, l);
                return self.concat(hh, t);
            }
        } else if let (Bv::E(ih, _), Bv::C(..)) = (h, l) {
            if let Node::Concat(hh, hl) = self.n(ih).clone() {
                let (hh, hl) = (self.bv(hh), self.bv(hl));
                let t = self.concat(hl, l);
                return self.concat(hh, t);
            }
        }
        if let Bv::E(ih, _) = h {
            if let Node::ZExt(x) = *self.n(ih) {
                let x = self.bv(x);
                let t = self.concat(x, l);
                return self.zext(t, w);
            }
        }
        let (a, b) = (self.id(h), self.id(l));
        self.mk(Node::Concat(a, b), w)
    }

    pub fn zext(&mut self, a: Bv, w: u32) -> Bv {
        let aw = a.w();
        if aw == w {
            return a;
        }
        match a {
            Bv::C(v, _) => Bv::C(v, w),
            Bv::E(id, _) => match *self.n(id) {
                Node::ZExt(x) => {
                    let x = self.bv(x);
                    self.zext(x, w)
                }
                _ => self.mk(Node::ZExt(id), w),
            },
        }
    }

    pub fn sext(&mut self, a: Bv, w: u32) -> Bv {
        let aw = a.w();
        if aw == w {
            return a;
        }
        match a {
            Bv::C(v, _) => Bv::C((sx(v, aw) as u128) & mask(w), w),
            Bv::E(id, _) => {
                let (_, hi) = self.bounds_of(a);
                if hi < 1u128 << (aw - 1) {
                    return self.zext(a, w);
                }
                match *self.n(id) {
                    Node::SExt(x) => {
                        let x = self.bv(x);
                        self.sext(x, w)
                    }
                    _ => self.mk(Node::SExt(id), w),
                }
            }
        }
    }

    pub fn fp(&mut self, op: FpOp, a: Bv, b: Bv, w: u32) -> Bv {
        if let (Bv::C(x, aw), Bv::C(y, _)) = (a, b) {
            return Bv::C(fp_c(op, x, y, aw, w), w);
        }
        if let Some(r) = self.fp_circuit(op, a, w) {
            return r;
        }
        let (x, y) = (self.id(a), self.id(b));
        let r = self.mk(Node::Fp(op, x, y), w);
        let q = Bv::C(quiet(w), w);
        let (na, nb) = (self.is_nan(a), self.is_nan(b));
        let (qa, qb) = (self.bin(BinOp::Or, a, q), self.bin(BinOp::Or, b, q));
        let r = self.ite(nb, qb, r);
        self.ite(na, qa, r)
    }

    pub fn is_nan(&mut self, a: Bv) -> Bv {
        let w = a.w();
        let (m, inf) = if w == 32 { (0x7fff_ffffu128, 0x7f80_0000u128) } else { (mask(63), 0x7ff0_0000_0000_0000u128) };
        let x = self.bin(BinOp::And, a, Bv::C(m, w));
        self.cmp(CmpOp::Ult, Bv::C(inf, w), x)
    }

    /// Ordered IEEE equality, pure bit-vector.
    pub fn f_eq(&mut self, a: Bv, b: Bv) -> Bv {
        let w = a.w();
        let na = self.is_nan(a);
        let nb = self.is_nan(b);
        let n = self.bin(BinOp::Or, na, nb);
        let ok = self.not(n);
        let e = self.cmp(CmpOp::Eq, a, b);
        let m = Bv::C(mask(w - 1), w);
        let o = self.bin(BinOp::Or, a, b);
        let z = self.bin(BinOp::And, o, m);
        let z = self.cmp(CmpOp::Eq, z, Bv::C(0, w));
        let r = self.bin(BinOp::Or, e, z);
        self.bin(BinOp::And, ok, r)
    }

    /// Ordered IEEE less-than, pure bit-vector.
    pub fn f_lt(&mut self, a: Bv, b: Bv) -> Bv {
        let w = a.w();
        let na = self.is_nan(a);
        let nb = self.is_nan(b);
        let n = self.bin(BinOp::Or, na, nb);
        let ok = self.not(n);
        let sa = self.ext(a, w - 1, 1);
        let sb = self.ext(b, w - 1, 1);
        let o = self.bin(BinOp::Or, a, b);
        let z = self.bin(BinOp::And, o, Bv::C(mask(w - 1), w));
        let nz = self.cmp(CmpOp::Eq, z, Bv::C(0, w));
        let nz = self.not(nz);
        let nsb = self.not(sb);
        let neg_pos = self.bin(BinOp::And, sa, nsb);
        let neg_pos = self.bin(BinOp::And, neg_pos, nz);
        let same = self.cmp(CmpOp::Eq, sa, sb);
        let lt = self.cmp(CmpOp::Ult, a, b);
        let gt = self.cmp(CmpOp::Ult, b, a);
        let mag = self.ite(sa, gt, lt);
        let same_lt = self.bin(BinOp::And, same, mag);
        let r = self.bin(BinOp::Or, neg_pos, same_lt);
        self.bin(BinOp::And, ok, r)
    }

    pub fn vars_of(&mut self, id: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.var_sets.get(&id) {
            return v.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = Vec::new();
        let mut fp = false;
        let mut stack = vec![id];
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            match self.n(i) {
                Node::Var(v) => out.push(*v),
                Node::Const(_) => {}
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                    stack.push(*a);
                    stack.push(*b);
                }
                Node::Fp(_, a, b) => {
                    fp = true;
                    stack.push(*a);
                    stack.push(*b);
                }
                Node::Ite(a, b, c) => {
                    stack.push(*a);
                    stack.push(*b);
                    stack.push(*c);
                }
                Node::Ext(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Not(a) => stack.push(*a),
            }
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.var_sets.insert(id, r.clone());
        self.has_fp.insert(id, fp);
        r
    }

    pub fn eval(&self, id: Id, model: &[u8], memo: &mut HashMap<Id, u128>) -> u128 {
        if let Some(&v) = memo.get(&id) {
            return v;
        }
        let info = &self.nodes[id as usize];
        let w = info.w;
        let wof = |i: Id| self.nodes[i as usize].w;
        let r = match info.node {
            Node::Var(v) => return model.get(v as usize).copied().unwrap_or(0) as u128,
            Node::Const(c) => return c,
            Node::Bin(op, a, b) => bin_c(op, self.eval(a, model, memo), self.eval(b, model, memo), w),
            Node::Cmp(op, a, b) => {
                let aw = wof(a);
                cmp_c(op, self.eval(a, model, memo), self.eval(b, model, memo), aw) as u128
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, model, memo) != 0 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Node::Ext(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::Concat(h, l) => (self.eval(h, model, memo) << wof(l)) | self.eval(l, model, memo),
            Node::ZExt(a) => self.eval(a, model, memo),
            Node::SExt(a) => (sx(self.eval(a, model, memo), wof(a)) as u128) & mask(w),
            Node::Not(a) => self.eval(a, model, memo) ^ 1,
            Node::Fp(op, a, b) => fp_c(op, self.eval(a, model, memo), self.eval(b, model, memo), wof(a), w),
        };
        memo.insert(id, r);
        r
    }
}
