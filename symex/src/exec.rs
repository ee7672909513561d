//! The symbolic interpreter: states, memory, instruction semantics, forking.
use crate::expr::*;
use crate::llvm::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    B(Bv),
    A(Rc<Vec<Val>>),
}

/// No allocation may be larger than this.
const ALLOC_LIMIT: u128 = 1 << 26;

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    /// For each symbolic byte the expression stored there (offset by 1) and
    /// which of its bytes this is; 0 means concrete.
    pub sym: Option<Box<Vec<u64>>>,
    pub nsym: u32,
    pub ro: bool,
}

impl Obj {
    fn new(n: usize, fill: u8) -> Obj {
        Obj { bytes: vec![fill; n], sym: None, nsym: 0, ro: false }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    pc: u32,
    regs: Vec<Val>,
    stack_base: u32,
}

/// What the path says about an expression by itself.
#[derive(Clone)]
pub struct Range {
    lo: u128,
    hi: u128,
    not: Vec<u128>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    globals: Rc<Vec<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    pub path: Vec<Id>,
    known: HashMap<Id, u128>,
    ranges: HashMap<Id, Range>,
    doms: HashMap<u32, [u64; 4]>, // values of single bytes not excluded so far
    pub model: Vec<u8>,
    pub inputs: Vec<(String, Vec<u32>)>,
    pub obs: Vec<Vec<Bv>>,
    pub covers: Vec<String>,
    pub steps: u64,
    pub forks: u32,
}

pub enum Need {
    Value(Bv),
    End(End),
}
type R<T> = Result<T, Need>;

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assumed,
    Violation(String, String), // kind, message
    Incomplete(String),
}

#[derive(Clone, Debug)]
pub struct Report {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<u8>,
    pub covers: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub insts: u64,
    pub forks: u64,
    pub asserts: BTreeMap<String, (u64, u64)>, // discharged by solver, concretely true
    pub covers: BTreeMap<String, u64>,
    pub reports: Vec<Report>,
    pub samples: Vec<Sample>,
    pub max_steps: u64,
    pub report_keys: HashMap<String, u32>,
    pub decided: u64,
    pub funcs: HashSet<u32>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub a: Arena,
    pub s: Solver,
    pub st: Stats,
    pub params: HashMap<u64, u64>,
    pub step_limit: u64,
    pub locs: Vec<bool>,
    pub replay: Option<Vec<(String, Vec<u8>)>>,
    pub max_samples: usize,
    pub rng: u64,
    pub deadline: Option<Instant>,
    pub max_values: usize,
    pub verbose: bool,
    seen_samples: u64,
    /// Work left for one interval decision.
    budget: std::cell::Cell<u32>,
}

fn b64(v: u64) -> Val {
    Val::B(Bv::C(v as u128, 64))
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, rlimit: u32) -> Self {
        Exec {
            m,
            a: Arena::new(),
            s: Solver::new(rlimit),
            st: Stats::default(),
            params: HashMap::new(),
            step_limit: 50_000_000,
            locs: vec![false; m.locs.len()],
            replay: None,
            max_samples: 0,
            rng: 1,
            deadline: None,
            max_values: 2048,
            verbose: false,
            seen_samples: 0,
            budget: std::cell::Cell::new(0),
        }
    }

    pub fn initial(&self, f: u32) -> State {
        let globals = self
            .m
            .globals
            .iter()
            .map(|g| Rc::new(Obj { bytes: g.bytes.clone(), sym: None, nsym: 0, ro: g.constant }))
            .collect();
        let mut st = State {
            frames: Vec::new(),
            heap: Vec::new(),
            globals: Rc::new(globals),
            stack: Vec::new(),
            path: Vec::new(),
            known: HashMap::new(),
            ranges: HashMap::new(),
            doms: HashMap::new(),
            model: Vec::new(),
            inputs: Vec::new(),
            obs: Vec::new(),
            covers: Vec::new(),
            steps: 0,
            forks: 0,
        };
        self.push_frame(&mut st, f, Vec::new());
        st
    }

    fn push_frame(&self, st: &mut State, f: u32, args: Vec<Val>) {
        let fun = &self.m.funcs[f as usize];
        let mut regs = args;
        regs.resize(fun.nregs as usize, Val::B(Bv::C(0, 1)));
        st.frames.push(Rc::new(Frame { func: f, block: 0, pc: 0, regs, stack_base: st.stack.len() as u32 }));
    }

    // ---- path condition ----

    fn slice(&mut self, st: &State, conds: &[Id]) -> Vec<Id> {
        let words = (self.a.vars.len() + 63) / 64;
        let mut set = vec![0u64; words];
        for &c in conds {
            for &v in self.a.vars_of(c).iter() {
                set[v as usize / 64] |= 1 << (v % 64);
            }
        }
        let vs: Vec<Rc<Vec<u32>>> = st.path.iter().map(|&p| self.a.vars_of(p)).collect();
        let mut inc = vec![false; vs.len()];
        let mut out: Vec<Id> = conds.to_vec();
        loop {
            let mut changed = false;
            for (i, v) in vs.iter().enumerate() {
                if inc[i] || !v.iter().any(|&x| set[x as usize / 64] >> (x % 64) & 1 == 1) {
                    continue;
                }
                inc[i] = true;
                changed = true;
                out.push(st.path[i]);
                for &x in v.iter() {
                    set[x as usize / 64] |= 1 << (x % 64);
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    fn check(&mut self, st: &State, conds: &[Id]) -> Answer {
        let mut q = self.slice(st, conds);
        self.s.check(&mut self.a, &mut q)
    }

    fn apply_model(&self, st: &mut State, m: &[(u32, u8)]) {
        for &(v, b) in m {
            if st.model.len() <= v as usize {
                st.model.resize(v as usize + 1, 0);
            }
            st.model[v as usize] = b;
        }
    }

    pub fn eval(&self, st: &State, v: Bv) -> u128 {
        match v {
            Bv::C(c, _) => c,
            Bv::E(id, _) => self.a.eval(id, &st.model, &mut HashMap::new()),
        }
    }

    /// Adds a width-1 expression known to be consistent with the path.
    fn constrain(&mut self, st: &mut State, c: Bv) {
        let id = match c {
            Bv::C(v, _) => {
                assert!(v == 1);
                return;
            }
            Bv::E(id, _) => id,
        };
        if st.known.get(&id) == Some(&1) {
            return;
        }
        st.known.insert(id, 1);
        match self.a.nodes[id as usize].node.clone() {
            Node::Bin(BinOp::And, x, y) => {
                let (x, y) = (self.a.bv(x), self.a.bv(y));
                self.constrain(st, x);
                self.constrain(st, y);
                return;
            }
            Node::Not(x) => {
                st.known.insert(x, 0);
                if let Node::Bin(BinOp::Or, p, q) = self.a.nodes[x as usize].node.clone() {
                    let (p, q) = (self.a.bv(p), self.a.bv(q));
                    let (p, q) = (self.a.not(p), self.a.not(q));
                    self.constrain(st, p);
                    self.constrain(st, q);
                    return;
                }
            }
            Node::Cmp(CmpOp::Eq, x, y) => {
                if let Node::Const(v) = self.a.nodes[y as usize].node {
                    self.learn(st, x, v);
                }
            }
            _ => {}
        }
        st.path.push(id);
        self.narrow(st, id, true);
        self.exclude(st, id);
        let n = self.a.not(c);
        if let Bv::E(nid, _) = n {
            st.known.insert(nid, 0);
        }
    }

    /// Records the values of a byte that a constraint on it alone excludes.
    fn exclude(&mut self, st: &mut State, id: Id) {
        let v = self.a.nodes[id as usize].one;
        if v < 0 {
            return;
        }
        let t = self.a.table(id);
        let d = st.doms.entry(v as u32).or_insert([!0; 4]);
        for (b, x) in t.iter().enumerate() {
            if *x == 0 {
                d[b / 64] &= !(1 << (b % 64));
            }
        }
        let d = *d;
        assert!(d != [0; 4], "no value of a byte is left");
        if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
            let b = (0..256).find(|b| d[b / 64] >> (b % 64) & 1 == 1).unwrap();
            let name = self.a.vars[v as usize].clone();
            if let Bv::E(x, _) = self.a.var(&name) {
                self.learn(st, x, b as u128);
            }
        }
    }

    /// The least and the greatest value of an expression of one byte.
    fn range_of_byte(&self, st: &State, id: Id) -> Option<(u128, u128)> {
        let v = self.a.nodes[id as usize].one;
        if v < 0 {
            return None;
        }
        let d = st.doms.get(&(v as u32))?;
        let t = self.a.table(id);
        let (mut lo, mut hi) = (u128::MAX, 0);
        for i in 0..4 {
            let mut w = d[i];
            while w != 0 {
                let x = t[i * 64 + w.trailing_zeros() as usize];
                lo = lo.min(x);
                hi = hi.max(x);
                w &= w - 1;
            }
        }
        Some((lo, hi))
    }

    /// Records what a constraint says about the range of one expression.
    fn narrow(&mut self, st: &mut State, id: Id, truth: bool) {
        match self.a.nodes[id as usize].node.clone() {
            Node::Not(x) => self.narrow(st, x, !truth),
            Node::Cmp(op, x, y) => {
                self.budget.set(1500);
                let d = match self.difference(st, op, x, y, 0) {
                    Some(d) if d.t.len() == 1 && d.t[0].1.abs() == 1 => d,
                    _ => return,
                };
                let (x, k) = d.t[0];
                let n = &self.a.nodes[x as usize];
                let (nlo, nhi) = (n.lo, n.hi);
                if nhi >= 1 << 100 {
                    return;
                }
                let mut r = st.ranges.get(&x).cloned().unwrap_or(Range { lo: nlo, hi: nhi, not: Vec::new() });
                let (mut lo, mut hi) = (r.lo as i128, r.hi as i128);
                // d = k*x + c compared with 0
                let (upper, bound) = match (op, truth) {
                    (CmpOp::Eq, true) => {
                        lo = lo.max(-k * d.c);
                        hi = hi.min(-k * d.c);
                        (true, i128::MAX >> 2)
                    }
                    (CmpOp::Eq, false) => {
                        let v = -k * d.c;
                        if v >= 0 && !r.not.contains(&(v as u128)) {
                            r.not.push(v as u128);
                        }
                        (true, i128::MAX >> 2)
                    }
                    (CmpOp::Ult | CmpOp::Slt, true) => (true, -1 - d.c),
                    (CmpOp::Ule | CmpOp::Sle, true) => (true, -d.c),
                    (CmpOp::Ult | CmpOp::Slt, false) => (false, -d.c),
                    (CmpOp::Ule | CmpOp::Sle, false) => (false, 1 - d.c),
                };
                // k*x <= bound or k*x >= bound
                if upper == (k > 0) {
                    hi = hi.min(k * bound);
                } else {
                    lo = lo.max(k * bound);
                }
                if lo > hi {
                    return;
                }
                r.lo = lo.max(0) as u128;
                r.hi = hi as u128;
                while r.lo < r.hi && r.not.contains(&r.lo) {
                    r.lo += 1;
                }
                while r.lo < r.hi && r.not.contains(&r.hi) {
                    r.hi -= 1;
                }
                if r.lo == r.hi {
                    let v = r.lo;
                    st.ranges.insert(x, r);
                    self.learn(st, x, v);
                } else {
                    st.ranges.insert(x, r);
                }
            }
            _ => {}
        }
    }

    fn bounds(&self, st: &State, id: Id) -> (u128, u128) {
        if let Some(&v) = st.known.get(&id) {
            return (v, v);
        }
        if let Some(r) = self.range_of_byte(st, id) {
            return r;
        }
        let n = &self.a.nodes[id as usize];
        match st.ranges.get(&id) {
            Some(r) => (r.lo.max(n.lo), r.hi.min(n.hi)),
            None => (n.lo, n.hi),
        }
    }

    /// Adds `k` times the expression to a linear form over the integers whose
    /// value is the expression's up to multiples of 2^width.
    fn linear(&self, st: &State, id: Id, k: i128, f: &mut Lin, depth: u32) -> bool {
        let n = &self.a.nodes[id as usize];
        let w = n.w;
        let left = self.budget.get();
        if left == 0 {
            return false;
        }
        self.budget.set(left - 1);
        if depth > 200 || k.unsigned_abs() > 1 << 32 || f.c.unsigned_abs() > 1 << 100 || f.t.len() > 12 {
            return false;
        }
        if let Some(&v) = st.known.get(&id) {
            return signed(v, w).map_or(false, |v| f.constant(k, v));
        }
        match n.node {
            Node::Const(v) => signed(v, w).map_or(false, |v| f.constant(k, v)),
            Node::Bin(BinOp::Add, x, y) => self.linear(st, x, k, f, depth + 1) && self.linear(st, y, k, f, depth + 1),
            Node::Bin(BinOp::Sub, x, y) => self.linear(st, x, k, f, depth + 1) && self.linear(st, y, -k, f, depth + 1),
            Node::Bin(BinOp::Mul, x, y) => {
                let (mut p, mut q) = (Lin::default(), Lin::default());
                if !self.linear(st, x, 1, &mut p, depth + 1) || !self.linear(st, y, 1, &mut q, depth + 1) {
                    return false;
                }
                let (p, m) = if q.t.is_empty() {
                    (p, q.c)
                } else if p.t.is_empty() {
                    (q, p.c)
                } else {
                    return f.atom(id, k, w);
                };
                m.unsigned_abs() <= 1 << 32 && f.add(&p, k * m)
            }
            Node::ZExt(x) => {
                // exact only if the inner form does not wrap
                let mut g = Lin::default();
                let xw = self.a.nodes[x as usize].w;
                if self.linear(st, x, 1, &mut g, depth + 1) {
                    if g.t.is_empty() && g.c < 0 && xw < 100 {
                        g.c += 1i128 << xw;
                    }
                    if self.fits(st, &g, xw, false) {
                        return f.add(&g, k);
                    }
                }
                f.atom(x, k, xw)
            }
            Node::SExt(x) => {
                let mut g = Lin::default();
                let xw = self.a.nodes[x as usize].w;
                if self.linear(st, x, 1, &mut g, depth + 1) && self.fits(st, &g, xw, true) {
                    return f.add(&g, k);
                }
                f.atom(id, k, w)
            }
            Node::Ite(c, x, y) => match st.known.get(&c).map(|&v| v == 1).or_else(|| self.decide_in(st, c, depth + 1)) {
                Some(true) => self.linear(st, x, k, f, depth + 1),
                Some(false) => self.linear(st, y, k, f, depth + 1),
                None => f.atom(id, k, w),
            },
            _ => f.atom(id, k, w),
        }
    }

    fn interval(&self, st: &State, f: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (f.c, f.c);
        for &(i, k) in &f.t {
            let (l, h) = self.bounds(st, i);
            let (l, h) = (k * l as i128, k * h as i128);
            lo += l.min(h);
            hi += l.max(h);
        }
        (lo, hi)
    }

    fn fits(&self, st: &State, f: &Lin, w: u32, sign: bool) -> bool {
        let (lo, hi) = self.interval(st, f);
        if w >= 126 {
            return sign || lo >= 0;
        }
        if sign {
            lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1)
        } else {
            lo >= 0 && hi < 1i128 << w
        }
    }

    /// left - right of a comparison as an integer, when both sides are known
    /// not to wrap (equalities of the same form need not care).
    fn difference(&self, st: &State, op: CmpOp, x: Id, y: Id, depth: u32) -> Option<Lin> {
        let w = self.a.nodes[x as usize].w;
        let (mut p, mut q) = (Lin::default(), Lin::default());
        if w == 1 || !self.linear(st, x, 1, &mut p, depth) || !self.linear(st, y, 1, &mut q, depth) {
            return None;
        }
        let mut d = p.clone();
        if op == CmpOp::Eq && d.add(&q, -1) && d.t.is_empty() && d.c == 0 {
            return Some(d);
        }
        let try_sign = |sign: bool| {
            let (mut p, mut q) = (p.clone(), q.clone());
            if !sign && w < 120 {
                for f in [&mut p, &mut q] {
                    if f.t.is_empty() && f.c < 0 {
                        f.c += 1i128 << w;
                    }
                }
            }
            if !self.fits(st, &p, w, sign) || !self.fits(st, &q, w, sign) || !p.add(&q, -1) {
                return None;
            }
            Some(p)
        };
        match op {
            CmpOp::Slt | CmpOp::Sle => try_sign(true),
            CmpOp::Ult | CmpOp::Ule => try_sign(false),
            CmpOp::Eq => try_sign(true).or_else(|| try_sign(false)),
        }
    }

    /// Decides a comparison of sums by interval reasoning, when that suffices.
    fn decide(&self, st: &State, id: Id) -> Option<bool> {
        self.budget.set(1500);
        self.decide_in(st, id, 0)
    }

    fn decide_in(&self, st: &State, id: Id, depth: u32) -> Option<bool> {
        if let Some(&v) = st.known.get(&id) {
            return Some(v == 1);
        }
        if let Some((lo, hi)) = self.range_of_byte(st, id) {
            return if lo == hi { Some(lo == 1) } else { None };
        }
        match self.a.nodes[id as usize].node {
            Node::Not(x) => self.decide_in(st, x, depth).map(|b| !b),
            Node::Bin(BinOp::And, x, y) => match (self.decide_in(st, x, depth), self.decide_in(st, y, depth)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Bin(BinOp::Or, x, y) => match (self.decide_in(st, x, depth), self.decide_in(st, y, depth)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Node::Cmp(op, x, y) => {
                let (lo, hi) = self.interval(st, &self.difference(st, op, x, y, depth)?);
                match op {
                    CmpOp::Eq if lo > 0 || hi < 0 => Some(false),
                    CmpOp::Eq if lo == 0 && hi == 0 => Some(true),
                    CmpOp::Ult | CmpOp::Slt if hi < 0 => Some(true),
                    CmpOp::Ult | CmpOp::Slt if lo >= 0 => Some(false),
                    CmpOp::Ule | CmpOp::Sle if hi <= 0 => Some(true),
                    CmpOp::Ule | CmpOp::Sle if lo > 0 => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// The bits of an expression that are the same for all values on this
    /// path: which ones, and their value.
    fn bits(&self, st: &State, id: Id, memo: &mut HashMap<Id, (u128, u128)>, depth: u32) -> (u128, u128) {
        let n = &self.a.nodes[id as usize];
        let (w, all) = (n.w, mask(n.w));
        if let Node::Const(v) = n.node {
            return (all, v);
        }
        if let Some(&v) = st.known.get(&id) {
            return (all, v);
        }
        if let Some(&r) = memo.get(&id) {
            return r;
        }
        if depth > 400 || memo.len() > 3000 {
            return (0, 0);
        }
        if n.one >= 0 {
            if let Some(d) = st.doms.get(&(n.one as u32)) {
                let t = self.a.table(id);
                let (mut and, mut or) = (all, 0);
                for i in 0..4 {
                    let mut w = d[i];
                    while w != 0 {
                        let x = t[i * 64 + w.trailing_zeros() as usize];
                        and &= x;
                        or |= x;
                        w &= w - 1;
                    }
                }
                let r = (and | all & !or, and);
                memo.insert(id, r);
                return r;
            }
        }
        let mut go = |i: Id| self.bits(st, i, memo, depth + 1);
        let r = match n.node {
            Node::Bin(op, x, y) => {
                let ((kx, vx), (ky, vy)) = (go(x), go(y));
                match op {
                    _ if kx == all && ky == all && !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) => (all, bin_c(op, vx, vy, w)),
                    BinOp::And => {
                        let k = kx & ky | kx & !vx | ky & !vy;
                        (k, vx & vy & k)
                    }
                    BinOp::Or => {
                        let k = kx & ky | kx & vx | ky & vy;
                        (k, (vx | vy) & k)
                    }
                    BinOp::Xor => (kx & ky, (vx ^ vy) & kx & ky),
                    BinOp::Shl if ky == all && vy < w as u128 => ((kx << vy | mask(vy as u32)) & all, (vx << vy) & all),
                    BinOp::LShr if ky == all && vy < w as u128 => (kx >> vy | all & !(all >> vy), vx >> vy),
                    BinOp::Add | BinOp::Sub | BinOp::Mul => {
                        let t = (!(kx & ky)).trailing_zeros().min(w);
                        let m = if t == 0 { 0 } else { mask(t) };
                        (m, bin_c(op, vx, vy, w) & m)
                    }
                    _ => (0, 0),
                }
            }
            Node::Cmp(op, x, y) => {
                let xw = self.a.nodes[x as usize].w;
                let xall = mask(xw);
                let ((kx, vx), (ky, vy)) = (go(x), go(y));
                let both = kx & ky;
                let (xl, xh, yl, yh) = (vx, vx | xall & !kx, vy, vy | xall & !ky);
                match op {
                    _ if both == xall => (1, cmp_c(op, vx, vy, xw) as u128),
                    CmpOp::Eq if (vx ^ vy) & both != 0 => (1, 0),
                    CmpOp::Ult if xh < yl => (1, 1),
                    CmpOp::Ult if xl >= yh => (1, 0),
                    CmpOp::Ule if xh <= yl => (1, 1),
                    CmpOp::Ule if xl > yh => (1, 0),
                    _ => (0, 0),
                }
            }
            Node::Ite(c, x, y) => match go(c) {
                (1, 1) => go(x),
                (1, _) => go(y),
                _ => {
                    let ((kx, vx), (ky, vy)) = (go(x), go(y));
                    let k = kx & ky & !(vx ^ vy);
                    (k, vx & k)
                }
            },
            Node::Ext(x, lo) => {
                let (k, v) = go(x);
                ((k >> lo) & all, (v >> lo) & all)
            }
            Node::Concat(h, l) => {
                let lw = self.a.nodes[l as usize].w;
                let ((kh, vh), (kl, vl)) = (go(h), go(l));
                (kh << lw | kl, vh << lw | vl)
            }
            Node::ZExt(x) => {
                let xw = self.a.nodes[x as usize].w;
                let (k, v) = go(x);
                (k | all & !mask(xw), v)
            }
            Node::SExt(x) => {
                let xw = self.a.nodes[x as usize].w;
                let (k, v) = go(x);
                let top = all & !mask(xw);
                match (k >> (xw - 1) & 1, v >> (xw - 1) & 1) {
                    (1, 0) => (k | top, v),
                    (1, _) => (k | top, v | top),
                    _ => (k, v),
                }
            }
            Node::Not(x) => {
                let (k, v) = go(x);
                (k, (v ^ 1) & k)
            }
            _ => (0, 0),
        };
        memo.insert(id, r);
        r
    }

    /// x == v holds on this path: record it and what follows structurally.
    fn learn(&mut self, st: &mut State, x: Id, v: u128) {
        if matches!(self.a.nodes[x as usize].node, Node::Const(_)) || st.known.insert(x, v) == Some(v) {
            return;
        }
        match self.a.nodes[x as usize].node.clone() {
            Node::Concat(h, l) => {
                let lw = self.a.nodes[l as usize].w;
                self.learn(st, h, v >> lw);
                self.learn(st, l, v & mask(lw));
            }
            Node::ZExt(y) => self.learn(st, y, v),
            Node::SExt(y) => {
                let yw = self.a.nodes[y as usize].w;
                self.learn(st, y, v & mask(yw))
            }
            Node::Bin(op, y, z) => {
                let w = self.a.nodes[x as usize].w;
                let of = |i: Id| self.bounds(st, i);
                let ((yl, yh), (zl, zh)) = (of(y), of(z));
                let (y, k, flip) = match (yl == yh, zl == zh) {
                    (false, true) => (y, zl, false),
                    (true, false) => (z, yl, true),
                    _ => return,
                };
                match op {
                    BinOp::Add => self.learn(st, y, v.wrapping_sub(k) & mask(w)),
                    BinOp::Sub if flip => self.learn(st, y, k.wrapping_sub(v) & mask(w)),
                    BinOp::Sub => self.learn(st, y, v.wrapping_add(k) & mask(w)),
                    BinOp::Xor => self.learn(st, y, v ^ k),
                    _ => {}
                }
            }
            Node::Ite(c, y, z) => {
                let not = |i: Id| {
                    let (l, h) = self.bounds(st, i);
                    v < l || v > h
                };
                if not(y) {
                    self.learn(st, c, 0);
                    self.learn(st, z, v);
                } else if not(z) {
                    self.learn(st, c, 1);
                    self.learn(st, y, v);
                }
            }
            Node::Not(y) => self.learn(st, y, v ^ 1),
            _ => {}
        }
    }

    #[inline]
    fn subst(&self, st: &State, v: Bv) -> Bv {
        match v {
            Bv::C(..) => v,
            Bv::E(id, w) => match st.known.get(&id) {
                Some(&c) => Bv::C(c, w),
                None => v,
            },
        }
    }

    // ---- values ----

    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::B(Bv::C(0, *w)),
            Ty::F32 => Val::B(Bv::C(0, 32)),
            Ty::F64 | Ty::Ptr => Val::B(Bv::C(0, 64)),
            Ty::Agg(f, _) => Val::A(Rc::new(f.iter().map(|(_, t)| self.zero(t)).collect())),
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Void | Ty::Other => Val::B(Bv::C(0, 1)),
        }
    }

    fn konst(&self, c: &Const) -> Val {
        match c {
            Const::I(v, w) => Val::B(Bv::C(*v, *w)),
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|c| self.konst(c)).collect())),
            Const::Undef(t) => self.zero(t),
        }
    }

    fn val(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::B(b) => Val::B(self.subst(st, *b)),
                v => v.clone(),
            },
            Opd::C(c) => self.konst(&self.m.consts[*c as usize]),
        }
    }

    #[inline]
    fn bv(&self, st: &State, o: &Opd) -> Bv {
        match o {
            Opd::Reg(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::B(b) => self.subst(st, *b),
                Val::A(_) => panic!("aggregate where scalar expected"),
            },
            Opd::C(c) => match &self.m.consts[*c as usize] {
                Const::I(v, w) => Bv::C(*v, *w),
                Const::Undef(t) => Bv::C(0, t.bits()),
                _ => panic!("aggregate constant where scalar expected"),
            },
        }
    }

    fn conc(&self, st: &State, v: Bv) -> R<u128> {
        match self.subst(st, v) {
            Bv::C(c, _) => Ok(c),
            e => Err(Need::Value(e)),
        }
    }

    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst == u32::MAX {
            return;
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[dst as usize] = v;
    }

    // ---- memory ----

    fn violation<T>(&self, kind: &str, msg: String) -> R<T> {
        Err(Need::End(End::Violation(kind.into(), msg)))
    }

    fn obj<'a>(&self, st: &'a State, a: u64) -> Option<&'a Rc<Obj>> {
        let id = (a >> 32) as usize & 0xfff_ffff;
        match a >> 60 {
            GLOBAL_TAG => self.gid(a).and_then(|g| st.globals.get(g)),
            HEAP_TAG => st.heap.get(id).and_then(|o| o.as_ref()),
            STACK_TAG => st.stack.get(id),
            _ => None,
        }
    }

    fn obj_mut<'a>(&self, st: &'a mut State, a: u64) -> Option<&'a mut Obj> {
        let id = (a >> 32) as usize & 0xfff_ffff;
        match a >> 60 {
            GLOBAL_TAG => match self.gid(a) {
                Some(g) => Rc::make_mut(&mut st.globals).get_mut(g).map(Rc::make_mut),
                None => None,
            },
            HEAP_TAG => st.heap.get_mut(id).and_then(|o| o.as_mut()).map(Rc::make_mut),
            STACK_TAG => st.stack.get_mut(id).map(Rc::make_mut),
            _ => None,
        }
    }

    fn gid(&self, a: u64) -> Option<usize> {
        self.m.gaddrs.partition_point(|&g| g <= a).checked_sub(1)
    }

    fn offset(&self, a: u64) -> u64 {
        if a >> 60 == GLOBAL_TAG {
            return match self.gid(a) {
                Some(g) => a - self.m.gaddrs[g],
                None => u64::MAX,
            };
        }
        (a & 0xffff_ffff).wrapping_sub(BASE_OFF)
    }

    fn read(&mut self, st: &State, a: u64, n: usize, w: u32) -> R<Bv> {
        let o = match self.obj(st, a) {
            Some(o) => o,
            None => return self.violation("memory", format!("load of {} bytes from invalid address {:#x}", n, a)),
        };
        let off = self.offset(a) as usize;
        if off > o.bytes.len() || off + n > o.bytes.len() {
            return self.violation("memory", format!("load of {} bytes at offset {} of object of size {}", n, off as i64, o.bytes.len()));
        }
        if o.nsym == 0 {
            let mut v = 0u128;
            for (i, b) in o.bytes[off..off + n].iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            return Ok(Bv::C(v & mask(w), w));
        }
        let o = o.clone();
        let sym = o.sym.as_ref().unwrap();
        let mut r: Option<Bv> = None;
        let mut i = 0;
        while i < n {
            let e = sym[off + i];
            let mut k = 1;
            let b = if e == 0 {
                Bv::C(o.bytes[off + i] as u128, 8)
            } else {
                // consecutive bytes of one stored value are read together
                while i + k < n && sym[off + i + k] == e + k as u64 {
                    k += 1;
                }
                let v = self.a.bv((e >> 8) as Id - 1);
                self.a.ext(v, 8 * (e & 255) as u32, 8 * k as u32)
            };
            r = Some(match r {
                None => b,
                Some(l) => self.a.concat(b, l),
            });
            i += k;
        }
        let mut r = r.unwrap_or(Bv::C(0, 0));
        if r.w() > w {
            r = self.a.ext(r, 0, w);
        }
        Ok(self.subst(st, r))
    }

    fn write(&mut self, st: &mut State, a: u64, v: Bv, n: usize) -> R<()> {
        let (len, ro) = match self.obj(st, a) {
            Some(o) => (o.bytes.len(), o.ro),
            None => return self.violation("memory", format!("store to invalid address {:#x}", a)),
        };
        let off = self.offset(a) as usize;
        if off > len || off + n > len || ro {
            return self.violation("memory", format!("store of {} bytes at offset {} of object of size {}", n, off as i64, len));
        }
        let v = if v.w() < 8 * n as u32 { self.a.zext(v, 8 * n as u32) } else { v };
        match v {
            Bv::C(c, _) => {
                let o = self.obj_mut(st, a).unwrap();
                o.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if o.nsym > 0 {
                    let sym = o.sym.as_mut().unwrap();
                    for s in &mut sym[off..off + n] {
                        if *s != 0 {
                            *s = 0;
                            o.nsym -= 1;
                        }
                    }
                }
            }
            e => {
                let e = self.a.id(e) as u64;
                let o = self.obj_mut(st, a).unwrap();
                for i in 0..n {
                    Self::put_byte(o, off + i, (e + 1) << 8 | i as u64);
                }
            }
        }
        Ok(())
    }

    fn put_byte(o: &mut Obj, i: usize, e: u64) {
        if o.sym.is_none() {
            o.sym = Some(Box::new(vec![0; o.bytes.len()]));
        }
        let s = &mut o.sym.as_mut().unwrap()[i];
        if *s == 0 {
            o.nsym += 1;
        }
        *s = e;
        o.bytes[i] = 0;
    }

    fn get_bytes(&mut self, st: &State, a: u64, n: usize) -> R<Vec<Bv>> {
        if n == 0 {
            return Ok(Vec::new());
        }
        let o = match self.obj(st, a) {
            Some(o) => o.clone(),
            None => return self.violation("memory", format!("read of {} bytes from invalid address {:#x}", n, a)),
        };
        let off = self.offset(a) as usize;
        if off > o.bytes.len() || n > o.bytes.len() - off {
            return self.violation("memory", format!("read of {} bytes at offset {} of object of size {}", n, off as i64, o.bytes.len()));
        }
        Ok((off..off + n)
            .map(|i| match &o.sym {
                Some(s) if s[i] != 0 => {
                    let v = self.a.bv((s[i] >> 8) as Id - 1);
                    self.a.ext(v, 8 * (s[i] & 255) as u32, 8)
                }
                _ => Bv::C(o.bytes[i] as u128, 8),
            })
            .collect())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let src = match self.obj(st, s) {
            Some(o) => o.clone(),
            None => return self.violation("memory", format!("copy of {} bytes from invalid address {:#x}", n, s)),
        };
        let so = self.offset(s) as usize;
        if so > src.bytes.len() || n > src.bytes.len() - so {
            return self.violation("memory", format!("copy of {} bytes from offset {} of object of size {}", n, so as i64, src.bytes.len()));
        }
        let (dl, ro) = match self.obj(st, d) {
            Some(o) => (o.bytes.len(), o.ro),
            None => return self.violation("memory", format!("copy of {} bytes to invalid address {:#x}", n, d)),
        };
        let off = self.offset(d) as usize;
        if off > dl || n > dl - off || ro {
            return self.violation("memory", format!("copy of {} bytes to offset {} of object of size {}", n, off as i64, dl));
        }
        let o = self.obj_mut(st, d).unwrap();
        o.bytes[off..off + n].copy_from_slice(&src.bytes[so..so + n]);
        if o.nsym > 0 || src.nsym > 0 {
            if o.sym.is_none() {
                o.sym = Some(Box::new(vec![0; o.bytes.len()]));
            }
            let os = o.sym.as_mut().unwrap();
            for i in 0..n {
                let v = match &src.sym {
                    Some(s) => s[so + i],
                    None => 0,
                };
                let old = os[off + i];
                os[off + i] = v;
                if old != 0 {
                    o.nsym -= 1;
                }
                if v != 0 {
                    o.nsym += 1;
                }
            }
        }
        Ok(())
    }

    fn load(&mut self, st: &State, a: Bv, t: &Ty) -> R<Val> {
        match t {
            Ty::Agg(f, _) => {
                let mut v = Vec::new();
                for (o, t) in f {
                    let p = self.a.bin(BinOp::Add, a, Bv::C(*o as u128, 64));
                    v.push(self.load(st, p, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let s = e.size();
                let mut v = Vec::new();
                for i in 0..*n as u64 {
                    let p = self.a.bin(BinOp::Add, a, Bv::C((i * s) as u128, 64));
                    v.push(self.load(st, p, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = t.bits();
                let n = t.size() as usize;
                match a {
                    Bv::C(c, _) => Ok(Val::B(self.read(st, c as u64, n, w)?)),
                    Bv::E(..) => Ok(Val::B(self.load_symbolic(st, a, n, w)?)),
                }
            }
        }
    }

    /// Load through a symbolic address: an if-then-else over the object's
    /// entries when every feasible address falls into one object.
    fn load_symbolic(&mut self, st: &State, a: Bv, n: usize, w: u32) -> R<Bv> {
        let a0 = self.eval(st, a) as u64;
        let (base, size) = match self.obj(st, a0) {
            Some(o) => (a0.wrapping_sub(self.offset(a0)), o.bytes.len()),
            None => return Err(Need::Value(a)),
        };
        if size < n || size > 16384 {
            return Err(Need::Value(a));
        }
        let off = self.a.bin(BinOp::Sub, a, Bv::C(base as u128, 64));
        let (lo, hi) = self.a.bounds_of(off);
        let hi = hi.min((size - n) as u128);
        let stride = self.stride(off);
        let lo = (lo + stride - 1) / stride * stride;
        if lo > hi || (hi - lo) / stride > 64 {
            return Err(Need::Value(a));
        }
        // Every feasible offset must lie within [lo, hi].
        let in_hi = self.a.cmp(CmpOp::Ule, off, Bv::C((size - n) as u128, 64));
        if let Bv::E(..) = in_hi {
            let bad = self.a.not(in_hi);
            let bad = self.subst(st, bad);
            match bad {
                Bv::C(0, _) => {}
                Bv::C(..) => return Err(Need::Value(a)),
                Bv::E(id, _) => {
                    if self.check(st, &[id]) != Answer::Unsat {
                        return Err(Need::Value(a));
                    }
                }
            }
        } else if in_hi == Bv::bool(false) {
            return Err(Need::Value(a));
        }
        let mut r: Option<Bv> = None;
        let mut o = lo;
        while o <= hi {
            let v = self.read(st, base + o as u64, n, w)?;
            r = Some(match r {
                None => v,
                Some(p) => {
                    if p == v {
                        p
                    } else {
                        let c = self.a.cmp(CmpOp::Eq, off, Bv::C(o, 64));
                        self.a.ite(c, v, p)
                    }
                }
            });
            o += stride;
        }
        Ok(r.unwrap())
    }

    fn stride(&self, v: Bv) -> u128 {
        match v {
            Bv::C(0, _) => 1 << 20,
            Bv::C(c, _) => 1 << c.trailing_zeros(),
            Bv::E(id, _) => match self.a.nodes[id as usize].node {
                Node::Concat(_, l) => {
                    let lw = self.a.nodes[l as usize].w;
                    let s = self.stride(self.a.bv(l));
                    s.min(1 << lw)
                }
                Node::ZExt(x) | Node::SExt(x) => self.stride(self.a.bv(x)),
                Node::Bin(BinOp::Add | BinOp::Sub | BinOp::Or, x, y) => self.stride(self.a.bv(x)).min(self.stride(self.a.bv(y))),
                Node::Bin(BinOp::Mul, x, y) => self.stride(self.a.bv(x)) * self.stride(self.a.bv(y)),
                Node::Ite(_, x, y) => self.stride(self.a.bv(x)).min(self.stride(self.a.bv(y))),
                _ => 1,
            },
        }
        .min(1 << 20)
    }

    fn store(&mut self, st: &mut State, a: u64, v: &Val, t: &Ty) -> R<()> {
        match (v, t) {
            (Val::B(b), _) => self.write(st, a, *b, t.size() as usize),
            (Val::A(v), Ty::Agg(f, _)) => {
                for (v, (o, t)) in v.iter().zip(f) {
                    self.store(st, a + o, v, t)?;
                }
                Ok(())
            }
            (Val::A(v), Ty::Vec(_, e)) => {
                let s = e.size();
                for (i, v) in v.iter().enumerate() {
                    self.store(st, a + i as u64 * s, v, e)?;
                }
                Ok(())
            }
            _ => panic!("store of aggregate to {:?}", t),
        }
    }

    /// The size of an allocation. More than `ALLOC_LIMIT` bytes is a defect
    /// (every input is small) and is asked for before any size is fixed.
    fn size(&mut self, st: &State, args: &[Opd], i: usize) -> R<u128> {
        let v = self.bv(st, &args[i]);
        let big = self.a.cmp(CmpOp::Ult, Bv::C(ALLOC_LIMIT, 64), v.clone());
        if self.conc(st, big)? == 1 {
            let n = self.eval(st, v);
            return self.violation("allocation", format!("allocation of more than {} bytes", if n > ALLOC_LIMIT { ALLOC_LIMIT } else { n }));
        }
        self.conc(st, v)
    }

    fn alloc(&mut self, st: &mut State, n: u128, zero: bool) -> u64 {
        if n > ALLOC_LIMIT {
            return 0;
        }
        let id = st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj::new(n as usize, if zero { 0 } else { 0xA5 }))));
        addr(HEAP_TAG, id)
    }

    // ---- lifting over vectors ----

    fn lift2(&mut self, x: Val, y: Val, f: &mut dyn FnMut(&mut Arena, Bv, Bv) -> Bv) -> Val {
        match (x, y) {
            (Val::B(x), Val::B(y)) => Val::B(f(&mut self.a, x, y)),
            (Val::A(x), Val::A(y)) => {
                let mut o = Vec::new();
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.lift2(p.clone(), q.clone(), f));
                }
                Val::A(Rc::new(o))
            }
            _ => panic!("lift2 shape"),
        }
    }

    fn lift1(&mut self, x: Val, f: &mut dyn FnMut(&mut Arena, Bv) -> Bv) -> Val {
        match x {
            Val::B(x) => Val::B(f(&mut self.a, x)),
            Val::A(x) => {
                let mut o = Vec::new();
                for p in x.iter() {
                    o.push(self.lift1(p.clone(), f));
                }
                Val::A(Rc::new(o))
            }
        }
    }

    // ---- driver ----

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let fun = &self.m.funcs[f.func as usize];
                let blk = &fun.blocks[f.block as usize];
                let l = blk.insts.get(f.pc as usize).map(|i| i.loc).unwrap_or(0);
                let (file, line) = &self.m.locs[l as usize];
                format!("{} ({}:{})", fun.name, file, line)
            })
            .collect()
    }

    fn inputs_of(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|(n, v)| (n.clone(), v.iter().map(|&x| st.model.get(x as usize).copied().unwrap_or(0)).collect()))
            .collect()
    }

    fn report(&mut self, st: &State, kind: &str, msg: &str) {
        let trace = self.trace(st);
        let key = format!("{}|{}|{}", kind, msg, trace.first().cloned().unwrap_or_default());
        let n = self.st.report_keys.entry(key).or_insert(0);
        *n += 1;
        if *n <= 4 && self.st.reports.len() < 40 {
            let r = Report { kind: kind.into(), msg: msg.into(), trace, inputs: self.inputs_of(st) };
            if self.verbose {
                eprintln!("REPORT {} {} {:?}", r.kind, r.msg, r.trace);
            }
            self.st.reports.push(r);
            // A violation ends the search soon; the rest of the space no longer matters.
            let soon = Instant::now() + std::time::Duration::from_secs(15);
            self.deadline = Some(self.deadline.map_or(soon, |d| d.min(soon)));
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn finish(&mut self, st: &State, e: End) {
        self.st.max_steps = self.st.max_steps.max(st.steps);
        match e {
            End::Done => {
                self.st.paths += 1;
                for c in &st.covers {
                    *self.st.covers.entry(c.clone()).or_insert(0) += 1;
                }
                // Reservoir sampling of completed paths for native validation.
                self.seen_samples += 1;
                let k = if self.st.samples.len() < self.max_samples {
                    Some(self.st.samples.len())
                } else if self.max_samples > 0 {
                    let r = (self.rand() % self.seen_samples) as usize;
                    if r < self.max_samples {
                        Some(r)
                    } else {
                        None
                    }
                } else {
                    None
                };
                if let Some(k) = k {
                    let mut memo = HashMap::new();
                    let mut obs = Vec::new();
                    for o in &st.obs {
                        obs.extend((o.len() as u32).to_le_bytes());
                        for b in o {
                            obs.push(match b {
                                Bv::C(c, _) => *c as u8,
                                Bv::E(id, _) => self.a.eval(*id, &st.model, &mut memo) as u8,
                            });
                        }
                    }
                    let s = Sample { inputs: self.inputs_of(st), obs, covers: st.covers.clone() };
                    if k == self.st.samples.len() {
                        self.st.samples.push(s);
                    } else {
                        self.st.samples[k] = s;
                    }
                }
            }
            End::Assumed => self.st.assumed += 1,
            End::Violation(k, m) => {
                self.st.paths += 1;
                self.report(st, &k, &m);
            }
            End::Incomplete(m) => {
                if self.verbose {
                    eprintln!("INCOMPLETE {} {:?}", m, self.trace(st));
                }
                *self.st.incomplete.entry(m).or_insert(0) += 1;
            }
        }
    }

    /// Runs a state until it ends; forked siblings are appended to `work`.
    pub fn run(&mut self, mut st: State, work: &mut Vec<State>, stop_at_fork: bool) {
        loop {
            if st.steps & 0xffff == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        self.finish(&st, End::Incomplete("time limit".into()));
                        return;
                    }
                }
            }
            if st.steps > self.step_limit {
                self.finish(&st, End::Violation("steps".into(), format!("more than {} steps: possible non-termination", self.step_limit)));
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Need::End(e)) => {
                    self.finish(&st, e);
                    return;
                }
                Err(Need::Value(v)) => {
                    let mut kids = match self.concretize(&st, v) {
                        Ok(k) => k,
                        Err(e) => {
                            self.finish(&st, e);
                            return;
                        }
                    };
                    self.st.forks += kids.len() as u64 - 1;
                    if self.deadline.map_or(false, |d| Instant::now() > d) {
                        self.finish(&st, End::Incomplete("time limit".into()));
                        return;
                    }
                    if kids.len() == 1 {
                        st = kids.pop().unwrap();
                    } else if stop_at_fork {
                        work.extend(kids);
                        return;
                    } else {
                        st = kids.pop().unwrap();
                        work.extend(kids);
                    }
                }
            }
        }
    }

    /// All feasible values of `v` on this path, one successor state each.
    fn concretize(&mut self, st: &State, v: Bv) -> Result<Vec<State>, End> {
        let (id, w) = match v {
            Bv::E(id, w) => (id, w),
            _ => panic!("concretize of a constant"),
        };
        let mut out: Vec<State> = Vec::new();
        let cur = self.eval(st, v);
        if w == 1 {
            if let Some(b) = self.decide(st, id) {
                assert!(b as u128 == cur, "interval reasoning contradicts the model");
                self.st.decided += 1;
                let mut n = st.clone();
                n.known.insert(id, cur);
                return Ok(vec![n]);
            }
        }
        let (k, b) = self.bits(st, id, &mut HashMap::new(), 0);
        assert!(k & cur == b, "known bits contradict the model");
        if k == mask(w) {
            self.st.decided += 1;
            let mut n = st.clone();
            self.learn(&mut n, id, cur);
            return Ok(vec![n]);
        }
        let mut excl: Vec<Id> = Vec::new();
        let mut val = cur;
        let mut model: Option<Vec<(u32, u8)>> = None;
        loop {
            let mut n = st.clone();
            n.forks += 1;
            if let Some(m) = &model {
                self.apply_model(&mut n, m);
            }
            let c = self.a.cmp(CmpOp::Eq, v, Bv::C(val, w));
            match c {
                Bv::C(x, _) => assert!(x == 1, "infeasible value"),
                c => self.constrain(&mut n, c),
            }
            self.learn(&mut n, id, val);
            out.push(n);
            if w == 1 && out.len() == 2 {
                break;
            }
            if out.len() > self.max_values {
                return Err(End::Incomplete(format!("more than {} feasible values at one point", self.max_values)));
            }
            let ne = self.a.not(c);
            match self.subst(st, ne) {
                Bv::C(0, _) => break,
                Bv::C(..) => {}
                Bv::E(i, _) => excl.push(i),
            }
            if excl.is_empty() {
                break;
            }
            let e = excl.clone();
            match self.check(st, &e) {
                Answer::Unsat => break,
                Answer::Unknown => return Err(End::Incomplete("solver gave up on a branch query".into())),
                Answer::Sat(m) => {
                    let mut full = st.model.clone();
                    for &(x, b) in &m {
                        if full.len() <= x as usize {
                            full.resize(x as usize + 1, 0);
                        }
                        full[x as usize] = b;
                    }
                    val = self.a.eval(id, &full, &mut HashMap::new());
                    model = Some(m);
                }
            }
        }
        Ok(out)
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last().unwrap();
        let from = f.block;
        let fun = &self.m.funcs[f.func as usize];
        let blk = &fun.blocks[to as usize];
        if blk.phis.is_empty() {
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            f.block = to;
            f.pc = 0;
            return;
        }
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (dst, inc) in &blk.phis {
            let o = &inc.iter().find(|(b, _)| *b == from).expect("phi edge").1;
            vals.push((*dst, self.val(st, o)));
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.block = to;
        f.pc = 0;
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
    }

    fn next(&self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let f = st.frames.last().unwrap();
        let inst = &m.funcs[f.func as usize].blocks[f.block as usize].insts[f.pc as usize];
        self.locs[inst.loc as usize] = true;
        st.steps += 1;
        self.st.insts += 1;
        match &inst.op {
            Op::Ret(v) => {
                let v = v.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base as usize);
                if st.frames.is_empty() {
                    return Err(Need::End(End::Done));
                }
                self.return_value(st, v);
                Ok(())
            }
            Op::Br(b) => {
                self.jump(st, *b);
                Ok(())
            }
            Op::CondBr(c, t, e) => {
                let c = self.bv(st, c);
                let c = self.conc(st, c)?;
                self.jump(st, if c != 0 { *t } else { *e });
                Ok(())
            }
            Op::Switch(c, cases, def) => {
                let v = self.bv(st, c);
                match v {
                    Bv::C(x, _) => {
                        let t = cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*def);
                        self.jump(st, t);
                        Ok(())
                    }
                    Bv::E(_, w) => {
                        // Decide the branch target one condition at a time; each
                        // undecided condition forks the state.
                        let cur = self.eval(st, v);
                        let mut groups: BTreeMap<u32, Vec<u128>> = BTreeMap::new();
                        for (k, b) in cases {
                            groups.entry(*b).or_default().push(*k);
                        }
                        let mut order: Vec<(u32, Vec<u128>)> = groups.into_iter().collect();
                        // The target taken under the current model first.
                        order.sort_by_key(|(_, ks)| if ks.contains(&cur) { 0 } else { 1 });
                        for (b, ks) in &order {
                            if *b == *def {
                                continue;
                            }
                            let mut c = Bv::bool(false);
                            for k in ks {
                                let e = self.a.cmp(CmpOp::Eq, v, Bv::C(*k, w));
                                c = self.a.bin(BinOp::Or, c, e);
                            }
                            if self.conc(st, c)? != 0 {
                                self.jump(st, *b);
                                return Ok(());
                            }
                        }
                        self.jump(st, *def);
                        Ok(())
                    }
                }
            }
            Op::Unreachable => self.violation("unreachable", "reached an unreachable instruction".into()),
            Op::Call { callee, args, normal: _, noreturn } => self.call(st, inst, callee, args, *noreturn),
            Op::Unsupported(s) => Err(Need::End(End::Incomplete(format!("unsupported: {}", s)))),
            _ => {
                if let Some(v) = self.compute(st, inst)? {
                    self.set(st, inst.dst, v);
                }
                self.next(st);
                Ok(())
            }
        }
    }

    fn return_value(&mut self, st: &mut State, v: Option<Val>) {
        let m = self.m;
        let f = st.frames.last().unwrap();
        let inst = &m.funcs[f.func as usize].blocks[f.block as usize].insts[f.pc as usize];
        if let Some(v) = v {
            self.set(st, inst.dst, v);
        }
        match &inst.op {
            Op::Call { normal: Some(b), .. } => self.jump(st, *b),
            _ => self.next(st),
        }
    }

    fn compute(&mut self, st: &mut State, inst: &Inst) -> R<Option<Val>> {
        Ok(Some(match &inst.op {
            Op::Nop => {
                if inst.dst != u32::MAX {
                    return Ok(Some(self.zero(&inst.ty)));
                }
                return Ok(None);
            }
            Op::Bin(opc, x, y) => {
                let (x, y) = (self.val(st, x), self.val(st, y));
                match opc {
                    9 | 11 | 13 | 16 => {
                        let op = match opc {
                            9 => FpOp::Add,
                            11 => FpOp::Sub,
                            13 => FpOp::Mul,
                            _ => FpOp::Div,
                        };
                        self.lift2(x, y, &mut |a, x, y| a.fp(op, x, y, x.w()))
                    }
                    _ => {
                        let op = match opc {
                            8 => BinOp::Add,
                            10 => BinOp::Sub,
                            12 => BinOp::Mul,
                            14 => BinOp::UDiv,
                            15 => BinOp::SDiv,
                            17 => BinOp::URem,
                            18 => BinOp::SRem,
                            20 => BinOp::Shl,
                            21 => BinOp::LShr,
                            22 => BinOp::AShr,
                            23 => BinOp::And,
                            24 => BinOp::Or,
                            25 => BinOp::Xor,
                            _ => return Err(Need::End(End::Incomplete(format!("binary opcode {}", opc)))),
                        };
                        if let (Val::B(x), Val::B(y)) = (&x, &y) {
                            Val::B(self.a.bin(op, *x, *y))
                        } else {
                            self.lift2(x, y, &mut |a, x, y| a.bin(op, x, y))
                        }
                    }
                }
            }
            Op::FNeg(x) => {
                let x = self.val(st, x);
                self.lift1(x, &mut |a, x| {
                    let w = x.w();
                    a.bin(BinOp::Xor, x, Bv::C(1 << (w - 1), w))
                })
            }
            Op::ICmp(p, x, y) => {
                let (x, y) = (self.val(st, x), self.val(st, y));
                let p = *p;
                let r = self.lift2(x, y, &mut |a, x, y| match p {
                    32 => a.cmp(CmpOp::Eq, x, y),
                    33 => {
                        let e = a.cmp(CmpOp::Eq, x, y);
                        a.not(e)
                    }
                    34 => a.cmp(CmpOp::Ult, y, x),
                    35 => a.cmp(CmpOp::Ule, y, x),
                    36 => a.cmp(CmpOp::Ult, x, y),
                    37 => a.cmp(CmpOp::Ule, x, y),
                    38 => a.cmp(CmpOp::Slt, y, x),
                    39 => a.cmp(CmpOp::Sle, y, x),
                    40 => a.cmp(CmpOp::Slt, x, y),
                    _ => a.cmp(CmpOp::Sle, x, y),
                });
                match r {
                    Val::B(b) => Val::B(self.subst(st, b)),
                    v => v,
                }
            }
            Op::FCmp(p, x, y) => {
                let (x, y) = (self.val(st, x), self.val(st, y));
                let p = *p;
                self.lift2(x, y, &mut |a, x, y| {
                    let na = a.is_nan(x);
                    let nb = a.is_nan(y);
                    let uno = a.bin(BinOp::Or, na, nb);
                    let base = p & 7;
                    let r = match base {
                        0 => Bv::bool(false),
                        1 => a.f_eq(x, y),
                        2 => a.f_lt(y, x),
                        3 => {
                            let l = a.f_lt(y, x);
                            let e = a.f_eq(x, y);
                            a.bin(BinOp::Or, l, e)
                        }
                        4 => a.f_lt(x, y),
                        5 => {
                            let l = a.f_lt(x, y);
                            let e = a.f_eq(x, y);
                            a.bin(BinOp::Or, l, e)
                        }
                        6 => {
                            let l = a.f_lt(x, y);
                            let g = a.f_lt(y, x);
                            a.bin(BinOp::Or, l, g)
                        }
                        _ => a.not(uno),
                    };
                    if p >= 8 {
                        a.bin(BinOp::Or, uno, r)
                    } else {
                        r
                    }
                })
            }
            Op::Cast(opc, x, from) => {
                let v = self.val(st, x);
                let to = match &inst.ty {
                    Ty::Vec(_, e) => (**e).clone(),
                    t => t.clone(),
                };
                if *opc == 41 {
                    return Ok(Some(self.bitcast(v, from, &inst.ty)));
                }
                let w = to.bits();
                let opc = *opc;
                let r = self.lift1(v, &mut |a, x| match opc {
                    30 => a.ext(x, 0, w),
                    31 => a.zext(x, w),
                    32 => a.sext(x, w),
                    33 => a.fp(FpOp::ToUSat, x, x, w),
                    34 => a.fp(FpOp::ToSSat, x, x, w),
                    35 => a.fp(FpOp::FromU, x, x, w),
                    36 => a.fp(FpOp::FromS, x, x, w),
                    37 => a.fp(FpOp::Trunc, x, x, w),
                    38 => a.fp(FpOp::Ext, x, x, w),
                    _ => {
                        if x.w() > w {
                            a.ext(x, 0, w)
                        } else {
                            a.zext(x, w)
                        }
                    }
                });
                match r {
                    Val::B(b) => Val::B(self.subst(st, b)),
                    v => v,
                }
            }
            Op::Alloca(sz, n) => {
                let n = self.bv(st, n);
                let n = self.conc(st, n)?;
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new((n as u64 * sz) as usize, 0x5A)));
                b64(addr(STACK_TAG, id))
            }
            Op::Load(p) => {
                let p = self.bv(st, p);
                self.load(st, p, &inst.ty)?
            }
            Op::Store(v, p, t) => {
                let p = self.bv(st, p);
                let p = self.conc(st, p)? as u64;
                let v = self.val(st, v);
                self.store(st, p, &v, t)?;
                return Ok(None);
            }
            Op::Gep { base, off, idx } => {
                let mut a = self.bv(st, base);
                if *off != 0 {
                    a = self.a.bin(BinOp::Add, a, Bv::C(*off as u64 as u128, 64));
                }
                for (i, s) in idx {
                    let i = self.bv(st, i);
                    let i = if i.w() < 64 { self.a.sext(i, 64) } else if i.w() > 64 { self.a.ext(i, 0, 64) } else { i };
                    let t = self.a.bin(BinOp::Mul, i, Bv::C(*s as u64 as u128, 64));
                    a = self.a.bin(BinOp::Add, a, t);
                }
                Val::B(self.subst(st, a))
            }
            Op::Select(c, x, y) => {
                let mut c = self.val(st, c);
                if let Val::B(Bv::E(i, _)) = c {
                    if let Some(b) = self.decide(st, i) {
                        c = Val::B(Bv::bool(b));
                    }
                }
                let (x, y) = (self.val(st, x), self.val(st, y));
                match c {
                    Val::B(Bv::C(v, _)) => {
                        if v != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::B(c) => match (x, y) {
                        (Val::B(x), Val::B(y)) if !matches!(inst.ty, Ty::Ptr) => Val::B(self.a.ite(c, x, y)),
                        (Val::B(x), Val::B(y)) if x == y => Val::B(x),
                        _ => {
                            self.conc(st, c)?;
                            unreachable!()
                        }
                    },
                    Val::A(cs) => match (x, y) {
                        (Val::A(x), Val::A(y)) => {
                            let mut o = Vec::new();
                            for i in 0..cs.len() {
                                if let (Val::B(c), Val::B(p), Val::B(q)) = (&cs[i], &x[i], &y[i]) {
                                    o.push(Val::B(self.a.ite(*c, *p, *q)));
                                }
                            }
                            Val::A(Rc::new(o))
                        }
                        _ => panic!("vector select"),
                    },
                }
            }
            Op::Freeze(x) => self.val(st, x),
            Op::ExtractValue(x, ix) => {
                let mut v = self.val(st, x);
                for &i in ix {
                    v = match v {
                        Val::A(a) => a[i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                v
            }
            Op::InsertValue(x, e, ix) => {
                fn ins(v: Val, e: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return e;
                    }
                    match v {
                        Val::A(mut a) => {
                            let r = Rc::make_mut(&mut a);
                            r[ix[0] as usize] = ins(r[ix[0] as usize].clone(), e, &ix[1..]);
                            Val::A(a)
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = self.val(st, x);
                let e = self.val(st, e);
                ins(v, e, ix)
            }
            Op::ExtractElement(x, i) => {
                let v = self.val(st, x);
                let i = self.bv(st, i);
                let i = self.conc(st, i)? as usize;
                match v {
                    Val::A(a) => a[i].clone(),
                    _ => panic!("extractelement"),
                }
            }
            Op::InsertElement(x, e, i) => {
                let v = self.val(st, x);
                let e = self.val(st, e);
                let i = self.bv(st, i);
                let i = self.conc(st, i)? as usize;
                match v {
                    Val::A(mut a) => {
                        Rc::make_mut(&mut a)[i] = e;
                        Val::A(a)
                    }
                    _ => panic!("insertelement"),
                }
            }
            Op::Shuffle(x, y, mask) => {
                let (x, y) = (self.val(st, x), self.val(st, y));
                match (x, y) {
                    (Val::A(x), Val::A(y)) => {
                        let n = x.len() as i32;
                        let o = mask
                            .iter()
                            .map(|&i| {
                                if i < 0 {
                                    x[0].clone()
                                } else if i < n {
                                    x[i as usize].clone()
                                } else {
                                    y[(i - n) as usize].clone()
                                }
                            })
                            .collect();
                        Val::A(Rc::new(o))
                    }
                    _ => panic!("shuffle"),
                }
            }
            Op::CmpXchg(p, c, n) => {
                let p = self.bv(st, p);
                let p = self.conc(st, p)? as u64;
                let (c, n) = (self.bv(st, c), self.bv(st, n));
                let w = c.w();
                let sz = (w as usize + 7) / 8;
                let old = self.read(st, p, sz, w)?;
                let eq = self.a.cmp(CmpOp::Eq, old, c);
                let r = self.conc(st, eq)?;
                if r != 0 {
                    self.write(st, p, n, sz)?;
                }
                Val::A(Rc::new(vec![Val::B(old), Val::B(Bv::bool(r != 0))]))
            }
            Op::Rmw(op, p, v) => {
                let p = self.bv(st, p);
                let p = self.conc(st, p)? as u64;
                let v = self.bv(st, v);
                let w = v.w();
                let sz = (w as usize + 7) / 8;
                let old = self.read(st, p, sz, w)?;
                let new = match op {
                    0 => v,
                    1 => self.a.bin(BinOp::Add, old, v),
                    2 => self.a.bin(BinOp::Sub, old, v),
                    3 => self.a.bin(BinOp::And, old, v),
                    5 => self.a.bin(BinOp::Or, old, v),
                    6 => self.a.bin(BinOp::Xor, old, v),
                    _ => return Err(Need::End(End::Incomplete("atomicrmw".into()))),
                };
                self.write(st, p, new, sz)?;
                Val::B(old)
            }
            _ => unreachable!(),
        }))
    }

    fn flatten(&mut self, v: &Val, t: &Ty) -> Bv {
        match (v, t) {
            (Val::B(b), _) => *b,
            (Val::A(a), Ty::Vec(_, e)) => {
                let mut r: Option<Bv> = None;
                for x in a.iter() {
                    let b = self.flatten(x, e);
                    r = Some(match r {
                        None => b,
                        Some(l) => self.a.concat(b, l),
                    });
                }
                r.unwrap()
            }
            _ => panic!("flatten"),
        }
    }

    fn bitcast(&mut self, v: Val, from: &Ty, to: &Ty) -> Val {
        match (from, to) {
            (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                let b = self.flatten(&v, from);
                match to {
                    Ty::Vec(n, e) => {
                        let w = e.bits();
                        Val::A(Rc::new((0..*n).map(|i| Val::B(self.a.ext(b, i * w, w))).collect()))
                    }
                    _ => Val::B(b),
                }
            }
            _ => v,
        }
    }

    fn str_at(&mut self, st: &State, p: u64, n: usize) -> R<String> {
        let b = self.get_bytes(st, p, n)?;
        let v: Vec<u8> = b.iter().map(|b| b.c().unwrap_or(b'?' as u128) as u8).collect();
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    fn call(&mut self, st: &mut State, inst: &Inst, callee: &Callee, args: &[Opd], noreturn: bool) -> R<()> {
        let m = self.m;
        let fid = match callee {
            Callee::Func(f) => *f,
            Callee::Indirect(o) => {
                let p = self.bv(st, o);
                let p = self.conc(st, p)? as u64;
                if p >> 60 != FUNC_TAG {
                    return self.violation("memory", format!("call of invalid address {:#x}", p));
                }
                ((p >> 32) & 0xfff_ffff) as u32
            }
        };
        let f = &m.funcs[fid as usize];
        if f.intr != Intr::NotIntr {
            let v = self.intrinsic(st, inst, f, args)?;
            self.return_value(st, v);
            return Ok(());
        }
        if f.noreturn || noreturn {
            return self.violation("panic", format!("call to {}", f.name));
        }
        if f.decl {
            let v = self.external(st, f, args)?;
            self.return_value(st, v);
            return Ok(());
        }
        if st.frames.len() > 4000 {
            return self.violation("stack", "call depth above 4000".into());
        }
        let a = args.iter().map(|o| self.val(st, o)).collect();
        self.st.funcs.insert(fid);
        self.push_frame(st, fid, a);
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, inst: &Inst, f: &Func, args: &[Opd]) -> R<Option<Val>> {
        use Intr::*;
        let v1 = |s: &mut Self, g: &mut dyn FnMut(&mut Arena, Bv) -> Bv| {
            let x = s.val(st, &args[0]);
            s.lift1(x, g)
        };
        let v2 = |s: &mut Self, g: &mut dyn FnMut(&mut Arena, Bv, Bv) -> Bv| {
            let x = s.val(st, &args[0]);
            let y = s.val(st, &args[1]);
            s.lift2(x, y, g)
        };
        Ok(Some(match f.intr {
            Nop => {
                if inst.dst != u32::MAX {
                    return Ok(Some(self.zero(&inst.ty)));
                }
                return Ok(None);
            }
            Memcpy | Memmove => {
                let n = self.bv(st, &args[2]);
                let n = self.conc(st, n)? as u64 as usize;
                let d = self.bv(st, &args[0]);
                let d = self.conc(st, d)? as u64;
                let s = self.bv(st, &args[1]);
                let s = self.conc(st, s)? as u64;
                self.copy(st, d, s, n)?;
                return Ok(None);
            }
            Memset => {
                let n = self.bv(st, &args[2]);
                let n = self.conc(st, n)? as u64 as usize;
                let d = self.bv(st, &args[0]);
                let d = self.conc(st, d)? as u64;
                let b = self.bv(st, &args[1]);
                for i in 0..n as u64 {
                    self.write(st, d + i, b, 1)?;
                }
                return Ok(None);
            }
            Umax => v2(self, &mut |a, x, y| {
                let c = a.cmp(CmpOp::Ult, x, y);
                a.ite(c, y, x)
            }),
            Umin => v2(self, &mut |a, x, y| {
                let c = a.cmp(CmpOp::Ult, x, y);
                a.ite(c, x, y)
            }),
            Smax => v2(self, &mut |a, x, y| {
                let c = a.cmp(CmpOp::Slt, x, y);
                a.ite(c, y, x)
            }),
            Smin => v2(self, &mut |a, x, y| {
                let c = a.cmp(CmpOp::Slt, x, y);
                a.ite(c, x, y)
            }),
            Abs => v1(self, &mut |a, x| {
                let w = x.w();
                let n = a.bin(BinOp::Sub, Bv::C(0, w), x);
                let c = a.cmp(CmpOp::Slt, x, Bv::C(0, w));
                a.ite(c, n, x)
            }),
            UaddSat => v2(self, &mut |a, x, y| {
                let w = x.w();
                let s = a.bin(BinOp::Add, x, y);
                let c = a.cmp(CmpOp::Ult, s, x);
                a.ite(c, Bv::C(mask(w), w), s)
            }),
            UsubSat => v2(self, &mut |a, x, y| {
                let w = x.w();
                let s = a.bin(BinOp::Sub, x, y);
                let c = a.cmp(CmpOp::Ult, x, y);
                a.ite(c, Bv::C(0, w), s)
            }),
            SaddSat | SsubSat => {
                let op = if f.intr == SaddSat { BinOp::Add } else { BinOp::Sub };
                v2(self, &mut |a, x, y| {
                    let w = x.w();
                    let x1 = a.sext(x, w + 1);
                    let y1 = a.sext(y, w + 1);
                    let r = a.bin(op, x1, y1);
                    let max = Bv::C(mask(w - 1), w + 1);
                    let min = Bv::C(mask(w + 1) ^ mask(w - 1), w + 1);
                    let c = a.cmp(CmpOp::Slt, max, r);
                    let r = a.ite(c, max, r);
                    let c = a.cmp(CmpOp::Slt, r, min);
                    let r = a.ite(c, min, r);
                    a.ext(r, 0, w)
                })
            }
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                let x = self.bv(st, &args[0]);
                let y = self.bv(st, &args[1]);
                let w = x.w();
                let a = &mut self.a;
                let (r, o) = match f.intr {
                    UaddO => {
                        let r = a.bin(BinOp::Add, x, y);
                        let (_, xh) = a.bounds_of(x);
                        let (_, yh) = a.bounds_of(y);
                        if xh + yh <= mask(w) && w < 128 {
                            (r, Bv::bool(false))
                        } else {
                            (r, a.cmp(CmpOp::Ult, r, x))
                        }
                    }
                    UsubO => (a.bin(BinOp::Sub, x, y), a.cmp(CmpOp::Ult, x, y)),
                    UmulO => {
                        let (_, xh) = a.bounds_of(x);
                        let (_, yh) = a.bounds_of(y);
                        let r = a.bin(BinOp::Mul, x, y);
                        if w <= 64 && xh * yh <= mask(w) {
                            (r, Bv::bool(false))
                        } else {
                            let (x2, y2) = (a.zext(x, 2 * w), a.zext(y, 2 * w));
                            let p = a.bin(BinOp::Mul, x2, y2);
                            let h = a.ext(p, w, w);
                            let z = a.cmp(CmpOp::Eq, h, Bv::C(0, w));
                            (r, a.not(z))
                        }
                    }
                    _ => {
                        let op = match f.intr {
                            SaddO => BinOp::Add,
                            SsubO => BinOp::Sub,
                            _ => BinOp::Mul,
                        };
                        let ew = if op == BinOp::Mul { 2 * w } else { w + 1 };
                        let (x2, y2) = (a.sext(x, ew), a.sext(y, ew));
                        let p = a.bin(op, x2, y2);
                        let r = a.ext(p, 0, w);
                        let back = a.sext(r, ew);
                        let z = a.cmp(CmpOp::Eq, back, p);
                        (r, a.not(z))
                    }
                };
                let o = self.subst(st, o);
                Val::A(Rc::new(vec![Val::B(r), Val::B(o)]))
            }
            Fshl | Fshr => {
                let x = self.bv(st, &args[0]);
                let y = self.bv(st, &args[1]);
                let s = self.bv(st, &args[2]);
                let w = x.w();
                let a = &mut self.a;
                let m = Bv::C(w as u128, w);
                let s = a.bin(BinOp::URem, s, m);
                let c = a.concat(x, y);
                let s2 = a.zext(s, 2 * w);
                if f.intr == Fshl {
                    let r = a.bin(BinOp::Shl, c, s2);
                    Val::B(a.ext(r, w, w))
                } else {
                    let r = a.bin(BinOp::LShr, c, s2);
                    Val::B(a.ext(r, 0, w))
                }
            }
            Ctlz | Cttz => {
                let x = self.bv(st, &args[0]);
                let w = x.w();
                let lead = f.intr == Ctlz;
                let a = &mut self.a;
                let mut r = Bv::C(w as u128, w);
                for i in 0..w {
                    let bit = if lead { i } else { w - 1 - i };
                    let b = a.ext(x, bit, 1);
                    let n = if lead { w - 1 - bit } else { bit };
                    r = a.ite(b, Bv::C(n as u128, w), r);
                }
                Val::B(r)
            }
            Ctpop => {
                let x = self.bv(st, &args[0]);
                let w = x.w();
                let a = &mut self.a;
                let mut r = Bv::C(0, w);
                for i in 0..w {
                    let b = a.ext(x, i, 1);
                    let b = a.zext(b, w);
                    r = a.bin(BinOp::Add, r, b);
                }
                Val::B(r)
            }
            Bswap | Bitreverse => {
                let x = self.bv(st, &args[0]);
                let w = x.w();
                let k = if f.intr == Bswap { 8 } else { 1 };
                let a = &mut self.a;
                let mut r: Option<Bv> = None;
                for i in 0..w / k {
                    let p = a.ext(x, i * k, k);
                    r = Some(match r {
                        None => p,
                        Some(h) => a.concat(h, p),
                    });
                }
                Val::B(r.unwrap())
            }
            Ucmp | Scmp => {
                let x = self.bv(st, &args[0]);
                let y = self.bv(st, &args[1]);
                let w = inst.ty.bits();
                let op = if f.intr == Ucmp { CmpOp::Ult } else { CmpOp::Slt };
                let a = &mut self.a;
                let lt = a.cmp(op, x, y);
                let gt = a.cmp(op, y, x);
                let r = a.ite(gt, Bv::C(1, w), Bv::C(0, w));
                Val::B(a.ite(lt, Bv::C(mask(w), w), r))
            }
            FptosiSat => {
                let w = inst.ty.bits();
                v1(self, &mut |a, x| a.fp(FpOp::ToSSat, x, x, w))
            }
            FptouiSat => {
                let w = inst.ty.bits();
                v1(self, &mut |a, x| a.fp(FpOp::ToUSat, x, x, w))
            }
            Round | RoundEven | Floor | Ceil | Trunc => {
                let op = match f.intr {
                    Round => FpOp::RoundAway,
                    RoundEven => FpOp::RoundEven,
                    Floor => FpOp::Floor,
                    Ceil => FpOp::Ceil,
                    _ => FpOp::RoundZero,
                };
                v1(self, &mut |a, x| a.fp(op, x, x, x.w()))
            }
            Fabs => v1(self, &mut |a, x| {
                let w = x.w();
                a.bin(BinOp::And, x, Bv::C(mask(w - 1), w))
            }),
            Copysign => v2(self, &mut |a, x, y| {
                let w = x.w();
                let m = a.ext(x, 0, w - 1);
                let s = a.ext(y, w - 1, 1);
                a.concat(s, m)
            }),
            Assume => return Ok(None),
            IsConstant => Val::B(Bv::bool(false)),
            Expect => self.val(st, &args[0]),
            LoadRelative => {
                let p = self.bv(st, &args[0]);
                let o = self.bv(st, &args[1]);
                let o = if o.w() < 64 { self.a.sext(o, 64) } else { o };
                let q = self.a.bin(BinOp::Add, p, o);
                let v = self.load(st, q, &Ty::Int(32))?;
                let v = match v {
                    Val::B(b) => self.a.sext(b, 64),
                    _ => unreachable!(),
                };
                Val::B(self.a.bin(BinOp::Add, p, v))
            }
            ThreadlocalAddress => self.val(st, &args[0]),
            Trap => return self.violation("panic", "trap".into()),
            VecReduceOr | VecReduceAnd | VecReduceAdd => {
                let op = match f.intr {
                    VecReduceOr => BinOp::Or,
                    VecReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                match self.val(st, &args[0]) {
                    Val::A(v) => {
                        let mut r: Option<Bv> = None;
                        for x in v.iter() {
                            if let Val::B(b) = x {
                                r = Some(match r {
                                    None => *b,
                                    Some(p) => self.a.bin(op, p, *b),
                                });
                            }
                        }
                        Val::B(r.unwrap())
                    }
                    _ => panic!("reduce"),
                }
            }
            Unknown | NotIntr => return Err(Need::End(End::Incomplete(format!("unsupported intrinsic {}", f.name)))),
        }))
    }

    fn external(&mut self, st: &mut State, f: &Func, args: &[Opd]) -> R<Option<Val>> {
        macro_rules! cv {
            ($i:expr) => {{
                let v = self.bv(st, &args[$i]);
                self.conc(st, v)?
            }};
        }
        match f.name.as_str() {
            "malloc" => {
                let n = self.size(st, args, 0)?;
                Ok(Some(b64(self.alloc(st, n, false))))
            }
            "calloc" => {
                let n = self.size(st, args, 0)? * self.size(st, args, 1)?;
                Ok(Some(b64(self.alloc(st, n, true))))
            }
            "aligned_alloc" => {
                let n = self.size(st, args, 1)?;
                Ok(Some(b64(self.alloc(st, n, false))))
            }
            "posix_memalign" => {
                let p = cv!(0) as u64;
                let n = self.size(st, args, 2)?;
                let r = self.alloc(st, n, false);
                self.write(st, p, Bv::C(r as u128, 64), 8)?;
                Ok(Some(Val::B(Bv::C(if r == 0 { 12 } else { 0 }, 32))))
            }
            "realloc" => {
                let p = cv!(0) as u64;
                let n = self.size(st, args, 1)?;
                let r = self.alloc(st, n, false);
                if r != 0 && p != 0 {
                    let old = match self.obj(st, p) {
                        Some(o) => o.bytes.len(),
                        None => return self.violation("memory", "realloc of invalid pointer".into()),
                    };
                    self.copy(st, r, p, old.min(n as usize))?;
                    self.free(st, p)?;
                }
                Ok(Some(b64(r)))
            }
            "free" => {
                let p = cv!(0) as u64;
                self.free(st, p)?;
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (cv!(0) as u64, cv!(1) as u64, cv!(2) as usize);
                self.copy(st, d, s, n)?;
                Ok(Some(b64(d)))
            }
            "bcmp" | "memcmp" => {
                let n = cv!(2) as usize;
                let (p, q) = (cv!(0) as u64, cv!(1) as u64);
                let x = self.get_bytes(st, p, n)?;
                let y = self.get_bytes(st, q, n)?;
                let mut r = Bv::C(0, 32);
                for (x, y) in x.into_iter().zip(y).rev() {
                    let (x, y) = (self.subst(st, x), self.subst(st, y));
                    let e = self.a.cmp(CmpOp::Eq, x, y);
                    let d = if f.name == "bcmp" {
                        Bv::C(1, 32)
                    } else {
                        let (x, y) = (self.a.zext(x, 32), self.a.zext(y, 32));
                        self.a.bin(BinOp::Sub, x, y)
                    };
                    r = self.a.ite(e, r, d);
                }
                Ok(Some(Val::B(r)))
            }
            "strlen" => {
                let p = cv!(0) as u64;
                let mut n = 0;
                loop {
                    let b = self.get_bytes(st, p + n, 1)?[0];
                    if self.conc(st, b)? == 0 {
                        return Ok(Some(b64(n)));
                    }
                    n += 1;
                }
            }
            "sym_bytes" => {
                let (p, n, np, nn) = (cv!(0) as u64, cv!(1) as usize, cv!(2) as u64, cv!(3) as usize);
                let name = self.str_at(st, np, nn)?;
                let k = st.inputs.iter().filter(|(x, _)| *x == name || x.starts_with(&format!("{}#", name))).count();
                let name = if k == 0 { name } else { format!("{}#{}", name, k) };
                if let Some(r) = &self.replay {
                    let data = r.iter().find(|(x, _)| *x == name).map(|(_, d)| d.clone()).unwrap_or_default();
                    for i in 0..n {
                        let b = data.get(i).copied().unwrap_or(0);
                        self.write(st, p + i as u64, Bv::C(b as u128, 8), 1)?;
                    }
                    return Ok(None);
                }
                let mut vars = Vec::new();
                for i in 0..n {
                    let v = self.a.var(&format!("{}[{}]", name, i));
                    let id = self.a.id(v);
                    if let Node::Var(x) = self.a.nodes[id as usize].node {
                        vars.push(x);
                        if st.model.len() <= x as usize {
                            st.model.resize(x as usize + 1, 0);
                        }
                    }
                    self.write(st, p + i as u64, v, 1)?;
                }
                st.inputs.push((name, vars));
                Ok(None)
            }
            "sym_assume" => {
                let c = self.bv(st, &args[0]);
                let c = self.truth(c);
                match self.subst(st, c) {
                    Bv::C(0, _) => Err(Need::End(End::Assumed)),
                    Bv::C(..) => Ok(None),
                    Bv::E(id, _) => {
                        if self.eval(st, c) == 0 {
                            match self.check(st, &[id]) {
                                Answer::Unsat => return Err(Need::End(End::Assumed)),
                                Answer::Unknown => return Err(Need::End(End::Incomplete("solver gave up on an assumption".into()))),
                                Answer::Sat(m) => self.apply_model(st, &m),
                            }
                        }
                        self.constrain(st, c);
                        Ok(None)
                    }
                }
            }
            "sym_assert" => {
                let c = self.bv(st, &args[0]);
                let c = self.truth(c);
                let (p, n) = (cv!(1) as u64, cv!(2) as usize);
                let msg = self.str_at(st, p, n)?;
                match self.subst(st, c) {
                    Bv::C(1, _) => {
                        self.st.asserts.entry(msg).or_insert((0, 0)).1 += 1;
                        Ok(None)
                    }
                    Bv::C(..) => self.violation("assert", msg),
                    c => {
                        let nc = self.a.not(c);
                        let nid = self.a.id(nc);
                        if self.eval(st, nc) != 0 {
                            self.report(st, "assert", &msg);
                        } else {
                            match self.check(st, &[nid]) {
                                Answer::Unsat => {
                                    self.st.asserts.entry(msg).or_insert((0, 0)).0 += 1;
                                    if self.s.dump.len() < self.s.dump_max && self.rand() % 4 == 0 {
                                        let q = self.slice(st, &[nid]);
                                        if let Some(t) = self.s.smtlib(&mut self.a, &q) {
                                            self.s.dump.push(t);
                                        }
                                    }
                                    self.constrain(st, c);
                                    return Ok(None);
                                }
                                Answer::Unknown => return Err(Need::End(End::Incomplete(format!("solver gave up on assertion: {}", msg)))),
                                Answer::Sat(m) => {
                                    let mut bad = st.clone();
                                    self.apply_model(&mut bad, &m);
                                    self.report(&bad, "assert", &msg);
                                    return Err(Need::End(End::Done));
                                }
                            }
                        }
                        Err(Need::End(End::Done))
                    }
                }
            }
            "sym_cover" => {
                let (p, n) = (cv!(0) as u64, cv!(1) as usize);
                let msg = self.str_at(st, p, n)?;
                if !st.covers.contains(&msg) {
                    st.covers.push(msg);
                }
                Ok(None)
            }
            "sym_concretize" => {
                let v = cv!(0);
                Ok(Some(b64(v as u64)))
            }
            "sym_observe" => {
                let (p, n) = (cv!(0) as u64, cv!(1) as usize);
                let b = self.get_bytes(st, p, n)?;
                st.obs.push(b);
                Ok(None)
            }
            "sym_param" => {
                let k = cv!(0) as u64;
                Ok(Some(b64(self.params.get(&k).copied().unwrap_or(0))))
            }
            n => Err(Need::End(End::Incomplete(format!("external function {}", n)))),
        }
    }

    fn truth(&mut self, c: Bv) -> Bv {
        if c.w() == 1 {
            return c;
        }
        let w = c.w();
        let z = self.a.cmp(CmpOp::Eq, c, Bv::C(0, w));
        self.a.not(z)
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if p >> 60 != HEAP_TAG || self.offset(p) != 0 || self.obj(st, p).is_none() {
            return self.violation("memory", format!("free of invalid pointer {:#x}", p));
        }
        let id = (p >> 32) as usize & 0xfff_ffff;
        st.heap[id] = None;
        Ok(())
    }
}

/// A sum of expressions (as unsigned integers) and a constant.
#[derive(Clone, Default)]
struct Lin {
    t: Vec<(Id, i128)>,
    c: i128,
}

impl Lin {
    fn constant(&mut self, k: i128, v: i128) -> bool {
        if v.unsigned_abs() > 1 << 64 {
            return false;
        }
        self.c += k * v;
        true
    }
    fn atom(&mut self, i: Id, k: i128, w: u32) -> bool {
        if w > 64 || k.unsigned_abs() > 1 << 40 {
            return false;
        }
        match self.t.iter().position(|x| x.0 == i) {
            Some(p) => {
                self.t[p].1 += k;
                if self.t[p].1 == 0 {
                    self.t.swap_remove(p);
                }
            }
            None => self.t.push((i, k)),
        }
        true
    }
    fn add(&mut self, o: &Lin, k: i128) -> bool {
        if k.unsigned_abs() > 1 << 32 || o.c.unsigned_abs() > 1 << 90 || self.c.unsigned_abs() > 1 << 110 {
            return false;
        }
        for &(i, m) in &o.t {
            if m.unsigned_abs() > 1 << 32 || !self.atom(i, k * m, 64) {
                return false;
            }
        }
        self.c += k * o.c;
        true
    }
}

/// The value of the bits read as a signed number of width w.
fn signed(v: u128, w: u32) -> Option<i128> {
    Some(if w >= 128 {
        v as i128
    } else if w > 8 && v >> (w - 1) == 1 {
        v as i128 - (1i128 << w)
    } else if w < 127 {
        v as i128
    } else {
        return None;
    })
}
