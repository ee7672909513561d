//! Small interpreters of Lua 5.0 and 5.1 bytecode, written from lvm.c. Values
//! are terms; what a program does to data is not computed but named: the same
//! operation on the same terms gives the same term, and every outcome of a
//! comparison is an arbitrary bit, the same one for the same comparison. What
//! both versions perform (calls, global accesses, returns) is recorded with
//! the contents of the registers.
use crate::chunk::*;
use crate::common::*;
use crate::sym;

pub type Term = u32;
pub const DEAD: Term = 0;
pub const NREG: usize = 160;

// Kinds of terms.
const T_DEAD: u32 = 0;
const T_CONST: u32 = 1; // content
const T_INIT: u32 = 2; // register at the start
const T_EVENT: u32 = 3; // event, number of the result
const T_ARITH: u32 = 4; // opcode, x, y
const T_TABLE: u32 = 5; // number of the table
const T_GLOBAL: u32 = 6; // global function that is not changed
const T_TYPE: u32 = 7; // name of the type of a term
const T_CONS: u32 = 8; // list
const T_BOOL: u32 = 9;
const T_VARARG: u32 = 10;
const T_UNSET: u32 = 12; // made-up global that was never written

/// What both runs share: terms and the outcomes of decisions.
pub struct World {
    terms: Vec<[u32; 4]>,
    slots: Vec<u32>,
    strs: Vec<K>,
    dec: Vec<([u32; 3], bool)>,
    pub max_dec: usize,
    /// Number of results of an open call, by event.
    opens: Vec<(u32, u64)>,
    pub max_open: u64,
    pub nvarargs: u64,
    /// Names the converted program may use for itself.
    user: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum End {
    Return,
    /// No more decisions are explored.
    Cut,
    Steps,
    Bad,
}

#[derive(Clone)]
pub struct Event {
    pub kind: u32,
    pub args: [u32; 4],
    pub line: u64,
    pub pc: usize,
    pub regs: [Term; NREG],
}

pub struct Vm<'a> {
    pub f: &'a Fun,
    v50: bool,
    l: Lay,
    fpf: u64,
    pub regs: [Term; NREG],
    top: usize,
    env: Vec<(u32, Term)>,
    pub tables: Vec<Vec<(u64, Term)>>,
    pub events: Vec<Event>,
    pub steps: u64,
    pub max_reg: usize,
    pub max_table: u64,
}

impl World {
    pub fn new(max_dec: usize) -> World {
        World { terms: vec![[T_DEAD, 0, 0, 0]], slots: Vec::new(), strs: Vec::new(), dec: Vec::new(), max_dec, opens: Vec::new(), max_open: 3, nvarargs: 0, user: Vec::new() }
    }
    #[cfg(feature = "native")]
    pub fn show(&self, t: Term) -> String {
        format!("{}{:?}", t, self.terms[t as usize])
    }
    fn term(&mut self, t: [u32; 4]) -> Term {
        if self.terms.len() * 2 >= self.slots.len() {
            let n = (self.slots.len() * 2).max(256);
            self.slots = vec![u32::MAX; n];
            for i in 0..self.terms.len() {
                let s = self.slot(self.terms[i]);
                self.slots[s] = i as u32;
            }
        }
        let s = self.slot(t);
        if self.slots[s] == u32::MAX {
            self.slots[s] = self.terms.len() as u32;
            self.terms.push(t);
        }
        self.slots[s]
    }
    /// Where a term is in the hash table, or would be.
    fn slot(&self, t: [u32; 4]) -> usize {
        let mut h = 0u32;
        for x in t {
            h = (h ^ x).wrapping_mul(0x9E37_79B1);
            h ^= h >> 15;
        }
        let mask = self.slots.len() - 1;
        let mut s = h as usize & mask;
        while self.slots[s] != u32::MAX && self.terms[self.slots[s] as usize] != t {
            s = (s + 1) & mask;
        }
        s
    }
    fn content(&mut self, k: &K) -> u32 {
        for (i, x) in self.strs.iter().enumerate() {
            if x == k {
                return i as u32;
            }
        }
        self.strs.push(k.clone());
        self.strs.len() as u32 - 1
    }
    fn konst(&mut self, k: &K) -> Term {
        let c = self.content(k);
        self.term([T_CONST, c, 0, 0])
    }
    fn is(&mut self, c: u32, s: &[u8]) -> bool {
        matches!(&self.strs[c as usize], K::Str(x) if x == s)
    }
    pub fn nil(&mut self) -> Term {
        self.konst(&K::Nil)
    }
    fn boolean(&mut self, b: bool) -> Term {
        self.term([T_BOOL, b as u32, 0, 0])
    }
    fn list(&mut self, v: &[Term]) -> Term {
        let mut t = self.term([T_CONS, 0, 0, 0]);
        for &x in v.iter().rev() {
            t = self.term([T_CONS, 1, x, t]);
        }
        t
    }
    /// The names of globals the program itself uses.
    pub fn names(&mut self, f: &Fun) {
        for k in &f.k {
            if let K::Str(s) = k {
                if s != b"type\0" && s != b"next\0" {
                    let c = self.content(k);
                    self.user.push(c);
                }
            }
        }
    }

    fn decide(&mut self, key: [u32; 3]) -> Option<bool> {
        for (k, v) in &self.dec {
            if *k == key {
                return Some(*v);
            }
        }
        if self.dec.len() >= self.max_dec {
            return None;
        }
        let b = sym::flag("decision");
        self.dec.push((key, b));
        Some(b)
    }
    fn is_nil(&mut self, t: Term) -> Option<bool> {
        let x = self.terms[t as usize];
        match x[0] {
            T_CONST => Some(self.strs[x[1] as usize] == K::Nil),
            T_BOOL | T_TABLE | T_GLOBAL | T_TYPE | T_ARITH => Some(false),
            T_UNSET => Some(true),
            _ => self.decide([1, t, 0]),
        }
    }
    fn is_table(&mut self, t: Term) -> Option<bool> {
        let x = self.terms[t as usize];
        match x[0] {
            T_TABLE => Some(true),
            T_CONST | T_BOOL | T_GLOBAL | T_TYPE | T_ARITH | T_UNSET => Some(false),
            _ => self.decide([2, t, 0]),
        }
    }
    fn truth(&mut self, t: Term) -> Option<bool> {
        let x = self.terms[t as usize];
        match x[0] {
            T_CONST => Some(!matches!(self.strs[x[1] as usize], K::Nil | K::Bool(0))),
            T_BOOL => Some(x[1] != 0),
            T_TABLE | T_GLOBAL | T_TYPE | T_ARITH => Some(true),
            T_UNSET => Some(false),
            _ => self.decide([3, t, 0]),
        }
    }
    fn equal(&mut self, a: Term, b: Term) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        let (x, y) = (self.terms[a as usize], self.terms[b as usize]);
        for (t, c, u) in [(x, y, b), (y, x, a)] {
            // nil
            if c[0] == T_CONST && self.strs[c[1] as usize] == K::Nil || c[0] == T_UNSET {
                let _ = u;
                let v = if c == y { a } else { b };
                return self.is_nil(v);
            }
            // type(x) == "table"
            if t[0] == T_TYPE && c[0] == T_CONST {
                return if self.is(c[1], b"table\0") { self.is_table(t[1]) } else { self.decide([4, t[1], c[1]]) };
            }
        }
        if x[0] == T_CONST && y[0] == T_CONST {
            // different contents
            return Some(false);
        }
        self.decide([5, a.min(b), a.max(b)])
    }
    fn less(&mut self, op: u32, a: Term, b: Term) -> Option<bool> {
        self.decide([op, a, b])
    }
}

impl<'a> Vm<'a> {
    pub fn new(w: &mut World, f: &'a Fun, v50: bool, l: Lay, fpf: u64, first: u64) -> Vm<'a> {
        let mut v = Vm {
            f,
            v50,
            l,
            fpf,
            regs: [DEAD; NREG],
            top: 0,
            env: Vec::new(),
            tables: Vec::new(),
            events: Vec::new(),
            steps: 0,
            max_reg: 0,
            max_table: 0,
        };
        for i in 0..first as usize {
            v.regs[i] = w.term([T_INIT, i as u32, 0, 0]);
        }
        if v50 && f.vararg != 0 {
            // the table of extra arguments (adjust_varargs of ldo.c)
            let mut t = Vec::new();
            for i in 0..w.nvarargs {
                t.push((i + 1, w.term([T_VARARG, i as u32, 0, 0])));
            }
            v.tables.push(t);
            v.regs[f.nparams as usize] = w.term([T_TABLE, 0, 0, 0]);
            for i in f.nparams as usize + 1..first as usize {
                v.regs[i] = DEAD;
            }
        }
        v
    }

    fn rk(&mut self, w: &mut World, x: u64) -> Option<Term> {
        let (k, i) = if self.v50 { (x >= 250, x.wrapping_sub(250)) } else { (x & (1 << (self.l.b.1 - 1)) != 0, x & mask(self.l.b.1 - 1)) };
        if k {
            self.k(w, i)
        } else {
            self.get(x)
        }
    }
    fn k(&mut self, w: &mut World, i: u64) -> Option<Term> {
        let k = self.f.k.get(i as usize)?;
        Some(w.konst(k))
    }
    fn name(&mut self, w: &mut World, i: u64) -> Option<u32> {
        match self.f.k.get(i as usize)? {
            k @ K::Str(_) => Some(w.content(k)),
            _ => None,
        }
    }
    fn touch(&mut self, i: u64) -> Option<usize> {
        if i >= NREG as u64 {
            return None;
        }
        let i = i as usize;
        self.max_reg = self.max_reg.max(i);
        Some(i)
    }
    fn get(&mut self, i: u64) -> Option<Term> {
        let i = self.touch(i)?;
        Some(self.regs[i])
    }
    fn set(&mut self, i: u64, t: Term) -> Option<()> {
        let i = self.touch(i)?;
        self.regs[i] = t;
        Some(())
    }
    fn event(&mut self, kind: u64, args: [u32; 4], pc: usize) -> u32 {
        let line = self.f.lines.get(pc).copied().unwrap_or(0);
        self.events.push(Event { kind: kind as u32, args, line, pc, regs: self.regs });
        self.events.len() as u32 - 1
    }

    /// Runs until the function returns, `max_events` happened or `limit` steps.
    pub fn run(&mut self, w: &mut World, limit: u64, max_events: usize) -> End {
        let mut pc = 0usize;
        while self.events.len() < max_events {
            if self.steps >= limit {
                return End::Steps;
            }
            self.steps += 1;
            match self.step(w, pc) {
                None => return End::Bad,
                Some(Ok(p)) => pc = p,
                Some(Err(e)) => return e,
            }
        }
        End::Cut
    }

    fn step(&mut self, w: &mut World, pc: usize) -> Option<Result<usize, End>> {
        let i = *self.f.code.get(pc)?;
        let l = self.l;
        let (o, a, b, c, bx, sbx) = (l.op(i), l.a(i), l.b(i), l.c(i), l.bx(i), l.sbx(i));
        let o = if self.v50 { number51(o)? } else { o };
        let mut next = pc + 1;
        let jump = |p: usize, d: i64| -> Option<usize> { usize::try_from(p as i64 + 1 + d).ok() };
        macro_rules! decide {
            ($e:expr) => {
                match $e {
                    Some(b) => b,
                    None => return Some(Err(End::Cut)),
                }
            };
        }
        match o {
            op::MOVE => {
                let t = self.get(b)?;
                self.set(a, t)?
            }
            op::LOADK => {
                let t = self.k(w, bx)?;
                self.set(a, t)?
            }
            op::LOADBOOL => {
                let t = w.boolean(b != 0);
                self.set(a, t)?;
                next += (c != 0) as usize;
            }
            op::LOADNIL => {
                let t = w.nil();
                for r in a..=b {
                    self.set(r, t)?;
                }
            }
            op::GETUPVAL => {
                let e = self.event(o, [b as u32, 0, 0, 0], pc);
                let t = w.term([T_EVENT, e, 0, 0]);
                self.set(a, t)?
            }
            op::SETUPVAL => {
                let t = self.get(a)?;
                self.event(o, [b as u32, t, 0, 0], pc);
            }
            op::GETGLOBAL => {
                let n = self.name(w, bx)?;
                let made_up = !self.v50 && !w.user.contains(&n);
                let t = if w.is(n, b"type\0") || w.is(n, b"next\0") {
                    w.term([T_GLOBAL, n, 0, 0])
                } else if made_up {
                    match self.env.iter().find(|x| x.0 == n) {
                        Some(x) => x.1,
                        None => w.term([T_UNSET, n, 0, 0]),
                    }
                } else {
                    let e = self.event(o, [n, 0, 0, 0], pc);
                    w.term([T_EVENT, e, 0, 0])
                };
                self.set(a, t)?
            }
            op::SETGLOBAL => {
                let n = self.name(w, bx)?;
                let t = self.get(a)?;
                if !self.v50 && !w.user.contains(&n) {
                    match self.env.iter_mut().find(|x| x.0 == n) {
                        Some(x) => x.1 = t,
                        None => self.env.push((n, t)),
                    }
                } else {
                    self.event(o, [n, t, 0, 0], pc);
                }
            }
            op::GETTABLE => {
                let (x, y) = (self.get(b)?, self.rk(w, c)?);
                let e = self.event(o, [x, y, 0, 0], pc);
                let t = w.term([T_EVENT, e, 0, 0]);
                self.set(a, t)?
            }
            op::SETTABLE => {
                let (t, x, y) = (self.get(a)?, self.rk(w, b)?, self.rk(w, c)?);
                self.event(o, [t, x, y, 0], pc);
            }
            op::NEWTABLE => {
                let t = w.term([T_TABLE, self.tables.len() as u32, 0, 0]);
                self.tables.push(Vec::new());
                self.set(a, t)?
            }
            op::SELF => {
                let (x, y) = (self.get(b)?, self.rk(w, c)?);
                self.set(a + 1, x)?;
                let e = self.event(o, [x, y, 0, 0], pc);
                let t = w.term([T_EVENT, e, 0, 0]);
                self.set(a, t)?
            }
            op::ADD..=op::POW => {
                let (x, y) = (self.rk(w, b)?, self.rk(w, c)?);
                self.event(o, [x, y, 0, 0], pc);
                let t = w.term([T_ARITH, o as u32, x, y]);
                self.set(a, t)?
            }
            op::UNM | op::LEN => {
                let x = self.get(b)?;
                self.event(o, [x, 0, 0, 0], pc);
                let t = w.term([T_ARITH, o as u32, x, 0]);
                self.set(a, t)?
            }
            op::NOT => {
                let x = self.get(b)?;
                let v = decide!(w.truth(x));
                let t = w.boolean(!v);
                self.set(a, t)?
            }
            op::CONCAT => {
                let mut v = Vec::new();
                for r in b..=c {
                    v.push(self.get(r)?);
                }
                let x = w.list(&v);
                self.event(o, [x, 0, 0, 0], pc);
                let t = w.term([T_ARITH, o as u32, x, 0]);
                self.set(a, t)?
            }
            op::JMP => next = jump(pc, sbx)?,
            op::EQ | op::LT | op::LE => {
                let (x, y) = (self.rk(w, b)?, self.rk(w, c)?);
                if o != op::EQ {
                    self.event(o, [x, y, 0, 0], pc);
                }
                let v = decide!(if o == op::EQ { w.equal(x, y) } else { w.less(o as u32, x, y) });
                next += (v != (a != 0)) as usize;
            }
            op::TEST | op::TESTSET => {
                let x = self.get(if o == op::TEST { a } else { b })?;
                let v = decide!(w.truth(x));
                if v == (c != 0) {
                    if o == op::TESTSET {
                        self.set(a, x)?;
                    }
                } else {
                    next += 1;
                }
            }
            op::CALL | op::TAILCALL => {
                let f = self.get(a)?;
                let n = if b == 0 { (self.top as u64).checked_sub(a + 1)? } else { b - 1 };
                let m = self.max_reg;
                let mut v = Vec::new();
                for r in 0..n {
                    v.push(self.get(a + 1 + r)?);
                }
                if b == 0 {
                    self.max_reg = m;
                }
                if o == op::TAILCALL {
                    let x = w.list(&v);
                    self.event(o, [f, x, 0, 0], pc);
                    return Some(Err(End::Return));
                }
                self.call(w, pc, f, &v, a, c)?;
            }
            op::RETURN => {
                let n = if b == 0 { (self.top as u64).checked_sub(a)? } else { b - 1 };
                let m = self.max_reg;
                let mut v = Vec::new();
                for r in 0..n {
                    v.push(self.get(a + r)?);
                }
                if b == 0 {
                    self.max_reg = m;
                }
                let x = w.list(&v);
                self.event(o, [x, 0, 0, 0], pc);
                return Some(Err(End::Return));
            }
            op::FORPREP => {
                let (x, y) = (self.get(a)?, self.get(a + 2)?);
                self.event(op::SUB, [x, y, 0, 0], pc);
                let t = w.term([T_ARITH, op::SUB as u32, x, y]);
                self.set(a, t)?;
                next = jump(pc, sbx)?;
            }
            op::FORLOOP => {
                let (x, lim, st) = (self.get(a)?, self.get(a + 1)?, self.get(a + 2)?);
                let idx = w.term([T_ARITH, op::ADD as u32, x, st]);
                let ls = w.list(&[lim, st]);
                let go = decide!(w.less(o as u32, idx, ls));
                if go {
                    next = jump(pc, sbx)?;
                    self.set(a, idx)?;
                    if !self.v50 {
                        self.set(a + 3, idx)?;
                    }
                }
            }
            op::TFORLOOP if self.v50 => {
                let n = c + 1;
                let cb = a + n + 2;
                let v = [self.get(a + 1)?, self.get(a + 2)?];
                let f = self.get(a)?;
                for r in 0..3 {
                    let t = self.get(a + r)?;
                    self.set(cb + r, t)?;
                }
                self.call(w, pc, f, &v, cb, n + 1)?;
                for r in (0..n).rev() {
                    let t = self.get(cb + r)?;
                    self.set(a + 2 + r, t)?;
                }
                self.dead(cb);
                let x = self.get(a + 2)?;
                if decide!(w.is_nil(x)) {
                    next += 1;
                } else {
                    let j = *self.f.code.get(pc + 1)?;
                    next = jump(pc + 1, l.sbx(j))?;
                }
            }
            op::TFORLOOP => {
                let cb = a + 3;
                let v = [self.get(a + 1)?, self.get(a + 2)?];
                let f = self.get(a)?;
                for r in 0..3 {
                    let t = self.get(a + r)?;
                    self.set(cb + r, t)?;
                }
                self.call(w, pc, f, &v, cb, c + 1)?;
                let x = self.get(cb)?;
                if decide!(w.is_nil(x)) {
                    next += 1;
                } else {
                    self.set(a + 2, x)?;
                }
            }
            op::TFORPREP => {
                let x = self.get(a)?;
                self.touch(a + 2)?;
                if decide!(w.is_table(x)) {
                    self.set(a + 1, x)?;
                    let n = w.content(&K::Str(b"next\0".to_vec()));
                    let t = w.term([T_GLOBAL, n, 0, 0]);
                    self.set(a, t)?;
                }
                next = jump(pc, sbx)?;
            }
            op::SETLIST | op::SETLISTO => {
                let t = self.get(a)?;
                let (start, n) = if self.v50 {
                    let n = if o == op::SETLISTO { (self.top as u64).checked_sub(a + 1)? } else { bx % self.fpf + 1 };
                    (bx - bx % self.fpf, n)
                } else {
                    let n = if b == 0 { (self.top as u64).checked_sub(a + 1)? } else { b };
                    let page = if c == 0 {
                        next += 1;
                        *self.f.code.get(pc + 1)?
                    } else {
                        c
                    };
                    ((page - 1) * self.fpf, n)
                };
                let k = w.terms[t as usize];
                if k[0] != T_TABLE {
                    return None;
                }
                for r in 1..=n {
                    let x = self.regs.get((a + r) as usize).copied()?;
                    if r < b {
                        self.get(a + r)?;
                    }
                    let t = &mut self.tables[k[1] as usize];
                    match t.iter_mut().find(|y| y.0 == start + r) {
                        Some(y) => y.1 = x,
                        None => t.push((start + r, x)),
                    }
                    self.max_table = self.max_table.max(start + r);
                }
                self.dead(a + 1);
            }
            op::CLOSE => {
                self.event(o, [a as u32, 0, 0, 0], pc);
            }
            op::CLOSURE => {
                let p = self.f.p.get(bx as usize)?;
                let mut v = Vec::new();
                for n in 0..p.nups as usize {
                    let j = *self.f.code.get(pc + 1 + n)?;
                    let (jo, jb) = (l.op(j), l.b(j));
                    let t = match jo {
                        op::MOVE => self.touch(jb)? as u32,
                        op::GETUPVAL => jb as u32 | 1 << 16,
                        _ => return None,
                    };
                    v.push(t);
                }
                next += p.nups as usize;
                let x = w.list(&v);
                let e = self.event(o, [bx as u32, x, 0, 0], pc);
                let t = w.term([T_EVENT, e, 0, 0]);
                self.set(a, t)?
            }
            op::VARARG => {
                let n = if b == 0 { w.nvarargs } else { b - 1 };
                let m = self.max_reg;
                for r in 0..n {
                    let t = if r < w.nvarargs { w.term([T_VARARG, r as u32, 0, 0]) } else { w.nil() };
                    self.set(a + r, t)?;
                }
                // room for an unknown number of values is made when it is known
                if b == 0 {
                    self.max_reg = m;
                }
                if b == 0 {
                    self.top = (a + n) as usize;
                }
            }
            _ => return None,
        }
        Some(Ok(next))
    }

    fn dead(&mut self, from: u64) {
        for r in from as usize..NREG {
            self.regs[r] = DEAD;
        }
    }

    /// Calls `f`; the results go to `a` and above, `c` is as in CALL.
    fn call(&mut self, w: &mut World, pc: usize, f: Term, args: &[Term], a: u64, c: u64) -> Option<()> {
        let ft = w.terms[f as usize];
        if !self.v50 && ft[0] == T_GLOBAL && w.is(ft[1], b"type\0") {
            let t = w.term([T_TYPE, *args.first()?, 0, 0]);
            if c == 0 {
                return None;
            }
            self.set(a, t)?;
            for r in 1..c - 1 {
                let t = w.nil();
                self.set(a + r, t)?;
            }
            self.dead(a + c - 1);
            return Some(());
        }
        let x = w.list(args);
        // registers that hold the call itself are not compared
        let e = {
            let save = self.regs;
            for r in a as usize..NREG {
                self.regs[r] = DEAD;
            }
            let e = self.event(op::CALL, [f, x, c as u32, 0], pc);
            self.regs = save;
            e
        };
        let n = if c == 0 {
            let n = match w.opens.iter().find(|o| o.0 == e) {
                Some(o) => o.1,
                None => {
                    let n = sym::pick("results", w.max_open + 1);
                    w.opens.push((e, n));
                    n
                }
            };
            self.top = (a + n) as usize;
            n
        } else {
            c - 1
        };
        let m = self.max_reg;
        for r in 0..n {
            let t = w.term([T_EVENT, e, 1 + r as u32, 0]);
            self.set(a + r, t)?;
        }
        if c == 0 {
            self.max_reg = m;
        }
        // the callee used the stack above
        self.dead(a + n);
        Some(())
    }
}

/// Lua 5.0 opcodes by the 5.1 number of the same meaning; those without one
/// get numbers of their own.
pub fn number51(o: u64) -> Option<u64> {
    Some(match o {
        0..=15 => o,
        op50::POW => op::POW,
        op50::UNM => op::UNM,
        op50::NOT => op::NOT,
        op50::CONCAT => op::CONCAT,
        op50::JMP => op::JMP,
        op50::EQ => op::EQ,
        op50::LT => op::LT,
        op50::LE => op::LE,
        op50::TEST => op::TESTSET,
        op50::CALL => op::CALL,
        op50::TAILCALL => op::TAILCALL,
        op50::RETURN => op::RETURN,
        op50::FORLOOP => op::FORLOOP,
        op50::TFORLOOP => op::TFORLOOP,
        op50::TFORPREP => op::TFORPREP,
        op50::SETLIST => op::SETLIST,
        op50::SETLISTO => op::SETLISTO,
        op50::CLOSE => op::CLOSE,
        op50::CLOSURE => op::CLOSURE,
        _ => return None,
    })
}
