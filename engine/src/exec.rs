//! Symbolic interpreter for decoded LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub base: u32,
    pub pc: u32,
    pub sp: u64,
    pub call: &'static Call,
}

/// a byte string whose bytes may be symbolic
pub type SBytes = Vec<(u8, Id)>;

pub use crate::sys::{Child, Vfs};

#[derive(Clone)]
pub struct State {
    pub f: &'static Func,
    pub base: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub doms: Vec<Dom>,
    pub cons: Vec<Id>,
    pub consv: u128,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub steps: u64,
    pub forks: u32,
    pub notes: Vec<(char, SBytes)>,
    pub marks: Vec<u32>,
    pub hashes: Vec<(SBytes, V)>,
    pub vfs: Rc<Vfs>,
    pub child: Option<Rc<Child>>,
    pub errno: u64,
    pub asserts: u32,
    pub hashmode: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Pruned,
    Violation(String),
    Error(String),
    Exit(i32),
}

pub struct Stop(pub End);
pub type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub maxvars: u64,
    pub unexplored: u64,
    pub implied: u64,
    pub marks: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub viols: Vec<(String, Vec<u8>, String)>,
    pub violcount: BTreeMap<String, u64>,
    pub prof: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u8>, String, Vec<String>)>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_viol: usize,
    pub sample_every: u64,
    pub trace: bool,
    pub prof: bool,
    /// decide again with the solver what was decided without it
    pub check: bool,
    pub args: Vec<u64>,
}

pub struct Ctx {
    pub prog: Prog,
    pub ex: Exprs,
    pub sol: Solver,
    pub st: State,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub cfg: Cfg,
    pub fnused: HashSet<FnId>,
    pub kb: Vec<(u32, u128, u128)>,
    pub kbgen: u32,
    pub names: Vec<String>,
    pub nameidx: HashMap<String, u32>,
    pub argbuf: Vec<V>,
    pub tick: u64,
    pub poll: fn(&mut Ctx) -> bool, // returns false to stop everything
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

macro_rules! err {
    ($($t:tt)*) => { return Err(Stop(End::Error(format!($($t)*)))) };
}
pub(crate) use err;

impl Ctx {
    pub fn name_id(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.nameidx.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.nameidx.insert(s.to_string(), i);
        i
    }
    pub fn start(&mut self, entry: &str) {
        let id = self.prog.find_fn(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.prog.decode(id);
        self.fnused.insert(id);
        self.st = State {
            f,
            base: 0,
            pc: 0,
            regs: vec![V::default(); f.nregs as usize],
            frames: vec![],
            mem: Mem::new(),
            doms: vec![],
            cons: vec![],
            consv: 0,
            model: vec![],
            nvars: 0,
            steps: 0,
            forks: 0,
            notes: vec![],
            marks: vec![],
            hashes: vec![],
            vfs: Rc::new(Vfs::default()),
            child: None,
            errno: 0,
            asserts: 0,
            hashmode: 0,
        };
        for (i, (s, _)) in f.args.iter().enumerate() {
            self.st.regs[*s as usize] = V::c(self.cfg.args.get(i).copied().unwrap_or(0));
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    pub fn id(&mut self, v: V, w: u32) -> Id {
        if v.sym != 0 {
            debug_assert_eq!(self.ex.w(v.sym), w);
            v.sym
        } else {
            self.ex.konst(v.u(), w)
        }
    }
    /// constant-fold against the current domains
    #[inline]
    pub fn mk(&self, id: Id) -> V {
        if let Some(k) = self.ex.is_const(id) {
            return V::c128(k);
        }
        let n = &self.ex.nodes[id as usize];
        if n.op == Op::Map {
            let d = &self.st.doms[n.a as usize];
            let t = &self.ex.tabs[n.b as usize];
            let first = t.get(dom_first(d));
            for i in 0..4 {
                let mut b = d[i];
                while b != 0 {
                    let v = i * 64 + b.trailing_zeros() as usize;
                    b &= b - 1;
                    if t.get(v) != first {
                        return V { lo: 0, hi: 0, sym: id };
                    }
                }
            }
            return V::c(first);
        }
        V { lo: 0, hi: 0, sym: id }
    }
    #[inline]
    pub fn val(&self, o: Opd) -> V {
        if o >= 0 {
            self.st.regs[self.st.base as usize + o as usize]
        } else {
            self.st.f.consts[(!o) as usize]
        }
    }
    #[inline]
    pub fn valk(&self, o: Opd, k: u32) -> V {
        if o >= 0 {
            self.st.regs[self.st.base as usize + o as usize + k as usize]
        } else {
            self.st.f.consts[(!o) as usize + k as usize]
        }
    }
    #[inline]
    pub fn set(&mut self, d: u32, v: V) {
        let b = self.st.base as usize;
        self.st.regs[b + d as usize] = v;
    }

    // ------------------------------------------------------------ constraints
    pub fn new_var(&mut self) -> R<Id> {
        let v = self.st.nvars;
        if v >= 128 {
            err!("more than 128 symbolic bytes");
        }
        self.st.nvars += 1;
        self.st.doms.push(FULL);
        self.st.model.push(0);
        Ok(self.ex.var(v))
    }
    fn dom_truth(&self, id: Id, depth: u32) -> Option<bool> {
        let n = &self.ex.nodes[id as usize];
        match n.op {
            Op::Const => self.ex.is_const(id).map(|k| k & 1 == 1),
            Op::Map => {
                let (v, t) = self.ex.truth(id)?;
                let d = &self.st.doms[v as usize];
                if dom_empty(&dom_and(d, &t)) {
                    Some(false)
                } else if dom_empty(&dom_andnot(d, &t)) {
                    Some(true)
                } else {
                    None
                }
            }
            Op::And | Op::Or if depth < 200 => {
                let a = self.dom_truth(n.a, depth + 1);
                let z = n.op == Op::Or;
                if a == Some(z) {
                    return a;
                }
                let b = self.dom_truth(n.b, depth + 1);
                if b == Some(z) {
                    return b;
                }
                if a.is_some() && b.is_some() {
                    return Some(!z);
                }
                None
            }
            Op::Xor if depth < 200 => {
                let a = self.dom_truth(n.a, depth + 1)?;
                let b = self.dom_truth(n.b, depth + 1)?;
                Some(a != b)
            }
            _ => None,
        }
    }
    /// the bits of an expression that follow from the domains of the variables: (which are known, their values)
    fn known(&mut self, id: Id) -> (u128, u128) {
        let n = self.ex.nodes[id as usize];
        let w = n.w as u32;
        let m = mask(w);
        if n.op == Op::Const {
            return (m, self.ex.is_const(id).unwrap());
        }
        if self.kb.len() <= id as usize {
            self.kb.resize(self.ex.nodes.len() + 1024, (0, 0, 0));
        }
        let (g, k, v) = self.kb[id as usize];
        if g == self.kbgen {
            return (k, v);
        }
        let range = |(k, v): (u128, u128), m: u128| (v & k, (v & k) | (m & !k));
        let r = match n.op {
            Op::Const => unreachable!(),
            Op::Map => {
                let t = self.ex.tabs[n.b as usize].clone();
                let d = self.st.doms[n.a as usize];
                let (mut all1, mut all0, mut any) = (u128::MAX, u128::MAX, false);
                for i in 0..4 {
                    let mut x = d[i];
                    while x != 0 {
                        let b = x.trailing_zeros() as usize;
                        x &= x - 1;
                        let y = t.get(i * 64 + b) as u128;
                        all1 &= y;
                        all0 &= !y;
                        any = true;
                    }
                }
                if any {
                    ((all1 | all0) & m, all1 & m)
                } else {
                    (0, 0)
                }
            }
            Op::Ite => {
                let (k, v) = self.known(n.a);
                if k & 1 == 1 {
                    if v & 1 == 1 {
                        self.known(n.b)
                    } else {
                        self.known(n.c)
                    }
                } else {
                    let (a, b) = (self.known(n.b), self.known(n.c));
                    let k = a.0 & b.0 & !(a.1 ^ b.1);
                    (k, a.1 & k)
                }
            }
            Op::Extract => {
                let (k, v) = self.known(n.a);
                ((k >> n.b) & m, (v >> n.b) & m)
            }
            Op::ZExt => {
                let (k, v) = self.known(n.a);
                (k | (m & !mask(self.ex.w(n.a))), v)
            }
            Op::SExt => {
                let x = self.ex.w(n.a);
                let (k, v) = self.known(n.a);
                let hi = m & !mask(x);
                if k >> (x - 1) & 1 == 1 {
                    (k | hi, if v >> (x - 1) & 1 == 1 { v | hi } else { v })
                } else {
                    (k, v)
                }
            }
            Op::Concat => {
                let (h, l) = (self.known(n.a), self.known(n.b));
                let s = self.ex.w(n.b);
                (h.0 << s | l.0, h.1 << s | l.1)
            }
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.known(n.a), self.known(n.b));
                let k = match n.op {
                    Op::And => (a.0 & b.0) | (a.0 & !a.1) | (b.0 & !b.1),
                    Op::Or => (a.0 & b.0) | (a.0 & a.1) | (b.0 & b.1),
                    _ => a.0 & b.0,
                } & m;
                let v = match n.op {
                    Op::And => a.1 & b.1,
                    Op::Or => a.1 | b.1,
                    _ => a.1 ^ b.1,
                };
                (k, v & k)
            }
            Op::Add | Op::Sub | Op::Mul => {
                // the low bits known in both
                let (a, b) = (self.known(n.a), self.known(n.b));
                let t = (!(a.0 & b.0)).trailing_zeros();
                let k = if t >= 128 { m } else { ((1u128 << t) - 1) & m };
                let v = match n.op {
                    Op::Add => a.1.wrapping_add(b.1),
                    Op::Sub => a.1.wrapping_sub(b.1),
                    _ => a.1.wrapping_mul(b.1),
                };
                if k != m && n.op == Op::Add {
                    // the high bits that stay zero
                    let (x, y) = (range(a, m).1, range(b, m).1);
                    if let Some(z) = x.checked_add(y) {
                        if z <= m {
                            let hz = m & !(if z == 0 { 0 } else { u128::MAX >> z.leading_zeros() });
                            (k | hz, v & k)
                        } else {
                            (k, v & k)
                        }
                    } else {
                        (k, v & k)
                    }
                } else {
                    (k, v & k)
                }
            }
            Op::Shl | Op::LShr => {
                let (a, b) = (self.known(n.a), self.known(n.b));
                let bm = mask(self.ex.w(n.b));
                if b.0 & bm == bm {
                    if b.1 >= w as u128 {
                        (m, 0)
                    } else if n.op == Op::Shl {
                        let s = b.1 as u32;
                        (((a.0 << s) | mask(s)) & m, (a.1 << s) & m)
                    } else {
                        let s = b.1 as u32;
                        ((a.0 >> s) | (m & !(m >> s)), a.1 >> s)
                    }
                } else {
                    (0, 0)
                }
            }
            Op::Eq => {
                let (a, b) = (self.known(n.a), self.known(n.b));
                let x = mask(self.ex.w(n.a));
                if a.0 & b.0 & (a.1 ^ b.1) & x != 0 {
                    (1, 0)
                } else if a.0 & b.0 & x == x {
                    (1, 1)
                } else {
                    (0, 0)
                }
            }
            Op::Ult => {
                let x = mask(self.ex.w(n.a));
                let (a, b) = (range(self.known(n.a), x), range(self.known(n.b), x));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            Op::Slt => {
                let x = mask(self.ex.w(n.a));
                let top = x ^ (x >> 1);
                let (a, b) = (self.known(n.a), self.known(n.b));
                if a.0 & top == 0 || b.0 & top == 0 {
                    (0, 0)
                } else {
                    let (a, b) = (range((a.0, a.1 ^ top), x), range((b.0, b.1 ^ top), x));
                    if a.1 < b.0 {
                        (1, 1)
                    } else if a.0 >= b.1 {
                        (1, 0)
                    } else {
                        (0, 0)
                    }
                }
            }
            _ => (0, 0),
        };
        self.kb[id as usize] = (self.kbgen, r.0, r.1);
        r
    }
    pub fn add(&mut self, c: Id) {
        if self.ex.is_const(c).is_some() {
            return;
        }
        if let Some((v, t)) = self.ex.truth(c) {
            let d = &mut self.st.doms[v as usize];
            *d = dom_and(d, &t);
            debug_assert!(!dom_empty(d));
            return;
        }
        let n = self.ex.nodes[c as usize];
        if n.op == Op::And {
            self.add(n.a);
            self.add(n.b);
            return;
        }
        if n.op == Op::Or {
            // unit propagation over domains
            if self.dom_truth(n.a, 0) == Some(false) {
                return self.add(n.b);
            }
            if self.dom_truth(n.b, 0) == Some(false) {
                return self.add(n.a);
            }
        }
        if n.op == Op::Xor {
            let x = if self.ex.is_const(n.a) == Some(1) {
                n.b
            } else if self.ex.is_const(n.b) == Some(1) {
                n.a
            } else {
                0
            };
            if x != 0 {
                let m = self.ex.nodes[x as usize];
                if m.op == Op::Or {
                    let a = self.ex.not(m.a);
                    let b = self.ex.not(m.b);
                    self.add(a);
                    self.add(b);
                    return;
                }
                if m.op == Op::And {
                    if self.dom_truth(m.a, 0) == Some(true) {
                        let b = self.ex.not(m.b);
                        return self.add(b);
                    }
                    if self.dom_truth(m.b, 0) == Some(true) {
                        let a = self.ex.not(m.a);
                        return self.add(a);
                    }
                }
            }
        }
        if !self.st.cons.contains(&c) {
            self.st.consv |= self.ex.sup[c as usize];
            self.st.cons.push(c);
        }
    }
    /// is `path condition and c` satisfiable?  Returns a partial model.
    fn feasible(&mut self, c: Id) -> R<Option<Vec<(u32, u8)>>> {
        let sup = self.ex.sup[c as usize];
        if let Some((v, t)) = self.ex.truth(c) {
            let d = dom_and(&self.st.doms[v as usize], &t);
            if dom_empty(&d) {
                return Ok(None);
            }
            if self.st.consv & (1u128 << v) == 0 {
                return Ok(Some(vec![(v, dom_first(&d) as u8)]));
            }
        }
        // slice
        let mut vars = sup;
        let mut used: Vec<Id> = vec![c];
        let mut left: Vec<Id> = self.st.cons.clone();
        loop {
            let before = used.len();
            let ex = &self.ex;
            left.retain(|k| {
                if ex.sup[*k as usize] & vars != 0 {
                    vars |= ex.sup[*k as usize];
                    used.push(*k);
                    false
                } else {
                    true
                }
            });
            if used.len() == before {
                break;
            }
        }
        let t0 = std::time::Instant::now();
        let r = self.sol.check(&self.ex, &used, vars, &self.st.doms);
        if t0.elapsed().as_millis() > 20 && std::env::var("RSX_SLOWST").is_ok() {
            let s: Vec<&str> = self.st.frames.iter().rev().take(4).map(|f| f.f.name).collect();
            eprintln!("SLOWST {:?} {}:{} < {}", t0.elapsed(), self.st.f.name, self.st.pc, s.join(" < "));
        }
        match r {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => err!("solver returned unknown"),
        }
    }
    /// full path condition (and optionally one more conjunct)
    pub fn full_check(&mut self, extra: Option<Id>) -> Res {
        let mut c = self.st.cons.clone();
        if let Some(e) = extra {
            c.push(e);
        }
        let vars = if self.st.nvars == 0 { 0 } else { mask(self.st.nvars) };
        self.sol.check(&self.ex, &c, vars, &self.st.doms)
    }
    pub fn decide(&mut self, c: Id) -> R<bool> {
        if let Some(b) = self.dom_truth(c, 0) {
            return Ok(b);
        }
        if self.st.consv != 0 {
            if self.st.cons.contains(&c) {
                return Ok(true);
            }
            let n = self.ex.not(c);
            if self.st.cons.contains(&n) {
                return Ok(false);
            }
        }
        if self.ex.nodes[c as usize].op != Op::Map {
            self.kbgen = self.kbgen.wrapping_add(1);
            let (k, v) = self.known(c);
            if k & 1 == 1 {
                if self.cfg.check {
                    let o = if v & 1 == 1 { self.ex.not(c) } else { c };
                    if self.feasible(o)?.is_some() {
                        err!("self-check: known bits are wrong");
                    }
                }
                return Ok(v & 1 == 1);
            }
        }
        let m = self.ex.eval(c, &self.st.model) & 1 == 1;
        let nc = self.ex.not(c);
        let (taken, other) = if m { (c, nc) } else { (nc, c) };
        match self.feasible(other)? {
            Some(upd) => {
                let mut s2 = self.st.clone();
                for (v, x) in upd {
                    s2.model[v as usize] = x;
                }
                s2.forks += 1;
                std::mem::swap(&mut self.st, &mut s2);
                self.add(other);
                std::mem::swap(&mut self.st, &mut s2);
                self.pending.push(s2);
                self.stats.forks += 1;
                self.st.forks += 1;
                if self.cfg.prof {
                    let k = self.site("fork", 5);
                    *self.stats.prof.entry(k).or_default() += 1;
                }
                self.add(taken);
            }
            None => {
                self.stats.implied += 1;
                // implied: remember it (helps domains)
                self.add(taken);
            }
        }
        Ok(m)
    }
    /// make a value concrete, forking over its other values
    pub fn conc(&mut self, v: V, w: u32) -> R<u128> {
        if v.sym == 0 {
            return Ok(v.u());
        }
        let x = self.mk(v.sym);
        if x.sym == 0 {
            return Ok(x.u());
        }
        let _ = w;
        let w = self.ex.w(v.sym);
        let k = self.ex.eval(v.sym, &self.st.model);
        let kc = self.ex.konst(k, w);
        let c = self.ex.bin(Op::Eq, 1, v.sym, kc);
        let r = if self.ex.is_const(c).is_some() { true } else { self.decide(c)? };
        debug_assert!(r);
        Ok(k)
    }
    pub fn conc64(&mut self, v: V) -> R<u64> {
        if v.sym == 0 {
            return Ok(v.lo);
        }
        Ok(self.conc(v, 64)? as u64)
    }
    pub fn truth_of(&mut self, v: V, w: u32) -> R<bool> {
        if v.sym == 0 {
            return Ok(v.lo & 1 == 1);
        }
        let c = if w == 1 { v.sym } else { self.ex.extract(v.sym, 0, 1) };
        if let Some(k) = self.ex.is_const(c) {
            return Ok(k & 1 == 1);
        }
        self.decide(c)
    }

    // ------------------------------------------------------------ memory
    pub fn fault<T>(&self, a: u64) -> R<T> {
        Err(Stop(End::Error(format!("memory fault at {:#x} in {}", a, self.st.f.name))))
    }
    pub fn load_at(&mut self, a: u64, w: u32) -> Result<V, Fault> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(v) = self.st.mem.load_fast(&self.prog.base, a, n) {
                return Ok(V::c(v & m64(w)));
            }
        }
        let mut any = false;
        let mut bs = [(0u8, 0u32); 16];
        for i in 0..n {
            bs[i] = self.st.mem.byte(&self.prog.base, a + i as u64)?;
            if bs[i].1 != 0 {
                let x = self.mk(bs[i].1);
                if x.sym == 0 {
                    bs[i] = (x.lo as u8, 0);
                } else {
                    any = true;
                }
            }
        }
        if !any {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | bs[i].0 as u128;
            }
            return Ok(V::c128(v & mask(w)));
        }
        let mut r: Id = 0;
        for i in 0..n {
            let b = if bs[i].1 != 0 { bs[i].1 } else { self.ex.konst(bs[i].0 as u128, 8) };
            r = if i == 0 { b } else { self.ex.concat(b, r) };
        }
        if w < 8 * n as u32 {
            r = self.ex.extract(r, 0, w);
        }
        Ok(self.mk(r))
    }
    pub fn store_at(&mut self, a: u64, v: V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if v.sym == 0 && n <= 8 {
            match self.st.mem.store_fast(&self.prog.base, a, n, v.lo) {
                Ok(true) => return Ok(()),
                Ok(false) => {}
                Err(f) => return self.fault(f.0),
            }
        }
        if v.sym == 0 {
            let b = v.u().to_le_bytes();
            return match self.st.mem.put(&self.prog.base, a, &b[..n], None) {
                Ok(()) => Ok(()),
                Err(f) => self.fault(f.0),
            };
        }
        let mut id = v.sym;
        if w < 8 * n as u32 {
            id = self.ex.zext(id, 8 * n as u32);
        }
        for i in 0..n {
            let b = self.ex.extract(id, 8 * i as u32, 8);
            let b = self.mk(b);
            if let Err(f) = self.st.mem.set_byte(&self.prog.base, a + i as u64, b.lo as u8, b.sym) {
                return self.fault(f.0);
            }
        }
        Ok(())
    }
    pub fn load(&mut self, p: V, w: u32, off: u64) -> R<V> {
        let a = if p.sym == 0 {
            p.lo
        } else {
            match self.load_sym(p.sym, w, off)? {
                Ok(v) => return Ok(v),
                Err(a) => a,
            }
        };
        match self.load_at(a.wrapping_add(off), w) {
            Ok(v) => Ok(v),
            Err(f) => self.fault(f.0),
        }
    }
    /// load through a symbolic pointer: merge when it depends on one byte, otherwise fork
    fn load_sym(&mut self, p: Id, w: u32, off: u64) -> R<Result<V, u64>> {
        if let Some((var, t)) = self.ex.tab(p) {
            let d = self.st.doms[var as usize];
            let mut ok = true;
            let mut vals: Vec<(usize, V)> = vec![];
            let mut cache: HashMap<u64, V> = HashMap::new();
            let mut symc = 0;
            for x in 0..256 {
                if !dom_has(&d, x) {
                    continue;
                }
                let a = t.get(x).wrapping_add(off);
                let v = match cache.get(&a) {
                    Some(v) => *v,
                    None => match self.load_at(a, w) {
                        Ok(v) => {
                            if v.sym != 0 {
                                symc += 1;
                            }
                            cache.insert(a, v);
                            v
                        }
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    },
                };
                vals.push((x, v));
            }
            if ok && w <= 64 {
                let mut tb = [0u64; 256];
                for (x, v) in &vals {
                    tb[*x] = v.lo;
                }
                if symc == 0 {
                    let id = self.ex.map_of(var, w, |x| tb[x]);
                    return Ok(Ok(self.mk(id)));
                }
                if symc <= 8 {
                    let mut id = self.ex.map_of(var, w, |x| tb[x]);
                    for (a, v) in cache {
                        if v.sym != 0 {
                            let c = self.ex.map_of(var, 1, |x| (dom_has(&d, x) && t.get(x).wrapping_add(off) == a) as u64);
                            id = self.ex.ite(c, v.sym, id);
                        }
                    }
                    return Ok(Ok(self.mk(id)));
                }
            }
        }
        let a = self.conc(V { lo: 0, hi: 0, sym: p }, 64)? as u64;
        Ok(Err(a))
    }
    pub fn read_bytes(&mut self, p: u64, n: u64) -> R<SBytes> {
        let mut o = Vec::with_capacity(n as usize);
        for i in 0..n {
            match self.st.mem.byte(&self.prog.base, p + i) {
                Ok((b, s)) => {
                    if s != 0 {
                        let x = self.mk(s);
                        o.push((x.lo as u8, x.sym));
                    } else {
                        o.push((b, 0))
                    }
                }
                Err(f) => return self.fault(f.0),
            }
        }
        Ok(o)
    }
    pub fn read_str(&mut self, p: u64, n: u64) -> R<String> {
        let b = self.read_bytes(p, n)?;
        let mut o = vec![];
        for (x, s) in b {
            o.push(if s != 0 { self.ex.eval(s, &self.st.model) as u8 } else { x });
        }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    pub fn read_cstr(&mut self, p: u64) -> R<String> {
        let mut o = vec![];
        let mut a = p;
        loop {
            match self.st.mem.byte(&self.prog.base, a) {
                Ok((b, s)) => {
                    let c = if s != 0 { self.conc(V { lo: 0, hi: 0, sym: s }, 8)? as u8 } else { b };
                    if c == 0 {
                        break;
                    }
                    o.push(c);
                }
                Err(f) => return self.fault(f.0),
            }
            a += 1;
        }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    pub fn write_bytes(&mut self, p: u64, b: &[(u8, Id)]) -> R<()> {
        for (i, (x, s)) in b.iter().enumerate() {
            if let Err(f) = self.st.mem.set_byte(&self.prog.base, p + i as u64, *x, *s) {
                return self.fault(f.0);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ operations
    pub fn bin(&mut self, op: B, w: u32, a: V, b: V) -> R<V> {
        if a.sym == 0 && b.sym == 0 {
            if w <= 64 {
                let (x, y) = (a.lo, b.lo);
                let m = m64(w);
                let r = match op {
                    B::Add => x.wrapping_add(y) & m,
                    B::Sub => x.wrapping_sub(y) & m,
                    B::Mul => x.wrapping_mul(y) & m,
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    B::AShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            ((sx64(x, w) >> y) as u64) & m
                        }
                    }
                    B::UDiv | B::URem | B::SDiv | B::SRem => {
                        if y == 0 {
                            err!("division by zero");
                        }
                        match op {
                            B::UDiv => x / y,
                            B::URem => x % y,
                            B::SDiv => (sx64(x, w).wrapping_div(sx64(y, w)) as u64) & m,
                            _ => (sx64(x, w).wrapping_rem(sx64(y, w)) as u64) & m,
                        }
                    }
                };
                return Ok(V::c(r));
            }
            return Ok(V::c128(fold(bop(op), w, w, a.u(), b.u(), 0)));
        }
        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && b.sym != 0 {
            let k = self.conc(b, w)?;
            if k == 0 {
                err!("division by zero");
            }
            return self.bin(op, w, a, V::c128(k));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ex.bin(bop(op), w, x, y);
        Ok(self.mk(r))
    }
    pub fn icmp(&mut self, p: P, w: u32, a: V, b: V) -> V {
        if a.sym == 0 && b.sym == 0 {
            let r = if w <= 64 {
                let (x, y) = (a.lo, b.lo);
                match p {
                    P::Eq => x == y,
                    P::Ne => x != y,
                    P::Ugt => x > y,
                    P::Uge => x >= y,
                    P::Ult => x < y,
                    P::Ule => x <= y,
                    P::Sgt => sx64(x, w) > sx64(y, w),
                    P::Sge => sx64(x, w) >= sx64(y, w),
                    P::Slt => sx64(x, w) < sx64(y, w),
                    P::Sle => sx64(x, w) <= sx64(y, w),
                }
            } else {
                let (x, y) = (a.u(), b.u());
                let (s, t) = (sx(x, w), sx(y, w));
                match p {
                    P::Eq => x == y,
                    P::Ne => x != y,
                    P::Ugt => x > y,
                    P::Uge => x >= y,
                    P::Ult => x < y,
                    P::Ule => x <= y,
                    P::Sgt => s > t,
                    P::Sge => s >= t,
                    P::Slt => s < t,
                    P::Sle => s <= t,
                }
            };
            return V::c(r as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = &mut self.ex;
        let (op, x, y, neg) = match p {
            P::Eq => (Op::Eq, x, y, false),
            P::Ne => (Op::Eq, x, y, true),
            P::Ugt => (Op::Ult, y, x, false),
            P::Uge => (Op::Ult, x, y, true),
            P::Ult => (Op::Ult, x, y, false),
            P::Ule => (Op::Ult, y, x, true),
            P::Sgt => (Op::Slt, y, x, false),
            P::Sge => (Op::Slt, x, y, true),
            P::Slt => (Op::Slt, x, y, false),
            P::Sle => (Op::Slt, y, x, true),
        };
        let mut r = e.bin(op, 1, x, y);
        if neg {
            r = e.not(r);
        }
        let v = self.mk(r);
        if v.sym != 0 {
            if let Some(b) = self.dom_truth(v.sym, 0) {
                return V::c(b as u64);
            }
        }
        v
    }
    pub fn ite(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.sym == 0 {
            return if c.lo & 1 == 1 { a } else { b };
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ex.ite(c.sym, x, y);
        self.mk(r)
    }
    pub fn cast(&mut self, op: C, fw: u32, tw: u32, v: V) -> V {
        if v.sym == 0 {
            return match op {
                C::Trunc => {
                    if tw <= 64 {
                        V::c(v.lo & m64(tw))
                    } else {
                        V::c128(v.u() & mask(tw))
                    }
                }
                C::ZExt | C::Bit => v,
                C::SExt => V::c128((sx(v.u(), fw) as u128) & mask(tw)),
            };
        }
        let r = match op {
            C::Trunc => self.ex.extract(v.sym, 0, tw),
            C::ZExt => self.ex.zext(v.sym, tw),
            C::SExt => self.ex.sext(v.sym, tw),
            C::Bit => v.sym,
        };
        self.mk(r)
    }
    fn jump(&mut self, e: &'static Edge) {
        match e.moves.len() {
            0 => {}
            1 if e.moves[0].2 == 1 => {
                let v = self.val(e.moves[0].1);
                self.set(e.moves[0].0, v);
            }
            _ => {
                let mut buf = std::mem::take(&mut self.argbuf);
                buf.clear();
                for (_, o, n) in &e.moves {
                    for k in 0..*n {
                        buf.push(self.valk(*o, k));
                    }
                }
                let mut i = 0;
                for (d, _, n) in &e.moves {
                    for k in 0..*n {
                        self.set(*d + k, buf[i]);
                        i += 1;
                    }
                }
                self.argbuf = buf;
            }
        }
        self.st.pc = e.pc;
    }
    pub fn enter(&mut self, id: FnId, c: &'static Call, args: &[V]) -> R<()> {
        if self.prog.fns[id as usize].module == u32::MAX {
            err!("call of undefined function {}", self.prog.fns[id as usize].name);
        }
        let f = match self.prog.fns[id as usize].dec {
            Some(f) => f,
            None => {
                self.fnused.insert(id);
                self.prog.decode(id)
            }
        };
        if self.cfg.trace {
            eprintln!("{:indent$}{}", "", f.name, indent = self.st.frames.len().min(60));
        }
        if self.st.frames.len() > 4000 {
            err!("call depth exceeded in {}", f.name);
        }
        let nb = self.st.regs.len() as u32;
        let s = &mut self.st;
        s.frames.push(Frame { f: s.f, base: s.base, pc: s.pc, sp: s.mem.sp, call: c });
        s.regs.resize((nb + f.nregs) as usize, V::default());
        if args.len() as u32 != f.nargslots {
            err!("argument slots mismatch calling {}: {} vs {}", f.name, args.len(), f.nargslots);
        }
        let mut i = 0;
        for (r, n) in &f.args {
            for k in 0..*n {
                s.regs[(nb + r + k) as usize] = args[i];
                i += 1;
            }
        }
        s.f = f;
        s.base = nb;
        s.pc = 0;
        Ok(())
    }
    /// finish a hooked call
    pub fn finish(&mut self, c: &'static Call, vals: &[V]) {
        for (i, v) in vals.iter().enumerate() {
            if (i as u32) < c.rslots {
                self.set(c.dst + i as u32, *v);
            }
        }
        match &c.cont {
            Some(e) => self.jump(e),
            None => self.st.pc += 1,
        }
    }
    fn call(&mut self, c: &'static Call) -> R<()> {
        let mut args: Vec<V> = Vec::with_capacity(8);
        for (o, n, _) in &c.args {
            for k in 0..*n {
                args.push(self.valk(*o, k));
            }
        }
        match &c.callee {
            Callee::Fn(id) => {
                let x = self.prog.fns[*id as usize].ext;
                if x != 0 {
                    return self.ext(x, self.prog.fns[*id as usize].name, c, &args);
                }
                self.enter(*id, c, &args)
            }
            Callee::Ptr(o) => {
                let v = self.val(*o);
                let a = self.conc64(v)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.prog.fns.len() as u64 {
                    err!("call through bad pointer {:#x} in {}", a, self.st.f.name);
                }
                let id = ((a - FN_BASE) / 16) as FnId;
                let x = self.prog.fns[id as usize].ext;
                if x != 0 {
                    return self.ext(x, self.prog.fns[id as usize].name, c, &args);
                }
                self.enter(id, c, &args)
            }
            Callee::Ext(name) => {
                if c.ext == 0 {
                    err!("unresolved external {} called from {}", name, self.st.f.name);
                }
                self.ext(c.ext, name, c, &args)
            }
        }
    }
    fn gep(&mut self, base: V, off: u64, idx: &'static [(Opd, u32, u64)]) -> R<V> {
        let mut o = off;
        let mut sym: Id = 0;
        for (v, w, scale) in idx {
            let x = self.val(*v);
            if x.sym == 0 {
                o = o.wrapping_add((sx64(x.lo, (*w).min(64)) as u64).wrapping_mul(*scale));
            } else {
                let mut i = x.sym;
                if *w < 64 {
                    i = self.ex.sext(i, 64);
                } else if *w > 64 {
                    i = self.ex.extract(i, 0, 64);
                }
                let s = self.ex.konst(*scale as u128, 64);
                let t = self.ex.bin(Op::Mul, 64, i, s);
                sym = if sym == 0 { t } else { self.ex.bin(Op::Add, 64, sym, t) };
            }
        }
        if sym == 0 && base.sym == 0 {
            return Ok(V::c(base.lo.wrapping_add(o)));
        }
        let mut b = base;
        if b.sym == 0 {
            b.lo = b.lo.wrapping_add(o);
            o = 0;
        }
        let mut r = self.id(b, 64);
        if sym != 0 {
            r = self.ex.bin(Op::Add, 64, r, sym);
        }
        if o != 0 {
            let k = self.ex.konst(o as u128, 64);
            r = self.ex.bin(Op::Add, 64, r, k);
        }
        Ok(self.mk(r))
    }

    /// run the current state until its path ends
    pub fn run_path(&mut self) -> End {
        loop {
            match self.step() {
                Ok(()) => {}
                Err(Stop(e)) => return e,
            }
        }
    }

    #[inline]
    fn step(&mut self) -> R<()> {
        let f = self.st.f;
        let ins: &'static I = &f.code[self.st.pc as usize];
        self.st.steps += 1;
        self.tick += 1;
        if self.cfg.prof && self.tick & 0x3f == 0 {
            *self.stats.prof.entry(format!("step {}", f.name)).or_default() += 64;
        }
        if self.tick & 0xfff == 0 {
            if self.st.steps > self.cfg.max_steps {
                err!("step limit exceeded in {}", f.name);
            }
            if self.tick & 0xffff == 0 && !(self.poll)(self) {
                return Err(Stop(End::Exit(-1)));
            }
        }
        match ins {
            I::Bin { op, w, d, a, b, n } => {
                if *n == 1 {
                    let (x, y) = (self.val(*a), self.val(*b));
                    let r = self.bin(*op, *w, x, y)?;
                    self.set(*d, r);
                } else {
                    for k in 0..*n {
                        let (x, y) = (self.valk(*a, k), self.valk(*b, k));
                        let r = self.bin(*op, *w, x, y)?;
                        self.set(*d + k, r);
                    }
                }
            }
            I::Icmp { p, w, d, a, b, n } => {
                for k in 0..*n {
                    let (x, y) = (self.valk(*a, k), self.valk(*b, k));
                    let r = self.icmp(*p, *w, x, y);
                    self.set(*d + k, r);
                }
            }
            I::Load1 { d, w, p } => {
                let pv = self.val(*p);
                let v = self.load(pv, *w, 0)?;
                self.set(*d, v);
            }
            I::LoadN { d, leaves, p } => {
                let pv = self.val(*p);
                let a = self.conc64(pv)?;
                for (i, (o, w)) in leaves.iter().enumerate() {
                    let v = self.load(V::c(a), *w, *o as u64)?;
                    self.set(*d + i as u32, v);
                }
            }
            I::Store1 { v, w, p } => {
                let pv = self.val(*p);
                let a = self.conc64(pv)?;
                let x = self.val(*v);
                self.store_at(a, x, *w)?;
            }
            I::StoreN { v, leaves, p } => {
                let pv = self.val(*p);
                let a = self.conc64(pv)?;
                for (i, (o, w)) in leaves.iter().enumerate() {
                    let x = self.valk(*v, i as u32);
                    self.store_at(a + *o as u64, x, *w)?;
                }
            }
            I::Gep { d, base, off, idx } => {
                let b = self.val(*base);
                let r = self.gep(b, *off, idx)?;
                self.set(*d, r);
            }
            I::Cast { op, fw, tw, d, a, n } => {
                for k in 0..*n {
                    let v = self.valk(*a, k);
                    let r = self.cast(*op, *fw, *tw, v);
                    self.set(*d + k, r);
                }
            }
            I::Br(e) => {
                self.jump(e);
                return Ok(());
            }
            I::CondBr { c, t, f } => {
                let v = self.val(*c);
                let b = self.truth_of(v, 1)?;
                self.jump(if b { t } else { f });
                return Ok(());
            }
            I::Switch { w, v, cases, edges } => {
                let x = self.val(*v);
                let x = if x.sym != 0 { self.mk(x.sym) } else { x };
                let k = if x.sym == 0 {
                    match cases.binary_search_by(|c| c.0.cmp(&x.u())) {
                        Ok(i) => cases[i].1,
                        Err(_) => 0,
                    }
                } else {
                    let mv = self.ex.eval(x.sym, &self.st.model);
                    let tgt = match cases.binary_search_by(|c| c.0.cmp(&mv)) {
                        Ok(i) => cases[i].1,
                        Err(_) => 0,
                    };
                    let c = if let Some((var, t)) = self.ex.tab(x.sym) {
                        self.ex.map_of(var, 1, |i| {
                            let q = t.get(i) as u128;
                            let k = match cases.binary_search_by(|c| c.0.cmp(&q)) {
                                Ok(i) => cases[i].1,
                                Err(_) => 0,
                            };
                            (k == tgt) as u64
                        })
                    } else if tgt != 0 {
                        let mut o = self.ex.konst(0, 1);
                        for (cv, ck) in cases {
                            if *ck == tgt {
                                let kc = self.ex.konst(*cv, *w);
                                let e = self.ex.bin(Op::Eq, 1, x.sym, kc);
                                o = self.ex.bin(Op::Or, 1, o, e);
                            }
                        }
                        o
                    } else {
                        let mut o = self.ex.konst(0, 1);
                        for (cv, ck) in cases {
                            if *ck != 0 {
                                let kc = self.ex.konst(*cv, *w);
                                let e = self.ex.bin(Op::Eq, 1, x.sym, kc);
                                o = self.ex.bin(Op::Or, 1, o, e);
                            }
                        }
                        self.ex.not(o)
                    };
                    if self.ex.is_const(c).is_none() {
                        self.decide(c)?;
                    }
                    tgt
                };
                self.jump(&edges[k as usize]);
                return Ok(());
            }
            I::Ret { v, n } => {
                let fr = match self.st.frames.last() {
                    Some(f) => f,
                    None => return Err(Stop(End::Done)),
                };
                let (c, pb) = (fr.call, fr.base);
                let nn = (*n).min(c.rslots);
                for k in 0..nn {
                    let x = self.valk(*v, k);
                    self.st.regs[(pb + c.dst + k) as usize] = x;
                }
                let fr = self.st.frames.pop().unwrap();
                self.st.regs.truncate(self.st.base as usize);
                self.st.f = fr.f;
                self.st.base = fr.base;
                self.st.pc = fr.pc;
                self.st.mem.sp = fr.sp;
                match &c.cont {
                    Some(e) => self.jump(e),
                    None => self.st.pc += 1,
                }
                return Ok(());
            }
            I::Call(c) => return self.call(c),
            I::Copy { d, a, n } => {
                for k in 0..*n {
                    let v = self.valk(*a, k);
                    self.set(*d + k, v);
                }
            }
            I::Select { d, c, a, b, n, vec, ws } => {
                for k in 0..*n {
                    let cv = if *vec { self.valk(*c, k) } else { self.val(*c) };
                    let (x, y) = (self.valk(*a, k), self.valk(*b, k));
                    let cv = if cv.sym != 0 { self.mk(cv.sym) } else { cv };
                    let r = self.ite(cv, x, y, ws[k as usize].1);
                    self.set(*d + k, r);
                }
            }
            I::Alloca { d, size, align, cnt } => {
                let cv = self.val(*cnt);
                let k = self.conc64(cv)?;
                let a = self.st.mem.push(size * k, *align);
                self.set(*d, V::c(a));
            }
            I::Unreachable => {
                err!("unreachable executed in {}", f.name);
            }
            I::BitV { d, a, fw, fl, tw, tl } => {
                if fw * fl > 128 {
                    err!("wide bitcast in {}", f.name);
                }
                let mut sym = false;
                for k in 0..*fl {
                    sym |= self.valk(*a, k).sym != 0;
                }
                if !sym {
                    let mut acc = 0u128;
                    for k in (0..*fl).rev() {
                        acc = if *fw >= 128 { 0 } else { acc << fw } | self.valk(*a, k).u();
                    }
                    for k in 0..*tl {
                        let x = if k * tw >= 128 { 0 } else { acc >> (k * tw) };
                        self.set(*d + k, V::c128(x & mask(*tw)));
                    }
                } else {
                    let mut acc: Id = 0;
                    for k in 0..*fl {
                        let v = self.valk(*a, k);
                        let i = self.id(v, *fw);
                        acc = if k == 0 { i } else { self.ex.concat(i, acc) };
                    }
                    for k in 0..*tl {
                        let x = self.ex.extract(acc, k * tw, *tw);
                        let v = self.mk(x);
                        self.set(*d + k, v);
                    }
                }
            }
            I::ExtractElt { d, a, idx, lanes: _, sl } => {
                let iv = self.val(*idx);
                let i = self.conc(iv, 64)? as u32;
                for k in 0..*sl {
                    let v = self.valk(*a, i * sl + k);
                    self.set(*d + k, v);
                }
            }
            I::InsertElt { d, a, v, idx, lanes, sl } => {
                let iv = self.val(*idx);
                let i = self.conc(iv, 64)? as u32;
                for k in 0..lanes * sl {
                    let x = self.valk(*a, k);
                    self.set(*d + k, x);
                }
                for k in 0..*sl {
                    let x = self.valk(*v, k);
                    self.set(*d + i * sl + k, x);
                }
            }
            I::Shuffle { d, a, b, lanes, mask, sl } => {
                for (j, m) in mask.iter().enumerate() {
                    for k in 0..*sl {
                        let v = if *m < 0 {
                            V::c(0)
                        } else if (*m as u32) < *lanes {
                            self.valk(*a, *m as u32 * sl + k)
                        } else {
                            self.valk(*b, (*m as u32 - lanes) * sl + k)
                        };
                        self.set(*d + j as u32 * sl + k, v);
                    }
                }
            }
            I::Rmw { op, w, d, p, v } => {
                let pv = self.val(*p);
                let a = self.conc64(pv)?;
                let old = self.load(V::c(a), *w, 0)?;
                let x = self.val(*v);
                let new = match *op {
                    "xchg" => x,
                    "add" => self.bin(B::Add, *w, old, x)?,
                    "sub" => self.bin(B::Sub, *w, old, x)?,
                    "and" => self.bin(B::And, *w, old, x)?,
                    "or" => self.bin(B::Or, *w, old, x)?,
                    "xor" => self.bin(B::Xor, *w, old, x)?,
                    "umax" => {
                        let c = self.icmp(P::Ugt, *w, old, x);
                        self.ite(c, old, x, *w)
                    }
                    "umin" => {
                        let c = self.icmp(P::Ult, *w, old, x);
                        self.ite(c, old, x, *w)
                    }
                    o => err!("atomicrmw {o}"),
                };
                self.store_at(a, new, *w)?;
                self.set(*d, old);
            }
            I::CmpXchg { w, d, p, c, n } => {
                let pv = self.val(*p);
                let a = self.conc64(pv)?;
                let old = self.load(V::c(a), *w, 0)?;
                let x = self.val(*c);
                let e = self.icmp(P::Eq, *w, old, x);
                let ok = self.truth_of(e, 1)?;
                if ok {
                    let nv = self.val(*n);
                    self.store_at(a, nv, *w)?;
                }
                self.set(*d, old);
                self.set(*d + 1, V::c(ok as u64));
            }
            I::FBin { op, w, d, a, b } => {
                let (x, y) = (self.val(*a), self.val(*b));
                let (x, y) = (self.conc(x, *w)? as u64, self.conc(y, *w)? as u64);
                let r = match w {
                    64 => {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        match *op {
                            "fadd" => x + y,
                            "fsub" => x - y,
                            "fmul" => x * y,
                            "fdiv" => x / y,
                            _ => x % y,
                        }
                        .to_bits()
                    }
                    32 => {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match *op {
                            "fadd" => x + y,
                            "fsub" => x - y,
                            "fmul" => x * y,
                            "fdiv" => x / y,
                            _ => x % y,
                        }
                        .to_bits() as u64
                    }
                    _ => err!("float width {w}"),
                };
                self.set(*d, V::c(r));
            }
            I::FNeg { w, d, a } => {
                let x = self.val(*a);
                let x = self.conc(x, *w)? as u64;
                self.set(*d, V::c(x ^ (1u64 << (w - 1))));
            }
            I::Fcmp { p, w, d, a, b } => {
                let (x, y) = (self.val(*a), self.val(*b));
                let (x, y) = (self.conc(x, *w)? as u64, self.conc(y, *w)? as u64);
                let (x, y) = if *w == 64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match *p {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "true" => true,
                    _ => false,
                };
                self.set(*d, V::c(r as u64));
            }
            I::FCast { op, fw, tw, d, a } => {
                let x = self.val(*a);
                let x = self.conc(x, *fw)?;
                let tof = |v: f64| -> u64 {
                    if *tw == 32 {
                        (v as f32).to_bits() as u64
                    } else {
                        v.to_bits()
                    }
                };
                let fromf = |x: u128| -> f64 {
                    if *fw == 32 {
                        f32::from_bits(x as u32) as f64
                    } else {
                        f64::from_bits(x as u64)
                    }
                };
                let r: u128 = match *op {
                    "uitofp" => {
                        if *tw == 32 {
                            (x as f32).to_bits() as u128
                        } else {
                            (x as f64).to_bits() as u128
                        }
                    }
                    "sitofp" => {
                        let s = sx(x, *fw);
                        if *tw == 32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    "fptoui" => (fromf(x) as u128) & mask(*tw),
                    "fptosi" => (fromf(x) as i128 as u128) & mask(*tw),
                    _ => tof(fromf(x)) as u128,
                };
                self.set(*d, V::c128(r));
            }
            I::Nop => {}
            I::Bad(s) => err!("unsupported instruction: {} in {}", s, f.name),
        }
        self.st.pc += 1;
        Ok(())
    }

    // ------------------------------------------------------------ path ends
    pub fn inputs(&self, model: &[(u32, u8)]) -> Vec<u8> {
        let mut v = self.st.model[..self.st.nvars as usize].to_vec();
        for (i, x) in model {
            v[*i as usize] = *x;
        }
        v
    }
    fn site(&self, what: &str, n: usize) -> String {
        let fr: Vec<&str> = self.st.frames.iter().rev().take(n).map(|f| f.f.name).collect();
        format!("{what} {}:{} < {}", self.st.f.name, self.st.pc, fr.join(" < "))
    }
    pub fn record_violation(&mut self, label: &str, input: Vec<u8>) {
        *self.stats.violcount.entry(label.to_string()).or_default() += 1;
        let have = self.stats.viols.iter().filter(|v| v.0 == label).count();
        if have < self.cfg.max_viol {
            let fr: Vec<&str> = self.st.frames.iter().rev().take(6).map(|f| f.f.name).collect();
            let w = format!("{} < {}", self.st.f.name, fr.join(" < "));
            self.stats.viols.push((label.to_string(), input, w));
        }
    }
    pub fn eval_bytes(&mut self, b: &SBytes, model: &[u8]) -> Vec<u8> {
        b.iter().map(|(x, s)| if *s != 0 { self.ex.eval(*s, model) as u8 } else { *x }).collect()
    }
    pub fn finish_path(&mut self, e: End) {
        self.stats.steps += self.st.steps;
        self.stats.maxvars = self.stats.maxvars.max(self.st.nvars as u64);
        match e {
            End::Pruned => {
                self.stats.pruned += 1;
            }
            End::Done | End::Exit(_) => {
                // the path condition itself goes to the solver
                match self.full_check(None) {
                    Res::Sat(m) => {
                        self.stats.paths += 1;
                        for mk in std::mem::take(&mut self.st.marks) {
                            *self.stats.marks.entry(self.names[mk as usize].clone()).or_default() += 1;
                        }
                        let every = self.cfg.sample_every;
                        if every > 0 && (self.stats.paths - 1) % every == 0 && self.stats.samples.len() < 40 {
                            let input = self.inputs(&m);
                            let notes = std::mem::take(&mut self.st.notes);
                            let mut out = vec![];
                            for (k, b) in &notes {
                                let x = self.eval_bytes(b, &input);
                                out.push(format!("{}{}", k, hex(&x)));
                            }
                            let es = format!("{:?}", e);
                            self.stats.samples.push((input, es, out));
                        }
                    }
                    Res::Unsat => {
                        *self.stats.errors.entry("path condition unsatisfiable at path end (engine)".into()).or_default() += 1;
                    }
                    Res::Unknown => {
                        *self.stats.errors.entry("solver unknown at path end".into()).or_default() += 1;
                    }
                }
            }
            End::Violation(l) => {
                self.stats.paths += 1;
                match self.full_check(None) {
                    Res::Sat(m) => {
                        let i = self.inputs(&m);
                        self.record_violation(&l, i);
                    }
                    Res::Unsat => {
                        *self.stats.errors.entry("violating path infeasible (engine)".into()).or_default() += 1;
                    }
                    Res::Unknown => {
                        *self.stats.errors.entry("solver unknown at violation".into()).or_default() += 1;
                    }
                }
            }
            End::Error(m) => {
                let inp = hex(&self.st.model[..self.st.nvars as usize]);
                let stack: Vec<&str> = self.st.frames.iter().rev().take(8).map(|f| f.f.name).collect();
                let n = self.stats.errors.len();
                let c = self.stats.errors.entry(m.clone()).or_default();
                *c += 1;
                if *c == 1 && n < 3 {
                    let mut t = format!("{} < {}", self.st.f.name, stack.join(" < "));
                    t.truncate(160);
                    eprintln!("ENGINE-ERROR {m}\n   input={inp}\n   stack: {t}");
                }
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn bop(b: B) -> Op {
    match b {
        B::Add => Op::Add,
        B::Sub => Op::Sub,
        B::Mul => Op::Mul,
        B::UDiv => Op::UDiv,
        B::SDiv => Op::SDiv,
        B::URem => Op::URem,
        B::SRem => Op::SRem,
        B::Shl => Op::Shl,
        B::LShr => Op::LShr,
        B::AShr => Op::AShr,
        B::And => Op::And,
        B::Or => Op::Or,
        B::Xor => Op::Xor,
    }
}
