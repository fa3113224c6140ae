//! Hash-consed bit-vector expressions over symbolic bytes.
//!
//! An expression that depends on exactly one symbolic byte (and is at most 64 bits wide) is kept
//! in the canonical form `Map(var, table)` where `table` gives its value for each of the 256
//! values of the byte.  Everything else is a DAG over such leaves.

use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Map, // a = var, b = table
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, low bit = b
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Tab {
    B([u64; 4]),
    U8(Box<[u8; 256]>),
    U64(Box<[u64; 256]>),
}

impl Tab {
    #[inline]
    pub fn get(&self, v: usize) -> u64 {
        match self {
            Tab::B(b) => (b[v >> 6] >> (v & 63)) & 1,
            Tab::U8(t) => t[v] as u64,
            Tab::U64(t) => t[v],
        }
    }
}

pub type Dom = [u64; 4];
pub fn dom_has(d: &Dom, v: usize) -> bool {
    (d[v >> 6] >> (v & 63)) & 1 == 1
}
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_andnot(a: &Dom, b: &Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn dom_empty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dom_count(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(a: &Dom) -> usize {
    for i in 0..4 {
        if a[i] != 0 {
            return i * 64 + a[i].trailing_zeros() as usize;
        }
    }
    panic!("empty domain")
}
pub const FULL: Dom = [!0; 4];

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>,
    map: HashMap<Node, Id>,
    consts: Vec<u128>,
    constmap: HashMap<u128, u32>,
    pub tabs: Vec<Rc<Tab>>,
    tabmap: HashMap<Rc<Tab>, u32>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Ite => {
            if a & 1 == 1 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & m,
        _ => unreachable!(),
    }
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: vec![],
            sup: vec![],
            map: HashMap::new(),
            consts: vec![],
            constmap: HashMap::new(),
            tabs: vec![],
            tabmap: HashMap::new(),
            stamp: vec![],
            val: vec![],
            cur: 0,
        };
        // id 0 is reserved
        e.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        e.sup.push(0);
        e
    }
    #[inline]
    pub fn w(&self, id: Id) -> u32 {
        self.nodes[id as usize].w as u32
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        let ci = match self.constmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.constmap.insert(v, i);
                i
            }
        };
        self.intern(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 }, 0)
    }
    #[inline]
    pub fn is_const(&self, id: Id) -> Option<u128> {
        let n = &self.nodes[id as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node, sup: u128) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.sup.push(sup);
        self.map.insert(n, i);
        i
    }
    pub fn var(&mut self, v: u32) -> Id {
        self.map_of(v, 8, |x| x as u64)
    }
    /// canonical single-variable expression
    pub fn map_of(&mut self, v: u32, w: u32, f: impl Fn(usize) -> u64) -> Id {
        debug_assert!(w <= 64);
        let first = f(0);
        let mut all = true;
        let tab = if w == 1 {
            let mut b = [0u64; 4];
            for i in 0..256 {
                let x = f(i);
                if x != first {
                    all = false
                }
                b[i >> 6] |= x << (i & 63);
            }
            Tab::B(b)
        } else if w <= 8 {
            let mut b = Box::new([0u8; 256]);
            for i in 0..256 {
                let x = f(i);
                if x != first {
                    all = false
                }
                b[i] = x as u8;
            }
            Tab::U8(b)
        } else {
            let mut b = Box::new([0u64; 256]);
            for i in 0..256 {
                let x = f(i);
                if x != first {
                    all = false
                }
                b[i] = x;
            }
            Tab::U64(b)
        };
        if all {
            return self.konst(first as u128, w);
        }
        let ti = match self.tabmap.get(&tab) {
            Some(&t) => t,
            None => {
                let i = self.tabs.len() as u32;
                let r = Rc::new(tab);
                self.tabs.push(r.clone());
                self.tabmap.insert(r, i);
                i
            }
        };
        self.intern(Node { op: Op::Map, w: w as u8, a: v, b: ti, c: 0 }, 1u128 << v)
    }
    pub fn tab(&self, id: Id) -> Option<(u32, Rc<Tab>)> {
        let n = &self.nodes[id as usize];
        if n.op == Op::Map {
            Some((n.a, self.tabs[n.b as usize].clone()))
        } else {
            None
        }
    }
    fn single(&self, sup: u128) -> Option<u32> {
        if sup != 0 && sup & (sup - 1) == 0 {
            Some(sup.trailing_zeros())
        } else {
            None
        }
    }
    fn leaf_get(&self, id: Id) -> Leaf {
        let n = &self.nodes[id as usize];
        match n.op {
            Op::Const => Leaf::C(self.consts[n.a as usize]),
            Op::Map => Leaf::T(self.tabs[n.b as usize].clone()),
            _ => Leaf::X,
        }
    }
    fn try_map3(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id) -> Option<Id> {
        let sup = self.sup[a as usize]
            | if b != 0 { self.sup[b as usize] } else { 0 }
            | if c != 0 { self.sup[c as usize] } else { 0 };
        let v = self.single(sup)?;
        if w > 64 {
            return None;
        }
        let la = self.leaf_get(a);
        let lb = if b != 0 { self.leaf_get(b) } else { Leaf::C(0) };
        let lc = if c != 0 { self.leaf_get(c) } else { Leaf::C(0) };
        if la.is_x() || lb.is_x() || lc.is_x() {
            return None;
        }
        let aw = self.w(a);
        Some(self.map_of(v, w, |i| fold(op, w, aw, la.at(i), lb.at(i), lc.at(i)) as u64))
    }

    pub fn bin(&mut self, op: Op, w: u32, a: Id, b: Id) -> Id {
        // w = result width
        let aw = self.w(a);
        debug_assert!(aw == self.w(b), "width mismatch {:?} {} {}", op, aw, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(op, w, aw, x, y, 0);
            return self.konst(r, w);
        }
        if let Some(r) = self.try_map3(op, w, a, b, 0) {
            return r;
        }
        let m = mask(aw);
        match op {
            Op::Add | Op::Or | Op::Xor => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if op == Op::Or && (ca == Some(m) || cb == Some(m)) {
                    return self.konst(m, w);
                }
                if op == Op::Or && a == b {
                    return a;
                }
                if op == Op::Xor && a == b {
                    return self.konst(0, w);
                }
            }
            Op::And => {
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if ca == Some(m) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                // and with a low mask => zext(extract)
                if let Some(k) = cb {
                    let t = (k.wrapping_add(1)) & mask(w);
                    if k != 0 && k & t == 0 && t != 0 {
                        let lw = k.count_ones();
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
            }
            Op::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::Shl | Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        let hi = self.extract(a, k, w - k);
                        return self.zext(hi, w);
                    } else {
                        let lo = self.extract(a, 0, w - k);
                        let z = self.konst(0, k);
                        return self.concat(lo, z);
                    }
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                return self.mk_eq(a, b);
            }
            Op::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                if cb == Some(0) {
                    return self.konst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.konst(0, aw);
                    return self.bin(Op::Eq, 1, a, z);
                }
                if let (Op::ZExt, Some(k)) = (self.nodes[a as usize].op, cb) {
                    let x = self.nodes[a as usize].a;
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(Op::Ult, 1, x, kk);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
            }
            _ => {}
        }
        // or of disjoint zext/concat pieces: keep as is
        if op == Op::Or {
            if let Some(r) = self.or_pieces(a, b, w) {
                return r;
            }
        }
        // distribute over ite with constant leaves
        if let (Op::Ite, Some(_)) = (self.nodes[a as usize].op, cb) {
            let n = self.nodes[a as usize];
            if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let x = self.bin(op, w, n.b, b);
                let y = self.bin(op, w, n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let sup = self.sup[a as usize] | self.sup[b as usize];
        self.intern(Node { op, w: w as u8, a, b, c: 0 }, sup)
    }
    /// `x | y` where one has zero low part covered by the other: turn into concat
    fn or_pieces(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        for (x, y) in [(a, b), (b, a)] {
            let n = self.nodes[x as usize];
            if n.op == Op::Concat {
                if self.is_const(n.b) == Some(0) {
                    let k = self.w(n.b);
                    // y must fit in k low bits
                    let ny = self.nodes[y as usize];
                    if ny.op == Op::ZExt && self.w(ny.a) <= k {
                        let lo = self.zext(ny.a, k);
                        return Some(self.concat(n.a, lo));
                    }
                    if ny.op == Op::Concat {
                        if let Some(0) = self.is_const(ny.a) {
                            if self.w(ny.b) <= k {
                                let lo = self.zext(ny.b, k);
                                return Some(self.concat(n.a, lo));
                            }
                        }
                    }
                }
                // zext'ed concat: concat(0.., concat(..))
            }
            if n.op == Op::ZExt {
                let inner = self.nodes[n.a as usize];
                if inner.op == Op::Concat && self.is_const(inner.b) == Some(0) {
                    let k = self.w(inner.b);
                    let ny = self.nodes[y as usize];
                    if ny.op == Op::ZExt && self.w(ny.a) <= k {
                        let lo = self.zext(ny.a, k);
                        let c = self.concat(inner.a, lo);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }
    fn mk_eq(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        let n = self.nodes[a as usize];
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            match n.op {
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.konst(k >> lw, w - lw);
                    let lk = self.konst(k & mask(lw), lw);
                    let h = self.bin(Op::Eq, 1, n.a, hk);
                    let l = self.bin(Op::Eq, 1, n.b, lk);
                    return self.bin(Op::And, 1, h, l);
                }
                Op::ZExt => {
                    let xw = self.w(n.a);
                    if k > mask(xw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(Op::Eq, 1, n.a, kk);
                }
                Op::SExt => {
                    let xw = self.w(n.a);
                    let t = (sx(k & mask(xw), xw) as u128) & mask(w);
                    if t != k {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(Op::Eq, 1, n.a, kk);
                }
                Op::Ite => {
                    let bc = self.is_const(n.b);
                    let cc = self.is_const(n.c);
                    if bc.is_some() || cc.is_some() {
                        let x = self.bin(Op::Eq, 1, n.b, b);
                        let y = self.bin(Op::Eq, 1, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.is_const(n.b) {
                        let kk = self.konst(x ^ k, w);
                        return self.bin(Op::Eq, 1, n.a, kk);
                    }
                    if let Some(x) = self.is_const(n.a) {
                        let kk = self.konst(x ^ k, w);
                        return self.bin(Op::Eq, 1, n.b, kk);
                    }
                    if k == 0 && w > 1 {
                        return self.bin(Op::Eq, 1, n.a, n.b);
                    }
                }
                Op::Add => {
                    if let Some(x) = self.is_const(n.b) {
                        let kk = self.konst(k.wrapping_sub(x), w);
                        return self.bin(Op::Eq, 1, n.a, kk);
                    }
                    if let Some(x) = self.is_const(n.a) {
                        let kk = self.konst(k.wrapping_sub(x), w);
                        return self.bin(Op::Eq, 1, n.b, kk);
                    }
                }
                Op::Or if k == 0 => {
                    let z = b;
                    let x = self.bin(Op::Eq, 1, n.a, z);
                    let y = self.bin(Op::Eq, 1, n.b, z);
                    return self.bin(Op::And, 1, x, y);
                }
                _ => {}
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
        } else {
            let m = self.nodes[b as usize];
            if n.op == Op::Concat && m.op == Op::Concat && self.w(n.b) == self.w(m.b) {
                let h = self.bin(Op::Eq, 1, n.a, m.a);
                let l = self.bin(Op::Eq, 1, n.b, m.b);
                return self.bin(Op::And, 1, h, l);
            }
            if n.op == Op::ZExt && m.op == Op::ZExt && self.w(n.a) == self.w(m.a) {
                return self.bin(Op::Eq, 1, n.a, m.a);
            }
        }
        let (x, y) = if a > b { (b, a) } else { (a, b) };
        let sup = self.sup[a as usize] | self.sup[b as usize];
        self.intern(Node { op: Op::Eq, w: 1, a: x, b: y, c: 0 }, sup)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.nodes[a as usize];
        if n.op == Op::Xor {
            if self.is_const(n.a) == Some(1) {
                return n.b;
            }
            if self.is_const(n.b) == Some(1) {
                return n.a;
            }
        }
        let one = self.konst(1, 1);
        self.bin(Op::Xor, 1, a, one)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(k) = self.is_const(c) {
            return if k & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(r) = self.try_map3(Op::Ite, w, c, a, b) {
            return r;
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, 1, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, 1, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, 1, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        let sup = self.sup[a as usize] | self.sup[b as usize] | self.sup[c as usize];
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b }, sup)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(k, w);
        }
        if let Some(r) = self.try_map3(Op::ZExt, w, a, 0, 0) {
            return r;
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        let sup = self.sup[a as usize];
        self.intern(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0 }, sup)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(sx(k, aw) as u128, w);
        }
        if let Some(r) = self.try_map3(Op::SExt, w, a, 0, 0) {
            return r;
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        let sup = self.sup[a as usize];
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 }, sup)
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(k) = self.is_const(a) {
            return self.konst(k >> lo, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::Map {
            let t = self.tabs[n.b as usize].clone();
            let m = mask(w) as u64;
            return self.map_of(n.a, w, |i| (t.get(i) >> lo) & m);
        }
        match n.op {
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let xw = self.w(n.a);
                if lo >= xw {
                    return self.konst(0, w);
                }
                if lo + w <= xw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, xw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let xw = self.w(n.a);
                if lo + w <= xw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Extract => {
                return self.extract(n.a, n.b + lo, w);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, w, x, y);
            }
            _ => {}
        }
        let sup = self.sup[a as usize];
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 }, sup)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.is_const(h), self.is_const(l)) {
            return self.konst((x << lw) | y, w);
        }
        if self.is_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let sup = self.sup[h as usize] | self.sup[l as usize];
        if w <= 64 {
            if let Some(v) = self.single(sup) {
                let (a, b) = (self.leaf_get(h), self.leaf_get(l));
                if !a.is_x() && !b.is_x() {
                    return self.map_of(v, w, |i| ((a.at(i) << lw) | b.at(i)) as u64);
                }
            }
        }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nl.a, nl.b, w);
        }
        self.intern(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0 }, sup)
    }

    /// evaluate under a model
    pub fn eval(&mut self, id: Id, model: &[u8]) -> u128 {
        let n = self.nodes[id as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Map => return self.tabs[n.b as usize].get(model[n.a as usize] as usize) as u128,
            _ => {}
        }
        self.cur = self.cur.wrapping_add(1);
        if self.stamp.len() < self.nodes.len() {
            let l = self.nodes.len() + 1024;
            self.stamp.resize(l, 0);
            self.val.resize(l, 0);
        }
        self.ev(id, model)
    }
    fn ev(&mut self, id: Id, m: &[u8]) -> u128 {
        let n = self.nodes[id as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Map => return self.tabs[n.b as usize].get(m[n.a as usize] as usize) as u128,
            _ => {}
        }
        if self.stamp[id as usize] == self.cur {
            return self.val[id as usize];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, m) & 1 == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Concat => {
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => {
                let v = self.ev(n.a, m);
                (sx(v, self.w(n.a)) as u128) & mask(w)
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                fold(n.op, w, self.w(n.a), a, b, 0)
            }
        };
        self.stamp[id as usize] = self.cur;
        self.val[id as usize] = r;
        r
    }
    /// truth table of a 1-bit single-variable expression
    pub fn truth(&self, id: Id) -> Option<(u32, Dom)> {
        let n = &self.nodes[id as usize];
        if n.op == Op::Map {
            if let Tab::B(b) = &*self.tabs[n.b as usize] {
                return Some((n.a, *b));
            }
        }
        None
    }
}

enum Leaf {
    C(u128),
    T(Rc<Tab>),
    X,
}
impl Leaf {
    fn is_x(&self) -> bool {
        matches!(self, Leaf::X)
    }
    #[inline]
    fn at(&self, i: usize) -> u128 {
        match self {
            Leaf::C(c) => *c,
            Leaf::T(t) => t.get(i) as u128,
            Leaf::X => unreachable!(),
        }
    }
}
