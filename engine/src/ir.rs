//! Module index, types, constants and the lazy function decoder for textual LLVM IR.

use crate::lex::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
pub type FnId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    FP128,
    Array(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vec(u32, Ty),
    Label,
    Meta,
    Func(Ty, Vec<Ty>),
    Opaque,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub k: TyK,
    pub size: u64, // alloc size
    pub align: u64,
    pub slots: u32,
    pub offs: Rc<Vec<u64>>, // struct field offsets
}

#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub lo: u64,
    pub hi: u64,
    pub sym: u32,
}
impl V {
    #[inline]
    pub fn c(v: u64) -> V {
        V { lo: v, hi: 0, sym: 0 }
    }
    #[inline]
    pub fn c128(v: u128) -> V {
        V { lo: v as u64, hi: (v >> 64) as u64, sym: 0 }
    }
    #[inline]
    pub fn u(&self) -> u128 {
        self.lo as u128 | ((self.hi as u128) << 64)
    }
}

pub type Opd = i32; // >=0 register slot, <0 constant index !x

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum C {
    Trunc,
    ZExt,
    SExt,
    Bit, // ptrtoint / inttoptr / bitcast of equal width scalars
}

#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Opd, u32)>,
    pub bb: u32,
}

#[derive(Debug)]
pub enum Callee {
    Fn(FnId),
    Ptr(Opd),
    Ext(&'static str), // hooked or intrinsic name
}

#[derive(Debug)]
pub struct Call {
    pub callee: Callee,
    pub ext: u32, // resolved extern handler (0 = none)
    pub args: Vec<(Opd, u32, u32)>, // operand, slots, width of first slot
    pub dst: u32,
    pub rslots: u32,
    pub rw: u32, // width of first result slot
    pub rlanes: u32,
    pub cont: Option<Edge>, // invoke
}

#[derive(Debug)]
pub enum I {
    Bin { op: B, w: u32, d: u32, a: Opd, b: Opd, n: u32 },
    Icmp { p: P, w: u32, d: u32, a: Opd, b: Opd, n: u32 },
    FBin { op: &'static str, w: u32, d: u32, a: Opd, b: Opd },
    Fcmp { p: &'static str, w: u32, d: u32, a: Opd, b: Opd },
    FCast { op: &'static str, fw: u32, tw: u32, d: u32, a: Opd },
    FNeg { w: u32, d: u32, a: Opd },
    Cast { op: C, fw: u32, tw: u32, d: u32, a: Opd, n: u32 },
    BitV { d: u32, a: Opd, fw: u32, fl: u32, tw: u32, tl: u32 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, n: u32, vec: bool, ws: Rc<Vec<(u32, u32)>> },
    Load1 { d: u32, w: u32, p: Opd },
    LoadN { d: u32, leaves: Rc<Vec<(u32, u32)>>, p: Opd },
    Store1 { v: Opd, w: u32, p: Opd },
    StoreN { v: Opd, leaves: Rc<Vec<(u32, u32)>>, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Alloca { d: u32, size: u64, align: u64, cnt: Opd },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u32, v: Opd, cases: Vec<(u128, u32)>, edges: Vec<Edge> }, // edges[0] default
    Ret { v: Opd, n: u32 },
    Unreachable,
    Call(Box<Call>),
    Copy { d: u32, a: Opd, n: u32 },
    ExtractElt { d: u32, a: Opd, idx: Opd, lanes: u32, sl: u32 },
    InsertElt { d: u32, a: Opd, v: Opd, idx: Opd, lanes: u32, sl: u32 },
    Shuffle { d: u32, a: Opd, b: Opd, lanes: u32, mask: Vec<i32>, sl: u32 },
    Rmw { op: &'static str, w: u32, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, d: u32, p: Opd, c: Opd, n: Opd },
    Nop,
    Bad(String),
}

pub struct Func {
    pub id: FnId,
    pub name: &'static str,
    pub code: Vec<I>,
    pub consts: Vec<V>,
    pub nregs: u32,
    pub args: Vec<(u32, u32)>, // slot, count
    pub nargslots: u32,
}

pub struct FnSlot {
    pub name: &'static str,
    pub module: u32,
    pub at: usize,
    pub end: usize,
    pub dec: Option<&'static Func>,
    pub ext: u32, // hook id replacing the body
}

#[derive(Clone, Copy)]
enum Sym {
    Fn(FnId),
    Global(usize), // offset of the text after '='
    Alias(usize),
    DeclFn,
    DeclGlobal,
}

struct Module {
    text: &'static str,
    syms: HashMap<&'static str, Sym>,
    types: HashMap<&'static str, usize>, // offset after "type"
    tycache: HashMap<&'static str, Ty>,
}

pub struct Prog {
    mods: Vec<Module>,
    global: HashMap<&'static str, (u32, Sym)>,
    pub fns: Vec<FnSlot>,
    pub tys: Vec<TyInfo>,
    tymap: HashMap<TyK, Ty>,
    gaddr: HashMap<(u32, &'static str), u64>, // (module, name) -> address (module of definition)
    pub base: crate::mem::Base,
    pub ext_lookup: fn(&str) -> u32,
    pub unresolved: Vec<String>,
    pub gnames: Vec<(u64, u64, &'static str)>,
}

pub const FN_BASE: u64 = 0xE000_0000;

impl Prog {
    pub fn new(ext_lookup: fn(&str) -> u32) -> Prog {
        Prog {
            mods: vec![],
            global: HashMap::new(),
            fns: vec![],
            tys: vec![],
            tymap: HashMap::new(),
            gaddr: HashMap::new(),
            base: crate::mem::Base::new(),
            ext_lookup,
            unresolved: vec![],
            gnames: vec![],
        }
    }

    // ---------------------------------------------------------------- types
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.tymap.get(&k) {
            return t;
        }
        let mut offs = vec![];
        let (size, align, slots) = match &k {
            TyK::Void | TyK::Label | TyK::Meta | TyK::Func(..) | TyK::Opaque => (0, 1, 0),
            TyK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a, 1)
            }
            TyK::Ptr => (8, 8, 1),
            TyK::Half => (2, 2, 1),
            TyK::Float => (4, 4, 1),
            TyK::Double => (8, 8, 1),
            TyK::FP128 => (16, 16, 1),
            TyK::Array(n, t) => {
                let i = &self.tys[*t as usize];
                (i.size * n, i.align, (i.slots as u64 * n) as u32)
            }
            TyK::Vec(n, t) => {
                let i = &self.tys[*t as usize];
                let bits = if let TyK::Int(w) = i.k { w as u64 * *n as u64 } else { i.size * 8 * *n as u64 };
                let s = ((bits + 7) / 8).next_power_of_two();
                (s, s.max(1), i.slots * n)
            }
            TyK::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                let mut sl = 0u64;
                for t in f {
                    let i = &self.tys[*t as usize];
                    let a = if *packed { 1 } else { i.align };
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                    sl += i.slots as u64;
                }
                ((o + al - 1) / al * al, al, sl as u32)
            }
        };
        let id = self.tys.len() as Ty;
        self.tys.push(TyInfo { k: k.clone(), size, align, slots, offs: Rc::new(offs) });
        self.tymap.insert(k, id);
        id
    }
    pub fn info(&self, t: Ty) -> &TyInfo {
        &self.tys[t as usize]
    }
    pub fn slots(&self, t: Ty) -> u32 {
        self.tys[t as usize].slots
    }
    /// width in bits of a scalar type
    pub fn width(&self, t: Ty) -> u32 {
        match self.tys[t as usize].k {
            TyK::Int(w) => w,
            TyK::Ptr => 64,
            TyK::Half => 16,
            TyK::Float => 32,
            TyK::Double => 64,
            TyK::FP128 => 128,
            _ => 0,
        }
    }
    pub fn elem(&self, t: Ty) -> (u32, Ty) {
        // lanes, lane type
        match self.tys[t as usize].k {
            TyK::Vec(n, e) => (n, e),
            _ => (1, t),
        }
    }
    /// flattened leaves: (byte offset, bit width)
    pub fn leaves(&self, t: Ty, at: u64, out: &mut Vec<(u32, u32)>) {
        let i = &self.tys[t as usize];
        match &i.k {
            TyK::Array(n, e) => {
                let s = self.tys[*e as usize].size;
                for j in 0..*n {
                    self.leaves(*e, at + j * s, out);
                }
            }
            TyK::Vec(n, e) => {
                let s = self.tys[*e as usize].size;
                for j in 0..*n as u64 {
                    self.leaves(*e, at + j * s, out);
                }
            }
            TyK::Struct(f, _) => {
                for (j, e) in f.iter().enumerate() {
                    self.leaves(*e, at + i.offs[j], out);
                }
            }
            _ => {
                if i.slots == 1 {
                    out.push((at as u32, self.width(t)));
                }
            }
        }
    }

    pub fn parse_type(&mut self, m: u32, l: &mut Lex) -> Ty {
        let mut t = self.parse_type1(m, l);
        // function type
        while l.peek().is("(") {
            l.next();
            let mut ps = vec![];
            while !l.eat(")") {
                if l.peek().is("...") {
                    l.next();
                } else {
                    let p = self.parse_type(m, l);
                    ps.push(p);
                }
                l.eat(",");
            }
            t = self.ty(TyK::Func(t, ps));
        }
        t
    }
    fn parse_type1(&mut self, m: u32, l: &mut Lex) -> Ty {
        let t = l.next();
        match t.k {
            K::Word => match t.s {
                "void" => self.ty(TyK::Void),
                "ptr" => {
                    if l.peek().is("addrspace") {
                        l.next();
                        l.skip_parens();
                    }
                    self.ty(TyK::Ptr)
                }
                "half" => self.ty(TyK::Half),
                "float" => self.ty(TyK::Float),
                "double" => self.ty(TyK::Double),
                "fp128" => self.ty(TyK::FP128),
                "label" => self.ty(TyK::Label),
                "metadata" => self.ty(TyK::Meta),
                "opaque" => self.ty(TyK::Opaque),
                s if s.starts_with('i') => {
                    let w: u32 = s[1..].parse().unwrap_or_else(|_| panic!("bad type {} near {}", s, l.context()));
                    self.ty(TyK::Int(w))
                }
                s => panic!("bad type {} near {}", s, l.context()),
            },
            K::Punct if t.s == "[" => {
                let n: u64 = l.word().parse().unwrap();
                l.expect("x");
                let e = self.parse_type(m, l);
                l.expect("]");
                self.ty(TyK::Array(n, e))
            }
            K::Punct if t.s == "{" => {
                let mut f = vec![];
                while !l.eat("}") {
                    let e = self.parse_type(m, l);
                    f.push(e);
                    l.eat(",");
                }
                self.ty(TyK::Struct(f, false))
            }
            K::Punct if t.s == "<" => {
                if l.eat("{") {
                    let mut f = vec![];
                    while !l.eat("}") {
                        let e = self.parse_type(m, l);
                        f.push(e);
                        l.eat(",");
                    }
                    l.expect(">");
                    return self.ty(TyK::Struct(f, true));
                }
                let n: u32 = l.word().parse().unwrap();
                l.expect("x");
                let e = self.parse_type(m, l);
                l.expect(">");
                self.ty(TyK::Vec(n, e))
            }
            K::Local => {
                if let Some(&t) = self.mods[m as usize].tycache.get(t.s) {
                    return t;
                }
                let off = *self.mods[m as usize].types.get(t.s).unwrap_or_else(|| panic!("unknown type {}", t.s));
                let text = self.mods[m as usize].text;
                let mut l2 = Lex::new(text, off, text.len());
                let r = self.parse_type(m, &mut l2);
                self.mods[m as usize].tycache.insert(t.s, r);
                r
            }
            _ => panic!("bad type token {:?} near {}", t, l.context()),
        }
    }

    // ---------------------------------------------------------------- modules
    pub fn load(&mut self, path: &str) {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}")).into_boxed_str());
        let mi = self.mods.len() as u32;
        let mut m = Module { text, syms: HashMap::new(), types: HashMap::new(), tycache: HashMap::new() };
        let b = text.as_bytes();
        let mut p = 0usize;
        while p < b.len() {
            let eol = memchr(b, p, b'\n');
            match b[p] {
                b'%' => {
                    let mut l = Lex::new(text, p, eol);
                    let n = l.next();
                    l.expect("=");
                    l.expect("type");
                    m.types.insert(n.s, l.p);
                }
                b'@' => {
                    let mut l = Lex::new(text, p, eol);
                    let n = l.next();
                    l.expect("=");
                    let at = l.p;
                    // scan head words
                    let mut internal = false;
                    let mut kind = Sym::Global(at);
                    loop {
                        let t = l.next();
                        match t.s {
                            "private" | "internal" => internal = true,
                            "external" | "extern_weak" => kind = Sym::DeclGlobal,
                            "global" | "constant" => break,
                            "alias" | "ifunc" => {
                                kind = Sym::Alias(l.p);
                                break;
                            }
                            _ => {
                                if t.k == K::Eof {
                                    break;
                                }
                            }
                        }
                    }
                    m.syms.insert(n.s, kind);
                    if !internal && !matches!(kind, Sym::DeclGlobal) {
                        self.global.entry(n.s).or_insert((mi, kind));
                    }
                }
                b'd' if text[p..].starts_with("define ") => {
                    let mut l = Lex::new(text, p, eol);
                    let mut internal = false;
                    let name;
                    loop {
                        let t = l.next();
                        if t.k == K::Global {
                            name = t.s;
                            break;
                        }
                        if t.s == "internal" || t.s == "private" {
                            internal = true
                        }
                        if t.k == K::Eof {
                            panic!("define without name")
                        }
                    }
                    // find end "\n}\n"
                    let mut q = eol;
                    while !(q + 1 < b.len() && b[q] == b'\n' && b[q + 1] == b'}') {
                        q = memchr(b, q + 1, b'\n');
                        if q >= b.len() {
                            panic!("unterminated function {name}")
                        }
                    }
                    let id = self.fns.len() as FnId;
                    let ext = (self.ext_lookup)(name);
                    self.fns.push(FnSlot { name, module: mi, at: p, end: q + 1, dec: None, ext });
                    m.syms.insert(name, Sym::Fn(id));
                    if !internal {
                        self.global.entry(name).or_insert((mi, Sym::Fn(id)));
                    }
                    p = q + 2;
                    continue;
                }
                b'd' if text[p..].starts_with("declare ") => {
                    let mut l = Lex::new(text, p, eol);
                    loop {
                        let t = l.next();
                        if t.k == K::Global {
                            m.syms.entry(t.s).or_insert(Sym::DeclFn);
                            break;
                        }
                        if t.k == K::Eof {
                            break;
                        }
                    }
                }
                _ => {}
            }
            p = eol + 1;
        }
        self.mods.push(m);
    }

    fn lookup(&self, m: u32, name: &str) -> Option<(u32, Sym)> {
        match self.mods[m as usize].syms.get(name) {
            Some(s @ (Sym::Fn(_) | Sym::Global(_) | Sym::Alias(_))) => {
                // prefer the program-wide definition for external symbols so that all modules agree
                if let Some(&(gm, gs)) = self.global.get(name) {
                    let own_internal = match (s, gs) {
                        (Sym::Fn(_), _) | (Sym::Global(_), _) => self.is_internal(m, name),
                        _ => false,
                    };
                    if !own_internal {
                        return Some((gm, gs));
                    }
                }
                Some((m, *s))
            }
            _ => self.global.get(name).copied(),
        }
    }
    fn is_internal(&self, m: u32, name: &str) -> bool {
        let md = &self.mods[m as usize];
        match md.syms.get(name) {
            Some(Sym::Fn(id)) => {
                let s = &self.fns[*id as usize];
                let line = &md.text[s.at..(s.at + 40).min(md.text.len())];
                line.contains(" internal ") || line.contains(" private ")
            }
            Some(Sym::Global(at)) => {
                let mut e = (*at + 30).min(md.text.len());
                while !md.text.is_char_boundary(e) {
                    e -= 1
                }
                let line = &md.text[*at..e];
                line.trim_start().starts_with("internal") || line.trim_start().starts_with("private")
            }
            _ => false,
        }
    }

    pub fn find_fn(&self, name: &str) -> Option<FnId> {
        match self.global.get(name) {
            Some((_, Sym::Fn(id))) => Some(*id),
            _ => None,
        }
    }

    /// address of the global whose name contains this
    pub fn global_named(&mut self, suffix: &str) -> Option<u64> {
        let mut hit = None;
        for (m, md) in self.mods.iter().enumerate() {
            for (n, s) in &md.syms {
                if n.contains(suffix) && matches!(s, Sym::Global(_)) {
                    hit = Some((m as u32, *n));
                }
            }
        }
        let (m, n) = hit?;
        Some(self.addr_of(m, n))
    }

    /// address of a symbol referenced from module m
    fn addr_of(&mut self, m: u32, name: &'static str) -> u64 {
        match self.lookup(m, name) {
            Some((_, Sym::Fn(id))) => FN_BASE + id as u64 * 16,
            Some((dm, Sym::Global(at))) => {
                if let Some(&a) = self.gaddr.get(&(dm, name)) {
                    return a;
                }
                self.materialize(dm, name, at)
            }
            Some((dm, Sym::Alias(at))) => {
                let text = self.mods[dm as usize].text;
                let eol = memchr(text.as_bytes(), at, b'\n');
                let mut l = Lex::new(text, at, eol);
                let _ = self.parse_type(dm, &mut l);
                l.eat(",");
                let ty = self.ty(TyK::Ptr);
                let _ = self.parse_type(dm, &mut l);
                let mut out = vec![];
                self.parse_const(dm, ty, &mut l, &mut out);
                out[0].lo
            }
            Some((_, Sym::DeclFn)) | None if matches!(self.mods[m as usize].syms.get(name), Some(Sym::DeclFn)) => {
                // unresolved function used as a value: give it a slot
                if let Some(&a) = self.gaddr.get(&(u32::MAX, name)) {
                    return a;
                }
                let id = self.fns.len() as FnId;
                let ext = (self.ext_lookup)(name);
                self.fns.push(FnSlot { name, module: u32::MAX, at: 0, end: 0, dec: None, ext });
                let a = FN_BASE + id as u64 * 16;
                self.gaddr.insert((u32::MAX, name), a);
                a
            }
            _ => {
                if let Some(&a) = self.gaddr.get(&(u32::MAX, name)) {
                    return a;
                }
                let a = self.base.alloc_global(64, 16, false);
                self.unresolved.push(name.to_string());
                self.gaddr.insert((u32::MAX, name), a);
                a
            }
        }
    }

    fn materialize(&mut self, dm: u32, name: &'static str, at: usize) -> u64 {
        let text = self.mods[dm as usize].text;
        let eol = memchr(text.as_bytes(), at, b'\n');
        let mut l = Lex::new(text, at, eol);
        let constant;
        loop {
            let t = l.next();
            match t.s {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "thread_local" | "addrspace" | "unnamed_addr" | "local_unnamed_addr" => l.skip_parens(),
                _ => {}
            }
            if t.k == K::Eof {
                panic!("bad global {name}")
            }
        }
        let ty = self.parse_type(dm, &mut l);
        // alignment is at the end of the line: ", align N"
        let line = &text[at..eol];
        let align = match line.rfind(", align ") {
            Some(i) => line[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(16),
            None => 16,
        };
        let size = self.info(ty).size.max(1);
        let a = self.base.alloc_global(size, align, constant);
        self.gaddr.insert((dm, name), a);
        self.gnames.push((a, size, name));
        // initializer, directly as bytes
        self.init_bytes(dm, ty, &mut l, a);
        a
    }

    /// write a constant of type ty to memory at address a
    fn init_bytes(&mut self, m: u32, ty: Ty, l: &mut Lex, a: u64) {
        let k = self.info(ty).k.clone();
        let t = l.peek();
        if t.k == K::CStr {
            l.next();
            let b = unescape(t.s);
            self.base.write(a, &b);
            return;
        }
        if t.k == K::Word && matches!(t.s, "zeroinitializer" | "undef" | "poison") {
            l.next();
            return;
        }
        match k {
            TyK::Array(n, e) => {
                let s = self.info(e).size;
                l.expect("[");
                for i in 0..n {
                    let et = self.parse_type(m, l);
                    self.init_bytes(m, et, l, a + i * s);
                    l.eat(",");
                }
                l.expect("]");
            }
            TyK::Struct(f, packed) => {
                if packed {
                    l.expect("<");
                }
                l.expect("{");
                let offs = self.info(ty).offs.clone();
                for i in 0..f.len() {
                    let et = self.parse_type(m, l);
                    self.init_bytes(m, et, l, a + offs[i]);
                    l.eat(",");
                }
                l.expect("}");
                if packed {
                    l.expect(">");
                }
            }
            _ => {
                let mut out = vec![];
                self.parse_const(m, ty, l, &mut out);
                let mut lv = vec![];
                self.leaves(ty, 0, &mut lv);
                for (i, (o, w)) in lv.iter().enumerate() {
                    let n = ((*w + 7) / 8) as usize;
                    let b = out[i].u().to_le_bytes();
                    self.base.write(a + *o as u64, &b[..n]);
                }
            }
        }
    }

    /// parse a constant value of type `ty` into flattened slots
    pub fn parse_const(&mut self, m: u32, ty: Ty, l: &mut Lex, out: &mut Vec<V>) {
        let k = self.info(ty).k.clone();
        let t = l.next();
        match t.k {
            K::CStr => {
                for b in unescape(t.s) {
                    out.push(V::c(b as u64));
                }
            }
            K::Global => {
                let a = self.addr_of(m, t.s);
                out.push(V::c(a));
            }
            K::Word => match t.s {
                "zeroinitializer" | "undef" | "poison" => {
                    for _ in 0..self.slots(ty) {
                        out.push(V::c(0));
                    }
                }
                "null" | "false" | "none" => out.push(V::c(0)),
                "true" => out.push(V::c(1)),
                "splat" => {
                    l.expect("(");
                    let et = self.parse_type(m, l);
                    let mut o = vec![];
                    self.parse_const(m, et, l, &mut o);
                    l.expect(")");
                    if let TyK::Vec(n, _) = k {
                        for _ in 0..n {
                            out.extend_from_slice(&o);
                        }
                    }
                }
                "getelementptr" => {
                    while !l.peek().is("(") {
                        l.next();
                        // inrange(a,b)
                        if l.peek().is("(") {
                            // could be inrange parens or the gep's own: inrange is a Word before
                            break;
                        }
                    }
                    // handle "inrange(..)" flags: detect by the content starting with a number
                    loop {
                        let mut l2 = l.clone();
                        l2.expect("(");
                        let n = l2.peek();
                        let isnum = n.k == K::Word && (n.s.starts_with('-') || n.s.as_bytes()[0].is_ascii_digit());
                        if isnum {
                            l.skip_parens();
                            while !l.peek().is("(") {
                                l.next();
                            }
                            continue;
                        }
                        break;
                    }
                    l.expect("(");
                    let et = self.parse_type(m, l);
                    l.expect(",");
                    let pt = self.parse_type(m, l);
                    let mut b = vec![];
                    self.parse_const(m, pt, l, &mut b);
                    let mut addr = b[0].lo;
                    let mut cur = et;
                    let mut first = true;
                    while l.eat(",") {
                        let it = self.parse_type(m, l);
                        let mut iv = vec![];
                        self.parse_const(m, it, l, &mut iv);
                        let iw = self.width(it);
                        let i = crate::expr::sx(iv[0].u(), iw) as i64;
                        if first {
                            addr = addr.wrapping_add((i as u64).wrapping_mul(self.info(cur).size));
                            first = false;
                        } else {
                            match self.info(cur).k.clone() {
                                TyK::Struct(f, _) => {
                                    addr += self.info(cur).offs[i as usize];
                                    cur = f[i as usize];
                                }
                                TyK::Array(_, e) | TyK::Vec(_, e) => {
                                    addr = addr.wrapping_add((i as u64).wrapping_mul(self.info(e).size));
                                    cur = e;
                                }
                                k => panic!("gep into {:?}", k),
                            }
                        }
                    }
                    l.expect(")");
                    out.push(V::c(addr));
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    l.expect("(");
                    let ft = self.parse_type(m, l);
                    let mut o = vec![];
                    self.parse_const(m, ft, l, &mut o);
                    l.expect("to");
                    let tt = self.parse_type(m, l);
                    l.expect(")");
                    let w = self.width(tt);
                    for v in o {
                        out.push(V::c128(v.u() & crate::expr::mask(w)));
                    }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while !l.peek().is("(") {
                        l.next();
                    }
                    l.expect("(");
                    let at = self.parse_type(m, l);
                    let mut a = vec![];
                    self.parse_const(m, at, l, &mut a);
                    l.expect(",");
                    let bt = self.parse_type(m, l);
                    let mut b = vec![];
                    self.parse_const(m, bt, l, &mut b);
                    l.expect(")");
                    let w = self.width(at);
                    use crate::expr::Op;
                    let op = match t.s {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "xor" => Op::Xor,
                        "mul" => Op::Mul,
                        "and" => Op::And,
                        "or" => Op::Or,
                        "shl" => Op::Shl,
                        _ => Op::LShr,
                    };
                    out.push(V::c128(crate::expr::fold(op, w, w, a[0].u(), b[0].u(), 0)));
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => panic!("constant {} unsupported", t.s),
                s => {
                    match k {
                        TyK::Int(w) => {
                            let v: u128 = if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) {
                                u128::from_str_radix(h, 16).unwrap()
                            } else if s.starts_with('-') {
                                s.parse::<i128>().unwrap_or_else(|_| panic!("int {}", s)) as u128
                            } else {
                                s.parse::<u128>().unwrap_or_else(|_| panic!("int {} near {}", s, l.context()))
                            };
                            out.push(V::c128(v & crate::expr::mask(w)));
                        }
                        TyK::Double => out.push(V::c(parse_f64(s).to_bits())),
                        TyK::Float => {
                            out.push(V::c((parse_f64(s) as f32).to_bits() as u64));
                        }
                        TyK::Half | TyK::FP128 => out.push(V::c(0)),
                        TyK::Ptr => panic!("ptr constant {} near {}", s, l.context()),
                        k => panic!("constant {} of {:?} near {}", s, k, l.context()),
                    }
                }
            },
            K::Punct => match t.s {
                "[" | "{" => {
                    let close = if t.s == "[" { "]" } else { "}" };
                    while !l.eat(close) {
                        let et = self.parse_type(m, l);
                        self.parse_const(m, et, l, out);
                        l.eat(",");
                    }
                }
                "<" => {
                    let st = l.eat("{");
                    while !(if st { l.peek().is("}") } else { l.peek().is(">") }) {
                        let et = self.parse_type(m, l);
                        self.parse_const(m, et, l, out);
                        l.eat(",");
                    }
                    if st {
                        l.expect("}");
                    }
                    l.expect(">");
                }
                _ => panic!("constant token {:?} near {}", t, l.context()),
            },
            _ => panic!("constant token {:?} near {}", t, l.context()),
        }
    }

    // ---------------------------------------------------------------- functions
    pub fn decode(&mut self, id: FnId) -> &'static Func {
        if let Some(f) = self.fns[id as usize].dec {
            return f;
        }
        let s = &self.fns[id as usize];
        let (m, at, end, name) = (s.module, s.at, s.end, s.name);
        let text = self.mods[m as usize].text;
        let mut d = Dec {
            p: self,
            m,
            l: Lex::new(text, at, end),
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            cmap: HashMap::new(),
            code: vec![],
            bbs: HashMap::new(),
            bbpc: vec![],
            phis: vec![],
        };
        let f = d.run(id, name);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[id as usize].dec = Some(f);
        f
    }
}

fn parse_f64(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h.trim_start_matches(['H', 'K', 'L', 'M', 'R']), 16).unwrap())
    } else if let Some(h) = s.strip_prefix("f0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        s.parse().unwrap_or_else(|_| panic!("float {s}"))
    }
}

pub fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    if from >= b.len() {
        return b.len();
    }
    extern "C" {
        fn memchr(p: *const u8, c: i32, n: usize) -> *const u8;
    }
    unsafe {
        let p = memchr(b.as_ptr().add(from), c as i32, b.len() - from);
        if p.is_null() {
            b.len()
        } else {
            p as usize - b.as_ptr() as usize
        }
    }
}

struct Dec<'a> {
    p: &'a mut Prog,
    m: u32,
    l: Lex,
    regs: HashMap<&'static str, (u32, u32)>,
    nregs: u32,
    consts: Vec<V>,
    cmap: HashMap<(u64, u64), i32>,
    code: Vec<I>,
    bbs: HashMap<&'static str, u32>,
    bbpc: Vec<u32>,
    phis: Vec<Vec<(u32, u32, Vec<(Opd, u32)>)>>, // per bb: dst, slots, [(operand, pred bb)]
}

fn bin_op(s: &str) -> Option<B> {
    Some(match s {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        _ => return None,
    })
}

impl<'a> Dec<'a> {
    fn reg(&mut self, name: &'static str, n: u32) -> u32 {
        if let Some(&(r, c)) = self.regs.get(name) {
            debug_assert!(c == n, "slot count mismatch for {}: {} vs {}", name, c, n);
            return r;
        }
        let r = self.nregs;
        self.nregs += n;
        self.regs.insert(name, (r, n));
        r
    }
    fn bb(&mut self, name: &'static str) -> u32 {
        if let Some(&b) = self.bbs.get(name) {
            return b;
        }
        let b = self.bbpc.len() as u32;
        self.bbs.insert(name, b);
        self.bbpc.push(u32::MAX);
        self.phis.push(vec![]);
        b
    }
    fn konst(&mut self, v: &[V]) -> Opd {
        if v.len() == 1 {
            if let Some(&i) = self.cmap.get(&(v[0].lo, v[0].hi)) {
                return i;
            }
        }
        // constants of multi-slot operands are stored in reverse so that !idx counts downwards
        // operand k-th slot = base - k  (base is negative)
        let base = self.consts.len();
        for x in v {
            self.consts.push(*x);
        }
        let o = !(base as i32);
        if v.len() == 1 {
            self.cmap.insert((v[0].lo, v[0].hi), o);
        }
        o
    }
    fn ty(&mut self) -> Ty {
        self.p.parse_type(self.m, &mut self.l)
    }
    fn val(&mut self, ty: Ty) -> Opd {
        let t = self.l.peek();
        if t.k == K::Local {
            self.l.next();
            let n = self.p.slots(ty);
            return self.reg(t.s, n) as Opd;
        }
        let mut out = vec![];
        self.p.parse_const(self.m, ty, &mut self.l, &mut out);
        debug_assert_eq!(out.len() as u32, self.p.slots(ty));
        if out.is_empty() {
            return 0;
        }
        self.konst(&out)
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        let v = self.val(t);
        (t, v)
    }
    fn edge(&mut self) -> Edge {
        self.l.expect("label");
        let t = self.l.next();
        let b = self.bb(t.s);
        Edge { pc: b, moves: vec![], bb: 0 }
    }
    fn flags(&mut self) {
        loop {
            let t = self.l.peek();
            if t.k == K::Word
                && matches!(
                    t.s,
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf"
                        | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
                )
            {
                self.l.next();
            } else {
                break;
            }
        }
    }
    fn is_value_start(t: &Tok) -> bool {
        match t.k {
            K::Local | K::Global | K::CStr => true,
            K::Punct => matches!(t.s, "<" | "{" | "["),
            K::Word => {
                let c = t.s.as_bytes()[0];
                c.is_ascii_digit()
                    || c == b'-'
                    || matches!(
                        t.s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint"
                            | "inttoptr" | "splat" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "ptrtoaddr" | "blockaddress"
                            | "addrspacecast"
                    )
                    || t.s.starts_with("f0x")
            }
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let t = self.l.peek();
            if Self::is_value_start(&t) {
                return;
            }
            if t.k == K::Word {
                self.l.next();
                if t.s == "align" {
                    if self.l.peek().is("(") {
                        self.l.skip_parens()
                    } else {
                        self.l.next();
                    }
                } else {
                    self.l.skip_parens();
                }
            } else if t.k == K::Str {
                self.l.next();
                if self.l.eat("=") {
                    self.l.next();
                }
            } else {
                return;
            }
        }
    }

    fn run(&mut self, id: FnId, name: &'static str) -> Func {
        // header
        self.l.expect("define");
        loop {
            let t = self.l.next();
            if t.k == K::Global {
                break;
            }
            if t.s == "dereferenceable" || t.s == "range" || t.s == "align" {
                self.l.skip_parens();
            }
        }
        self.l.expect("(");
        let mut args = vec![];
        let mut nargslots = 0;
        let mut unnamed = 0;
        while !self.l.eat(")") {
            if self.l.peek().is("...") {
                self.l.next();
                continue;
            }
            let t = self.ty();
            self.skip_attrs();
            let nm: &'static str = if self.l.peek().k == K::Local {
                self.l.next().s
            } else {
                let s: &'static str = Box::leak(format!("{unnamed}").into_boxed_str());
                s
            };
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            let n = self.p.slots(t);
            let r = self.reg(nm, n);
            args.push((r, n));
            nargslots += n;
            self.l.eat(",");
        }
        // skip to the opening brace at end of line
        loop {
            let t = self.l.next();
            if t.is("{") && self.l.at_eol() {
                break;
            }
            if t.k == K::Eof {
                panic!("no body in {name}")
            }
        }
        let first = self.l.peek();
        let entry: &'static str =
            if first.k == K::Label { first.s } else { Box::leak(format!("{unnamed}").into_boxed_str()) };
        let eb = self.bb(entry);
        let mut cur = eb;
        self.bbpc[eb as usize] = 0;
        let mut term_bb: Vec<(usize, u32)> = vec![]; // code index -> bb
        loop {
            let t = self.l.peek();
            match t.k {
                K::Eof => break,
                K::Label => {
                    self.l.next();
                    cur = self.bb(t.s);
                    self.bbpc[cur as usize] = self.code.len() as u32;
                    continue;
                }
                K::Punct if t.s == "}" => break,
                K::Attr => {
                    // #dbg_... record
                    self.l.skip_line();
                    continue;
                }
                _ => {}
            }
            let before = self.code.len();
            self.inst(cur);
            for i in before..self.code.len() {
                term_bb.push((i, cur));
            }
            // trailing metadata
            loop {
                let t = self.l.peek();
                if t.is(",") {
                    self.l.next();
                    continue;
                }
                if t.k == K::Meta {
                    self.l.next();
                    if self.l.peek().k == K::Punct && self.l.peek().s == "{" {
                        // inline metadata
                        while !self.l.eat("}") {
                            self.l.next();
                        }
                    }
                    continue;
                }
                if t.k == K::Attr {
                    if self.l.at_eol() {
                        break;
                    }
                    // attribute group after a call, still on the same line
                    let save = self.l.clone();
                    let a = self.l.next();
                    if a.s.starts_with("dbg_") {
                        self.l = save;
                        break;
                    }
                    continue;
                }
                break;
            }
        }
        // resolve edges
        let bbpc = self.bbpc.clone();
        let phis = std::mem::take(&mut self.phis);
        for (i, bb) in term_bb {
            let fix = |e: &mut Edge| {
                let target = e.pc;
                e.bb = target;
                e.pc = bbpc[target as usize];
                for (d, n, inc) in &phis[target as usize] {
                    for (o, pb) in inc {
                        if *pb == bb {
                            e.moves.push((*d, *o, *n));
                            break;
                        }
                    }
                }
            };
            match &mut self.code[i] {
                I::Br(e) => fix(e),
                I::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                I::Switch { edges, .. } => {
                    for e in edges {
                        fix(e)
                    }
                }
                I::Call(c) => {
                    if let Some(e) = &mut c.cont {
                        fix(e)
                    }
                }
                _ => {}
            }
        }
        Func {
            id,
            name,
            code: std::mem::take(&mut self.code),
            consts: std::mem::take(&mut self.consts),
            nregs: self.nregs,
            args,
            nargslots,
        }
    }

    fn at_off(&self, o: Opd, k: u32) -> Opd {
        if o >= 0 {
            o + k as i32
        } else {
            o - k as i32
        }
    }
    /// slot offset and type of a nested aggregate element
    fn agg(&mut self, ty: Ty) -> (u32, Ty) {
        let mut off = 0;
        let mut cur = ty;
        while self.l.peek().is(",") {
            let mut l2 = self.l.clone();
            l2.next();
            let t = l2.peek();
            if t.k != K::Word {
                break;
            }
            self.l.next();
            let i: usize = self.l.word().parse().unwrap();
            match self.p.info(cur).k.clone() {
                TyK::Struct(f, _) => {
                    for t in &f[..i] {
                        off += self.p.slots(*t);
                    }
                    cur = f[i];
                }
                TyK::Array(_, e) => {
                    off += self.p.slots(e) * i as u32;
                    cur = e;
                }
                k => panic!("agg index into {k:?}"),
            }
        }
        (off, cur)
    }
    fn scalar_or_vec(&self, t: Ty) -> (u32, u32) {
        let (n, e) = self.p.elem(t);
        (n, self.p.width(e))
    }

    fn inst(&mut self, cur: u32) {
        let t = self.l.next();
        let (dname, op) = if t.k == K::Local {
            self.l.expect("=");
            (Some(t.s), self.l.next().s)
        } else {
            (None, t.s)
        };
        if let Some(b) = bin_op(op) {
            self.flags();
            let (ty, a) = self.tyval();
            self.l.expect(",");
            let bb = self.val(ty);
            let (n, w) = self.scalar_or_vec(ty);
            let d = self.reg(dname.unwrap(), n);
            self.code.push(I::Bin { op: b, w, d, a, b: bb, n });
            return;
        }
        match op {
            "icmp" => {
                self.flags();
                let p = match self.l.word() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    x => panic!("icmp {x}"),
                };
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let b = self.val(ty);
                let (n, w) = self.scalar_or_vec(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(I::Icmp { p, w, d, a, b, n });
            }
            "fcmp" => {
                self.flags();
                let p = self.l.word();
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let b = self.val(ty);
                let (n, w) = self.scalar_or_vec(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(if n == 1 { I::Fcmp { p, w, d, a, b } } else { I::Bad("vector fcmp".into()) });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let b = self.val(ty);
                let (n, w) = self.scalar_or_vec(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(if n == 1 { I::FBin { op, w, d, a, b } } else { I::Bad("vector float op".into()) });
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyval();
                let (n, w) = self.scalar_or_vec(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(if n == 1 { I::FNeg { w, d, a } } else { I::Bad("vector fneg".into()) });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                self.flags();
                let (ft, a) = self.tyval();
                self.l.expect("to");
                let tt = self.ty();
                let (fl, fw) = self.scalar_or_vec(ft);
                let (tl, tw) = self.scalar_or_vec(tt);
                let d = self.reg(dname.unwrap(), self.p.slots(tt));
                let i = if op == "bitcast" {
                    if fl == tl {
                        I::Copy { d, a, n: fl }
                    } else {
                        I::BitV { d, a, fw, fl, tw, tl }
                    }
                } else {
                    let c = match op {
                        "trunc" => C::Trunc,
                        "zext" => C::ZExt,
                        "sext" => C::SExt,
                        _ => {
                            if fw > tw {
                                C::Trunc
                            } else if fw < tw {
                                C::ZExt
                            } else {
                                C::Bit
                            }
                        }
                    };
                    I::Cast { op: c, fw, tw, d, a, n: fl }
                };
                self.code.push(i);
            }
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                self.flags();
                let (ft, a) = self.tyval();
                self.l.expect("to");
                let tt = self.ty();
                let (n, fw) = self.scalar_or_vec(ft);
                let (_, tw) = self.scalar_or_vec(tt);
                let d = self.reg(dname.unwrap(), self.p.slots(tt));
                self.code.push(if n == 1 { I::FCast { op, fw, tw, d, a } } else { I::Bad("vector fcast".into()) });
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval();
                self.l.expect(",");
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let (_, b) = self.tyval();
                let n = self.p.slots(ty);
                let vec = matches!(self.p.info(ct).k, TyK::Vec(..));
                let d = self.reg(dname.unwrap(), n);
                let mut lv = vec![];
                self.p.leaves(ty, 0, &mut lv);
                self.code.push(I::Select { d, c, a, b, n, vec, ws: Rc::new(lv) });
            }
            "freeze" => {
                let (ty, a) = self.tyval();
                let n = self.p.slots(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(I::Copy { d, a, n });
            }
            "load" => {
                self.flags();
                let ty = self.ty();
                self.l.expect(",");
                let (_, p) = self.tyval();
                self.tail();
                let n = self.p.slots(ty);
                let d = self.reg(dname.unwrap(), n);
                if self.is_bitvec(ty) && n % 8 == 0 && self.p.elem(ty) .0 == n {
                    let tmp = self.nregs;
                    self.nregs += 1;
                    let ew = self.p.width(self.p.elem(ty).1);
                    if ew != 1 {
                        self.code.push(I::Bad("load of bit vector".into()));
                        return;
                    }
                    self.code.push(I::Load1 { d: tmp, w: n, p });
                    self.code.push(I::BitV { d, a: tmp as Opd, fw: n, fl: 1, tw: 1, tl: n });
                    return;
                }
                let i = self.mk_load(ty, d, p);
                self.code.push(i);
            }
            "store" => {
                self.flags();
                let (ty, v) = self.tyval();
                self.l.expect(",");
                let (_, p) = self.tyval();
                self.tail();
                let mut lv = vec![];
                self.p.leaves(ty, 0, &mut lv);
                let bitvec = self.is_bitvec(ty);
                let n = self.p.slots(ty);
                if bitvec && n % 8 == 0 && self.p.width(self.p.elem(ty).1) == 1 {
                    let tmp = self.nregs;
                    self.nregs += 1;
                    self.code.push(I::BitV { d: tmp, a: v, fw: 1, fl: n, tw: n, tl: 1 });
                    self.code.push(I::Store1 { v: tmp as Opd, w: n, p });
                    return;
                }
                self.code.push(if bitvec {
                    I::Bad("store of bit vector".into())
                } else if lv.len() == 1 && lv[0].0 == 0 {
                    I::Store1 { v, w: lv[0].1, p }
                } else {
                    I::StoreN { v, leaves: Rc::new(lv), p }
                });
            }
            "getelementptr" => {
                self.flags();
                if self.l.peek().is("inrange") {
                    self.l.next();
                    self.l.skip_parens();
                }
                let ety = self.ty();
                self.l.expect(",");
                let (pt, base) = self.tyval();
                if matches!(self.p.info(pt).k, TyK::Vec(..)) {
                    self.code.push(I::Bad("vector gep".into()));
                    self.l.skip_line();
                    return;
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut curt = ety;
                let mut first = true;
                while self.l.peek().is(",") {
                    let mut l2 = self.l.clone();
                    l2.next();
                    if l2.peek().k == K::Meta {
                        break;
                    }
                    self.l.next();
                    let it = self.ty();
                    let iw = self.p.width(it);
                    let cst = self.l.peek().k != K::Local;
                    let v = self.val(it);
                    let scale;
                    if first {
                        scale = self.p.info(curt).size;
                        first = false;
                    } else {
                        match self.p.info(curt).k.clone() {
                            TyK::Struct(f, _) => {
                                let i = self.consts[(!v) as usize].lo as usize;
                                off = off.wrapping_add(self.p.info(curt).offs[i]);
                                curt = f[i];
                                continue;
                            }
                            TyK::Array(_, e) | TyK::Vec(_, e) => {
                                scale = self.p.info(e).size;
                                curt = e;
                            }
                            k => panic!("gep into {k:?}"),
                        }
                    }
                    if cst {
                        let i = crate::expr::sx(self.consts[(!v) as usize].u(), iw) as i64 as u64;
                        off = off.wrapping_add(i.wrapping_mul(scale));
                    } else {
                        idx.push((v, iw, scale));
                    }
                }
                let d = self.reg(dname.unwrap(), 1);
                self.code.push(I::Gep { d, base, off, idx });
            }
            "alloca" => {
                self.l.eat("inalloca");
                let ty = self.ty();
                let mut cnt = self.konst(&[V::c(1)]);
                let mut align = self.p.info(ty).align;
                while self.l.eat(",") {
                    let t = self.l.peek();
                    if t.is("align") {
                        self.l.next();
                        align = self.l.word().parse().unwrap();
                    } else if t.k == K::Meta || t.is("addrspace") {
                        self.l.next();
                        self.l.skip_parens();
                    } else {
                        let (_, c) = self.tyval();
                        cnt = c;
                    }
                }
                let size = self.p.info(ty).size;
                let d = self.reg(dname.unwrap(), 1);
                self.code.push(I::Alloca { d, size, align, cnt });
            }
            "br" => {
                if self.l.peek().is("label") {
                    let e = self.edge();
                    self.code.push(I::Br(e));
                } else {
                    let (_, c) = self.tyval();
                    self.l.expect(",");
                    let t = self.edge();
                    self.l.expect(",");
                    let f = self.edge();
                    self.code.push(I::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (ty, v) = self.tyval();
                let w = self.p.width(ty);
                self.l.expect(",");
                let def = self.edge();
                let mut edges = vec![def];
                let mut cases = vec![];
                let mut bymap: HashMap<u32, u32> = HashMap::new();
                self.l.expect("[");
                while !self.l.eat("]") {
                    let ct = self.ty();
                    let mut o = vec![];
                    self.p.parse_const(self.m, ct, &mut self.l, &mut o);
                    self.l.expect(",");
                    let e = self.edge();
                    let k = *bymap.entry(e.pc).or_insert_with(|| {
                        edges.push(Edge { pc: e.pc, moves: vec![], bb: 0 });
                        edges.len() as u32 - 1
                    });
                    cases.push((o[0].u(), k));
                }
                cases.sort();
                self.code.push(I::Switch { w, v, cases, edges });
            }
            "ret" => {
                let ty = self.ty();
                if matches!(self.p.info(ty).k, TyK::Void) {
                    self.code.push(I::Ret { v: 0, n: 0 });
                } else {
                    let v = self.val(ty);
                    let n = self.p.slots(ty);
                    self.code.push(I::Ret { v, n });
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "phi" => {
                self.flags();
                let ty = self.ty();
                let n = self.p.slots(ty);
                let mut inc = vec![];
                loop {
                    self.l.expect("[");
                    let v = self.val(ty);
                    self.l.expect(",");
                    let b = self.l.next();
                    let b = self.bb(b.s);
                    self.l.expect("]");
                    inc.push((v, b));
                    let mut l2 = self.l.clone();
                    if l2.eat(",") && l2.peek().is("[") {
                        self.l.next();
                    } else {
                        break;
                    }
                }
                let d = self.reg(dname.unwrap(), n);
                self.phis[cur as usize].push((d, n, inc));
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                let mut op = op;
                if op != "call" && op != "invoke" {
                    op = self.l.word();
                }
                self.call(dname, op == "invoke");
            }
            "extractvalue" => {
                let (ty, a) = self.tyval();
                let (off, et) = self.agg(ty);
                let n = self.p.slots(et);
                let d = self.reg(dname.unwrap(), n);
                let a = self.at_off(a, off);
                self.code.push(I::Copy { d, a, n });
            }
            "insertvalue" => {
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let (_, v) = self.tyval();
                let (off, et) = self.agg(ty);
                let n = self.p.slots(ty);
                let en = self.p.slots(et);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(I::Copy { d, a, n });
                self.code.push(I::Copy { d: d + off, a: v, n: en });
            }
            "extractelement" => {
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let (_, idx) = self.tyval();
                let (lanes, et) = self.p.elem(ty);
                let sl = self.p.slots(et);
                let d = self.reg(dname.unwrap(), sl);
                self.code.push(I::ExtractElt { d, a, idx, lanes, sl });
            }
            "insertelement" => {
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let (_, v) = self.tyval();
                self.l.expect(",");
                let (_, idx) = self.tyval();
                let (lanes, et) = self.p.elem(ty);
                let sl = self.p.slots(et);
                let n = self.p.slots(ty);
                let d = self.reg(dname.unwrap(), n);
                self.code.push(I::InsertElt { d, a, v, idx, lanes, sl });
            }
            "shufflevector" => {
                let (ty, a) = self.tyval();
                self.l.expect(",");
                let (_, b) = self.tyval();
                self.l.expect(",");
                let mt = self.ty();
                let (ml, _) = self.p.elem(mt);
                // parse mask (poison => -1)
                let mut mask = vec![];
                if self.l.peek().is("<") {
                    self.l.next();
                    while !self.l.eat(">") {
                        let _ = self.ty();
                        let w = self.l.word();
                        mask.push(w.parse::<i32>().unwrap_or(-1));
                        self.l.eat(",");
                    }
                } else {
                    let w = self.l.word();
                    let v = if w == "splat" {
                        self.l.expect("(");
                        let _ = self.ty();
                        let v = self.l.word().parse::<i32>().unwrap();
                        self.l.expect(")");
                        v
                    } else if w == "zeroinitializer" {
                        0
                    } else {
                        -1
                    };
                    mask = vec![v; ml as usize];
                }
                let (lanes, et) = self.p.elem(ty);
                let sl = self.p.slots(et);
                let d = self.reg(dname.unwrap(), ml * sl);
                self.code.push(I::Shuffle { d, a, b, lanes, mask, sl });
            }
            "atomicrmw" => {
                self.flags();
                let o = self.l.word();
                let (_, p) = self.tyval();
                self.l.expect(",");
                let (ty, v) = self.tyval();
                self.tail();
                let w = self.p.width(ty);
                let d = match dname {
                    Some(n) => self.reg(n, 1),
                    None => {
                        let r = self.nregs;
                        self.nregs += 1;
                        r
                    }
                };
                self.code.push(I::Rmw { op: o, w, d, p, v });
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval();
                self.l.expect(",");
                let (ty, c) = self.tyval();
                self.l.expect(",");
                let (_, n) = self.tyval();
                self.tail();
                let w = self.p.width(ty);
                let d = self.reg(dname.unwrap(), 2);
                self.code.push(I::CmpXchg { w, d, p, c, n });
            }
            "fence" => {
                self.tail();
            }
            "landingpad" => {
                let ty = self.ty();
                let n = self.p.slots(ty);
                if let Some(dn) = dname {
                    self.reg(dn, n);
                }
                loop {
                    let t = self.l.peek();
                    if t.is("cleanup") {
                        self.l.next();
                    } else if t.is("catch") || t.is("filter") {
                        self.l.next();
                        let ty = self.ty();
                        let _ = self.val(ty);
                    } else {
                        break;
                    }
                }
                self.code.push(I::Bad("landingpad".into()));
            }
            "resume" => {
                let _ = self.tyval();
                self.code.push(I::Bad("resume".into()));
            }
            x => panic!("instruction {} near {}", x, self.l.context()),
        }
    }
    fn is_bitvec(&self, ty: Ty) -> bool {
        if let TyK::Vec(_, e) = self.p.info(ty).k {
            if let TyK::Int(w) = self.p.info(e).k {
                return w % 8 != 0;
            }
        }
        false
    }
    fn mk_load(&mut self, ty: Ty, d: u32, p: Opd) -> I {
        let mut lv = vec![];
        self.p.leaves(ty, 0, &mut lv);
        if self.is_bitvec(ty) {
            return I::Bad("load of bit vector".into());
        }
        if lv.len() == 1 && lv[0].0 == 0 {
            I::Load1 { d, w: lv[0].1, p }
        } else {
            I::LoadN { d, leaves: Rc::new(lv), p }
        }
    }
    /// skip ordering / align / syncscope words after a memory operation
    fn tail(&mut self) {
        loop {
            if self.l.at_eol() {
                return;
            }
            let t = self.l.peek();
            if t.is(",") {
                self.l.next();
                continue;
            }
            if t.k == K::Meta {
                return;
            }
            if t.is("syncscope") {
                self.l.next();
                self.l.skip_parens();
                continue;
            }
            if t.k == K::Word {
                self.l.next();
                continue;
            }
            return;
        }
    }

    fn call(&mut self, dname: Option<&'static str>, invoke: bool) {
        // return attributes and calling convention until a type starts
        loop {
            let t = self.l.peek();
            let is_ty = match t.k {
                K::Local => true,
                K::Punct => matches!(t.s, "[" | "{" | "<"),
                K::Word => {
                    matches!(t.s, "void" | "ptr" | "half" | "float" | "double" | "fp128")
                        || (t.s.starts_with('i') && t.s.len() > 1 && t.s[1..].bytes().all(|c| c.is_ascii_digit()))
                }
                _ => false,
            };
            if is_ty {
                break;
            }
            self.l.next();
            if t.s == "align" && !self.l.peek().is("(") {
                self.l.next();
            } else if t.s == "cc" {
                self.l.next();
            } else {
                self.l.skip_parens();
            }
        }
        let mut rty = self.ty();
        if let TyK::Func(r, _) = self.p.info(rty).k.clone() {
            rty = r;
        }
        let t = self.l.peek();
        let mut ext = 0u32;
        let callee;
        let mut asm: Option<&'static str> = None;
        if t.is("asm") {
            self.l.next();
            while self.l.peek().k == K::Word {
                self.l.next();
            }
            let s = self.l.next().s;
            self.l.eat(",");
            self.l.next();
            asm = Some(s);
            callee = Callee::Ext("asm");
        } else if t.k == K::Global {
            self.l.next();
            let name = t.s;
            ext = (self.p.ext_lookup)(name);
            if ext != 0 {
                callee = Callee::Ext(name);
            } else {
                match self.p.lookup(self.m, name) {
                    Some((_, Sym::Fn(id))) => callee = Callee::Fn(id),
                    Some((_, Sym::Alias(_))) => {
                        let a = self.p.addr_of(self.m, name);
                        callee = Callee::Fn(((a - FN_BASE) / 16) as FnId);
                    }
                    _ => {
                        callee = Callee::Ext(name);
                    }
                }
            }
        } else {
            let pt = self.p.ty(TyK::Ptr);
            let v = self.val(pt);
            callee = Callee::Ptr(v);
        }
        self.l.expect("(");
        let mut args = vec![];
        while !self.l.eat(")") {
            let t = self.l.peek();
            if t.is(",") {
                self.l.next();
                continue;
            }
            if t.is("metadata") {
                // metadata argument: skip to , or ) at depth 0
                self.l.next();
                let mut d = 0;
                loop {
                    let t = self.l.peek();
                    if d == 0 && (t.is(",") || t.is(")")) {
                        break;
                    }
                    if t.is("(") {
                        d += 1
                    }
                    if t.is(")") {
                        d -= 1
                    }
                    self.l.next();
                }
                args.push((0, 0, 0));
                continue;
            }
            let ty = self.ty();
            self.skip_attrs();
            let v = self.val(ty);
            let (_, w) = self.scalar_or_vec(ty);
            args.push((v, self.p.slots(ty), w));
        }
        // function attributes / bundles
        loop {
            let t = self.l.peek();
            match t.k {
                K::Attr => {
                    let save = self.l.clone();
                    let a = self.l.next();
                    if a.s.starts_with("dbg_") {
                        self.l = save;
                        break;
                    }
                }
                K::Punct if t.s == "[" => {
                    // operand bundle
                    let mut d = 0;
                    loop {
                        let t = self.l.next();
                        if t.is("[") {
                            d += 1
                        }
                        if t.is("]") {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                }
                K::Word if !invoke && !self.l.at_eol() && !t.is("to") => {
                    self.l.next();
                    self.l.skip_parens();
                }
                K::Word if invoke && !t.is("to") => {
                    self.l.next();
                    self.l.skip_parens();
                }
                _ => break,
            }
        }
        let mut cont = None;
        if invoke {
            self.l.expect("to");
            cont = Some(self.edge());
            self.l.expect("unwind");
            let _ = self.edge();
        }
        let rslots = self.p.slots(rty);
        let d = match dname {
            Some(n) => self.reg(n, rslots),
            None => {
                let r = self.nregs;
                self.nregs += rslots;
                r
            }
        };
        let (rlanes, mut rw) = self.scalar_or_vec(rty);
        if let TyK::Struct(f, _) = self.p.info(rty).k.clone() {
            if !f.is_empty() {
                rw = self.p.width(f[0]);
            }
        }
        if let Some(s) = asm {
            let c = Call { callee: Callee::Ext(s), ext: crate::ext::ASM, args, dst: d, rslots, rw, rlanes, cont };
            self.code.push(I::Call(Box::new(c)));
            return;
        }
        if ext == crate::ext::NOP {
            if let Some(e) = cont {
                self.code.push(I::Br(e));
            }
            return;
        }
        self.code.push(I::Call(Box::new(Call { callee, ext, args, dst: d, rslots, rw, rlanes, cont })));
    }
}
