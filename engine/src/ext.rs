//! Intrinsics, allocator, libc stand-ins and the harness interface.

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::Res;

pub const NOP: u32 = 1;
pub const ASM: u32 = 2;

macro_rules! ids {
    ($($name:ident = $s:expr;)*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u32)]
        pub enum X { _None, _Nop, _Asm, $($name,)* _End }
        const TABLE: &[(X, &str)] = &[$((X::$name, $s),)*];
    };
}

ids! {
    // exact names
    memcpy = "memcpy"; memmove = "memmove"; memset = "memset"; memcmp = "memcmp"; bcmp = "bcmp"; strlen = "strlen";
    libc_memchr = "memchr"; libc_memrchr = "memrchr";
    rsx_byte = "__rsx_byte"; rsx_assume = "__rsx_assume"; rsx_assert = "__rsx_assert"; rsx_note = "__rsx_note";
    rsx_mark = "__rsx_mark"; rsx_hashmode = "__rsx_hashmode"; rsx_concrete = "__rsx_concrete";
    rsx_put = "__rsx_put"; rsx_len = "__rsx_len"; rsx_get = "__rsx_get"; rsx_setargs = "__rsx_setargs"; rsx_kind = "__rsx_kind";
    rsx_log = "__rsx_log"; rsx_fail = "__rsx_fail"; rsx_cli = "__rsx_cli"; rsx_files = "__rsx_files"; pthread_self = "pthread_self"; access = "access";
    abort = "abort"; exit = "exit"; _exit = "_exit"; getenv = "getenv"; errno = "__errno_location";
    open = "open64"; read = "read"; write = "write"; writev = "writev"; close = "close"; fstat = "fstat64"; statx = "statx"; stat = "stat64"; lstat = "lstat64";
    lseek = "lseek64"; getcwd = "getcwd"; getrandom = "getrandom"; syscall = "syscall"; isatty = "isatty"; ioctl = "ioctl";
    gettid = "gettid"; sysconf = "sysconf"; clock_gettime = "clock_gettime"; pthread_key_create = "pthread_key_create";
    pthread_setspecific = "pthread_setspecific"; pthread_getspecific = "pthread_getspecific"; pthread_key_delete = "pthread_key_delete"; cxa_thread_atexit = "__cxa_thread_atexit_impl";
    unlink = "unlink"; rename = "rename"; mkdir = "mkdir"; ftruncate = "ftruncate64"; fsync = "fsync"; fchmod = "fchmod"; chmod = "chmod";
    fcntl = "fcntl"; fcntl64 = "fcntl64"; realpath = "realpath"; readlink = "readlink"; opendir = "opendir"; pread = "pread64"; sched_yield = "sched_yield";
    copy_file_range = "copy_file_range"; strerror = "__xpg_strerror_r";
    // substring names
    rust_alloc = "12___rust_alloc"; rust_dealloc = "14___rust_dealloc"; rust_realloc = "14___rust_realloc"; rust_alloc_zeroed = "19___rust_alloc_zeroed";
    panic_fmt = "4core9panicking9panic_fmt"; panic_nounwind_fmt = "4core9panicking18panic_nounwind_fmt"; alloc_err = "18handle_alloc_error";
    hash_one = "8hash_one"; sip_write = "Sip13Rounds"; core_memchr = "14memchr_aligned"; core_memrchr = "15memrchr_aligned"; begin_panic = "16begin_panic_handler";
    // intrinsics (prefix match)
    i_memcpy = "llvm.memcpy."; i_memmove = "llvm.memmove."; i_memset = "llvm.memset."; i_umin = "llvm.umin."; i_umax = "llvm.umax.";
    i_smin = "llvm.smin."; i_smax = "llvm.smax."; i_usubsat = "llvm.usub.sat."; i_uaddsat = "llvm.uadd.sat."; i_ssubsat = "llvm.ssub.sat."; i_saddsat = "llvm.sadd.sat.";
    i_uaddo = "llvm.uadd.with.overflow."; i_usubo = "llvm.usub.with.overflow."; i_umulo = "llvm.umul.with.overflow.";
    i_saddo = "llvm.sadd.with.overflow."; i_ssubo = "llvm.ssub.with.overflow."; i_smulo = "llvm.smul.with.overflow.";
    i_fshl = "llvm.fshl."; i_fshr = "llvm.fshr."; i_bswap = "llvm.bswap."; i_ctlz = "llvm.ctlz."; i_cttz = "llvm.cttz."; i_ctpop = "llvm.ctpop.";
    i_bitreverse = "llvm.bitreverse."; i_abs = "llvm.abs."; i_tls = "llvm.threadlocal.address"; i_scmp = "llvm.scmp."; i_ucmp = "llvm.ucmp.";
    i_isconst = "llvm.is.constant."; i_trap = "llvm.trap"; i_fabs = "llvm.fabs."; i_expect = "llvm.expect."; i_loadrel = "llvm.load.relative.";
    i_vredor = "llvm.vector.reduce.or."; i_vredand = "llvm.vector.reduce.and."; i_vredadd = "llvm.vector.reduce.add."; i_objsize = "llvm.objectsize.";
    i_ptrmask = "llvm.ptrmask."; i_readcyc = "llvm.readcyclecounter"; i_pmovmskb = "llvm.x86.sse2.pmovmskb.128"; i_returnaddr = "llvm.returnaddress";
}

const NOPS: &[&str] = &[
    "llvm.lifetime.",
    "llvm.experimental.noalias.scope.decl",
    "llvm.assume",
    "llvm.dbg.",
    "llvm.x86.sse2.pause",
    "llvm.invariant.",
    "llvm.donothing",
    "llvm.prefetch",
    "llvm.fake.use",
];

pub fn ext_lookup(name: &str) -> u32 {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static EXACT: OnceLock<HashMap<&'static str, u32>> = OnceLock::new();
    let e = EXACT.get_or_init(|| {
        let mut m = HashMap::new();
        for (x, s) in TABLE {
            m.insert(*s, *x as u32);
        }
        m
    });
    if name.starts_with("llvm.") {
        for n in NOPS {
            if name.starts_with(n) {
                return NOP;
            }
        }
        for (x, s) in TABLE {
            if s.starts_with("llvm.") && name.starts_with(s) {
                return *x as u32;
            }
        }
        return 0;
    }
    if let Some(&x) = e.get(name) {
        return x;
    }
    if name.starts_with("_R") {
        if name.contains("__rust_") {
            if name.contains("rust_no_alloc_shim") {
                return NOP;
            }
            for (x, s) in TABLE {
                if s.contains("___rust_") && name.ends_with(s) {
                    return *x as u32;
                }
            }
        }
        if name.contains("9panicking") {
            if name.contains("4core9panicking9panic_fmt") || name.ends_with("4core9panicking9panic_fmt") {
                return X::panic_fmt as u32;
            }
            if name.ends_with("9panicking18panic_nounwind_fmt") || name.contains("9panicking18panic_nounwind_fmt") {
                return X::panic_nounwind_fmt as u32;
            }
            if core_panicking(name, "9panic_fmt") {
                return X::panic_fmt as u32;
            }
        }
        if name.contains("8hash_one") {
            return X::hash_one as u32;
        }
        // tables that keep insertion order (IndexMap): the hash of a key is arbitrary, so it may be constant
        if name.contains("11Sip13Rounds") && name.contains("6Hasher5write") {
            return X::sip_write as u32;
        }
        if name.ends_with("5slice6memchr14memchr_aligned") {
            return X::core_memchr as u32;
        }
        if name.ends_with("5slice6memchr15memrchr_aligned") {
            return X::core_memrchr as u32;
        }
        if name.contains("18handle_alloc_error") {
            return X::alloc_err as u32;
        }
    }
    0
}
fn core_panicking(name: &str, f: &str) -> bool {
    // _RNvNtCs<hash>_4core9panicking9panic_fmt
    name.contains("_4core9panicking") && name.ends_with(f)
}

impl Ctx {
    fn loc(&mut self, p: V) -> String {
        // &core::panic::Location { file: (ptr, len), line, col }
        let r = (|| -> R<String> {
            let a = self.conc64(p)?;
            let fp = self.load(crate::ir::V::c(a), 64, 0)?.lo;
            let fl = self.load(crate::ir::V::c(a), 64, 8)?.lo;
            let line = self.load(crate::ir::V::c(a), 32, 16)?.lo;
            if fl > 4096 {
                return Ok("?".into());
            }
            let f = self.read_str(fp, fl)?;
            Ok(format!("{}:{}", f, line))
        })();
        r.unwrap_or_else(|_| "?".into())
    }
    fn map1(&mut self, v: V, w: u32, rw: u32, f: impl Fn(u128) -> u128) -> R<V> {
        if v.sym == 0 {
            return Ok(V::c128(f(v.u())));
        }
        if let Some((var, t)) = self.ex.tab(v.sym) {
            if rw <= 64 {
                let id = self.ex.map_of(var, rw, |i| f(t.get(i) as u128) as u64);
                return Ok(self.mk(id));
            }
        }
        let k = self.conc(v, w)?;
        Ok(V::c128(f(k)))
    }
    fn bytes_eq(&mut self, a: &SBytes, b: &SBytes) -> V {
        let mut acc = self.ex.konst(1, 1);
        for (x, y) in a.iter().zip(b.iter()) {
            let r = self.icmp(P::Eq, 8, V { lo: x.0 as u64, hi: 0, sym: x.1 }, V { lo: y.0 as u64, hi: 0, sym: y.1 });
            if r.sym == 0 {
                if r.lo == 0 {
                    return V::c(0);
                }
            } else {
                acc = self.ex.bin(Op::And, 1, acc, r.sym);
            }
        }
        self.mk(acc)
    }
    pub fn ext(&mut self, x: u32, name: &'static str, c: &'static Call, a: &[V]) -> R<()> {
        if x == NOP {
            self.finish(c, &[]);
            return Ok(());
        }
        if x == ASM {
            let z = vec![V::c(0); c.rslots as usize];
            // cpuid and friends: no feature; an empty asm is an optimisation barrier
            if name.is_empty() && !a.is_empty() {
                self.finish(c, &a[..c.rslots.min(a.len() as u32) as usize]);
            } else {
                self.finish(c, &z);
            }
            return Ok(());
        }
        debug_assert!(x < X::_End as u32);
        let x: X = unsafe { std::mem::transmute(x) };
        let w = c.args.first().map_or(0, |t| t.2);
        let lanes = c.args.first().map_or(0, |t| t.1);
        macro_rules! ret {
            ($($v:expr),*) => {{ let r = [$($v),*]; self.finish(c, &r); return Ok(()); }};
        }
        macro_rules! lanewise {
            ($f:expr) => {{
                let mut out = Vec::with_capacity(lanes as usize);
                for k in 0..lanes as usize {
                    let r: V = $f(self, a[k], a[k + lanes as usize])?;
                    out.push(r);
                }
                self.finish(c, &out);
                return Ok(());
            }};
        }
        match x {
            X::memcpy | X::memmove | X::i_memcpy | X::i_memmove => {
                let (d, s, n) = (self.conc64(a[0])?, self.conc64(a[1])?, self.conc(a[2], c.args[2].2)? as u64);
                if let Err(f) = self.st.mem.copy(&self.prog.base, d, s, n) {
                    return self.fault(f.0);
                }
                self.stamp_steps(n / 64);
                ret!(a[0])
            }
            X::memset | X::i_memset => {
                let (d, n) = (self.conc64(a[0])?, self.conc(a[2], c.args[2].2)? as u64);
                let v = if c.args[1].2 > 8 { self.cast(C::Trunc, c.args[1].2, 8, a[1]) } else { a[1] };
                if let Err(f) = self.st.mem.set(&self.prog.base, d, v.lo as u8, v.sym, n) {
                    return self.fault(f.0);
                }
                self.stamp_steps(n / 64);
                ret!(a[0])
            }
            X::memcmp | X::bcmp => {
                let (p, q, n) = (self.conc64(a[0])?, self.conc64(a[1])?, self.conc64(a[2])?);
                let l = self.read_bytes(p, n)?;
                let r = self.read_bytes(q, n)?;
                if x == X::bcmp {
                    let e = self.bytes_eq(&l, &r);
                    let v = self.ite(e, V::c(0), V::c(1), 32);
                    ret!(v)
                }
                let mut acc = V::c(0);
                for i in (0..n as usize).rev() {
                    let (b, d) = (V { lo: l[i].0 as u64, hi: 0, sym: l[i].1 }, V { lo: r[i].0 as u64, hi: 0, sym: r[i].1 });
                    let eq = self.icmp(P::Eq, 8, b, d);
                    let lt = self.icmp(P::Ult, 8, b, d);
                    let ne = self.ite(lt, V::c(0xffff_ffff), V::c(1), 32);
                    acc = self.ite(eq, acc, ne, 32);
                }
                ret!(acc)
            }
            X::strlen => {
                let p = self.conc64(a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(V::c(p + n), 8, 0)?;
                    if self.conc(v, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                ret!(V::c(n))
            }
            X::libc_memchr | X::libc_memrchr => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[2])?);
                let k = self.cast(C::Trunc, 32, 8, a[1]);
                for j in 0..n {
                    let i = if x == X::libc_memchr { j } else { n - 1 - j };
                    let v = self.load(V::c(p + i), 8, 0)?;
                    let e = self.icmp(P::Eq, 8, v, k);
                    if self.truth_of(e, 1)? {
                        ret!(V::c(p + i))
                    }
                }
                ret!(V::c(0))
            }
            X::core_memchr | X::core_memrchr => {
                // byte by byte instead of a word at a time
                let (p, n) = (self.conc64(a[1])?, self.conc64(a[2])?);
                for j in 0..n {
                    let i = if x == X::core_memchr { j } else { n - 1 - j };
                    let v = self.load(V::c(p + i), 8, 0)?;
                    let e = self.icmp(P::Eq, 8, v, a[0]);
                    if self.truth_of(e, 1)? {
                        self.finish(c, &[V::c(1), V::c(i)]);
                        return Ok(());
                    }
                }
                self.finish(c, &[V::c(0), V::c(0)]);
                Ok(())
            }
            // ---------------------------------------------------- allocator
            X::rust_alloc => {
                let (n, al) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let p = self.alloc(n, al)?;
                ret!(V::c(p))
            }
            X::rust_alloc_zeroed => {
                let (n, al) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let p = self.alloc(n, al)?;
                if let Err(f) = self.st.mem.set(&self.prog.base, p, 0, 0, n) {
                    return self.fault(f.0);
                }
                ret!(V::c(p))
            }
            X::rust_dealloc => {
                let (p, n, al) = (self.conc64(a[0])?, self.conc64(a[1])?, self.conc64(a[2])?);
                self.st.mem.free(&self.prog.base, p, n, al);
                self.finish(c, &[]);
                Ok(())
            }
            X::rust_realloc => {
                let (p, n, al, m) = (self.conc64(a[0])?, self.conc64(a[1])?, self.conc64(a[2])?, self.conc64(a[3])?);
                if crate::mem::Mem::cap(n) >= m && m >= n && crate::mem::Mem::cap(n) == crate::mem::Mem::cap(m) {
                    ret!(V::c(p))
                }
                let q = self.alloc(m, al)?;
                if let Err(f) = self.st.mem.copy(&self.prog.base, q, p, n.min(m)) {
                    return self.fault(f.0);
                }
                self.st.mem.free(&self.prog.base, p, n, al);
                ret!(V::c(q))
            }
            X::panic_fmt | X::panic_nounwind_fmt => {
                let l = self.loc(a[a.len() - 1]);
                Err(Stop(End::Violation(format!("panic at {}", short_loc(&l)))))
            }
            X::alloc_err => err!("allocation failure"),
            X::begin_panic => err!("begin_panic"),
            X::abort | X::i_trap => Err(Stop(End::Violation("abort".into()))),
            X::hash_one => self.hash_one(name, c, a),
            X::sip_write => {
                self.finish(c, &[]);
                Ok(())
            }
            // ---------------------------------------------------- harness
            X::rsx_byte => {
                let v = self.new_var()?;
                ret!(V { lo: 0, hi: 0, sym: v })
            }
            X::rsx_assume => {
                let v = self.icmp(P::Ne, w, a[0], V::c(0));
                if v.sym == 0 {
                    if v.lo == 0 {
                        return Err(Stop(End::Pruned));
                    }
                } else if !self.decide(v.sym)? {
                    return Err(Stop(End::Pruned));
                }
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_assert => {
                let v = self.icmp(P::Ne, w, a[0], V::c(0));
                self.stats.asserts += 1;
                let (p, n) = (self.conc64(a[1])?, self.conc64(a[2])?);
                let label = self.read_str(p, n)?;
                if v.sym == 0 {
                    if v.lo == 0 {
                        return Err(Stop(End::Violation(label)));
                    }
                } else {
                    self.stats.sym_asserts += 1;
                    let nc = self.ex.not(v.sym);
                    match self.full_check(Some(nc)) {
                        Res::Unsat => {
                            self.add(v.sym);
                        }
                        Res::Sat(m) => {
                            let i = self.inputs(&m);
                            self.record_violation(&label, i);
                            // continue on the complement
                            match self.full_check(Some(v.sym)) {
                                Res::Sat(m) => {
                                    for (k, x) in m {
                                        self.st.model[k as usize] = x;
                                    }
                                    self.add(v.sym);
                                }
                                Res::Unsat => {
                                    self.stats.paths += 1;
                                    return Err(Stop(End::Pruned));
                                }
                                Res::Unknown => err!("solver unknown at assertion {label}"),
                            }
                        }
                        Res::Unknown => err!("solver unknown at assertion {label}"),
                    }
                }
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_fail => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let label = self.read_str(p, n)?;
                Err(Stop(End::Violation(label)))
            }
            X::rsx_note => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let b = self.read_bytes(p, n)?;
                self.st.notes.push(('n', b));
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_log => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let s = self.read_str(p, n)?;
                eprintln!("LOG {s}");
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_mark => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let s = self.read_str(p, n)?;
                let i = self.name_id(&s);
                if !self.st.marks.contains(&i) {
                    self.st.marks.push(i);
                }
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_hashmode => {
                self.st.hashmode = self.conc(a[0], w)? as u32;
                self.st.hashes.clear();
                self.finish(c, &[]);
                Ok(())
            }
            X::rsx_concrete => {
                let k = self.conc(a[0], w)?;
                ret!(V::c128(k))
            }
            // ---------------------------------------------------- intrinsics
            X::i_umin => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let k = s.icmp(P::Ult, w, x, y);
                Ok(s.ite(k, x, y, w))
            }),
            X::i_umax => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let k = s.icmp(P::Ugt, w, x, y);
                Ok(s.ite(k, x, y, w))
            }),
            X::i_smin => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let k = s.icmp(P::Slt, w, x, y);
                Ok(s.ite(k, x, y, w))
            }),
            X::i_smax => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let k = s.icmp(P::Sgt, w, x, y);
                Ok(s.ite(k, x, y, w))
            }),
            X::i_usubsat => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let k = s.icmp(P::Ult, w, x, y);
                let d = s.bin(B::Sub, w, x, y)?;
                Ok(s.ite(k, V::c(0), d, w))
            }),
            X::i_uaddsat => lanewise!(|s: &mut Ctx, x, y| -> R<V> {
                let d = s.bin(B::Add, w, x, y)?;
                let k = s.icmp(P::Ult, w, d, x);
                Ok(s.ite(k, V::c128(mask(w)), d, w))
            }),
            X::i_uaddo => {
                let d = self.bin(B::Add, w, a[0], a[1])?;
                let k = self.icmp(P::Ult, w, d, a[0]);
                ret!(d, k)
            }
            X::i_usubo => {
                let d = self.bin(B::Sub, w, a[0], a[1])?;
                let k = self.icmp(P::Ult, w, a[0], a[1]);
                ret!(d, k)
            }
            X::i_umulo => {
                let d = self.bin(B::Mul, w, a[0], a[1])?;
                if a[0].sym == 0 && a[1].sym == 0 {
                    let o = match a[0].u().checked_mul(a[1].u()) {
                        Some(v) => v > mask(w),
                        None => true,
                    };
                    ret!(d, V::c(o as u64))
                }
                if w > 64 {
                    err!("symbolic i{w} umul.with.overflow");
                }
                let (p, q) = (self.cast(C::ZExt, w, 2 * w, a[0]), self.cast(C::ZExt, w, 2 * w, a[1]));
                let m = self.bin(B::Mul, 2 * w, p, q)?;
                let k = self.icmp(P::Ugt, 2 * w, m, V::c128(mask(w)));
                ret!(d, k)
            }
            X::i_saddo | X::i_ssubo | X::i_smulo => {
                let op = match x {
                    X::i_saddo => B::Add,
                    X::i_ssubo => B::Sub,
                    _ => B::Mul,
                };
                let d = self.bin(op, w, a[0], a[1])?;
                if w > 64 {
                    err!("i{w} signed overflow");
                }
                let (p, q) = (self.cast(C::SExt, w, 2 * w, a[0]), self.cast(C::SExt, w, 2 * w, a[1]));
                let m = self.bin(op, 2 * w, p, q)?;
                let e = self.cast(C::SExt, w, 2 * w, d);
                let k = self.icmp(P::Ne, 2 * w, m, e);
                ret!(d, k)
            }
            X::i_fshl | X::i_fshr => {
                if lanes != 1 {
                    err!("vector funnel shift");
                }
                let s = (self.conc(a[2], w)? % w as u128) as u64;
                let (h, l) = (a[0], a[1]);
                if s == 0 {
                    let r = if x == X::i_fshl { h } else { l };
                    ret!(r)
                }
                let (ls, rs) = if x == X::i_fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let p = self.bin(B::Shl, w, h, V::c(ls))?;
                let q = self.bin(B::LShr, w, l, V::c(rs))?;
                let r = self.bin(B::Or, w, p, q)?;
                ret!(r)
            }
            X::i_bswap => {
                let n = w / 8;
                if a[0].sym == 0 {
                    let r = a[0].u().swap_bytes() >> (128 - w);
                    ret!(V::c128(r))
                }
                let mut acc: Id = 0;
                for i in 0..n {
                    let b = self.ex.extract(a[0].sym, i * 8, 8);
                    acc = if i == 0 { b } else { self.ex.concat(acc, b) };
                }
                let v = self.mk(acc);
                ret!(v)
            }
            X::i_ctlz => {
                let mut o = vec![];
                for k in 0..lanes as usize {
                    o.push(self.map1(a[k], w, w, |v| (v.leading_zeros() - (128 - w)) as u128)?);
                }
                self.finish(c, &o);
                Ok(())
            }
            X::i_cttz => {
                let mut o = vec![];
                for k in 0..lanes as usize {
                    o.push(self.map1(a[k], w, w, |v| if v == 0 { w as u128 } else { v.trailing_zeros() as u128 })?);
                }
                self.finish(c, &o);
                Ok(())
            }
            X::i_ctpop => {
                let mut o = vec![];
                for k in 0..lanes as usize {
                    o.push(self.map1(a[k], w, w, |v| v.count_ones() as u128)?);
                }
                self.finish(c, &o);
                Ok(())
            }
            X::i_bitreverse => {
                let r = self.map1(a[0], w, w, |v| v.reverse_bits() >> (128 - w))?;
                ret!(r)
            }
            X::i_abs => {
                let z = self.bin(B::Sub, w, V::c(0), a[0])?;
                let k = self.icmp(P::Slt, w, a[0], V::c(0));
                let r = self.ite(k, z, a[0], w);
                ret!(r)
            }
            X::i_scmp | X::i_ucmp => {
                let (pl, pg) = if x == X::i_scmp { (P::Slt, P::Sgt) } else { (P::Ult, P::Ugt) };
                let l = self.icmp(pl, w, a[0], a[1]);
                let g = self.icmp(pg, w, a[0], a[1]);
                let rw = c.rw;
                let gt = self.ite(g, V::c(1), V::c(0), rw);
                let r = self.ite(l, V::c128(mask(rw)), gt, rw);
                ret!(r)
            }
            X::i_tls | X::i_expect => ret!(a[0]),
            X::i_isconst => ret!(V::c(0)),
            X::i_objsize => ret!(V::c(!0)),
            X::i_readcyc | X::i_returnaddr => ret!(V::c(0)),
            X::i_fabs => {
                let k = self.conc(a[0], w)?;
                ret!(V::c128(k & (mask(w) >> 1)))
            }
            X::i_loadrel => {
                let (p, o) = (a[0], a[1]);
                let o64 = if c.args[1].2 < 64 { self.cast(C::SExt, c.args[1].2, 64, o) } else { o };
                let q = self.bin(B::Add, 64, p, o64)?;
                let v = self.load(q, 32, 0)?;
                let v = self.cast(C::SExt, 32, 64, v);
                let r = self.bin(B::Add, 64, p, v)?;
                ret!(r)
            }
            X::i_vredor | X::i_vredand | X::i_vredadd => {
                let op = match x {
                    X::i_vredor => B::Or,
                    X::i_vredand => B::And,
                    _ => B::Add,
                };
                let mut r = a[0];
                for k in 1..lanes as usize {
                    r = self.bin(op, w, r, a[k])?;
                }
                ret!(r)
            }
            X::i_ptrmask => {
                let r = self.bin(B::And, 64, a[0], a[1])?;
                ret!(r)
            }
            X::i_pmovmskb => {
                let mut acc: Id = 0;
                for k in 0..lanes as usize {
                    let b = self.id(a[k], 8);
                    let t = self.ex.extract(b, 7, 1);
                    acc = if k == 0 { t } else { self.ex.concat(t, acc) };
                }
                let z = self.ex.zext(acc, 32);
                let v = self.mk(z);
                ret!(v)
            }
            _ => self.sys(x, name, c, a),
        }
    }
    fn nvars_last(&self) -> u32 {
        self.st.nvars - 1
    }
    fn stamp_steps(&mut self, n: u64) {
        self.st.steps += n;
    }
    pub fn alloc(&mut self, n: u64, al: u64) -> R<u64> {
        if n > 0x1000_0000 {
            err!("allocation of {n} bytes");
        }
        let p = self.st.mem.alloc(&self.prog.base, n, al);
        if p == 0 {
            err!("heap exhausted");
        }
        Ok(p)
    }
    /// the bytes of a key made of numbers, by value or by reference (t: its mangled type)
    fn plain_key(&mut self, t: &str, a: &[V]) -> R<Option<SBytes>> {
        let width = |b: u8| match b {
            b'h' | b'a' | b'b' => 1u32,
            b't' | b's' => 2,
            b'm' | b'l' | b'c' => 4,
            b'y' | b'x' | b'j' | b'i' => 8,
            _ => 0,
        };
        let (byref, t) = match t.strip_prefix('R') {
            Some(r) => (true, r),
            None => (false, t),
        };
        let b = t.as_bytes();
        let mut ws = vec![];
        if b.first() == Some(&b'T') {
            for &x in &b[1..] {
                if x == b'E' {
                    break;
                }
                ws.push(width(x));
            }
        } else if let Some(&x) = b.first() {
            ws.push(width(x));
        }
        // (elements of one width lie next to each other in order)
        if ws.is_empty() || ws[0] == 0 || ws.iter().any(|w| *w != ws[0]) || !byref && (ws.len() > 2 || a.len() != ws.len() + 1) {
            return Ok(None);
        }
        let mut key = vec![];
        for (i, w) in ws.iter().enumerate() {
            let v = if byref {
                let q = self.conc64(a[1])?;
                self.load(V::c(q), w * 8, i as u64 * *w as u64)?
            } else {
                a[1 + i]
            };
            let v = self.conc64(v)?;
            for k in 0..*w {
                key.push(((v >> (8 * k)) as u8, 0));
            }
        }
        Ok(Some(key))
    }
    fn hash_one(&mut self, name: &'static str, c: &'static Call, a: &[V]) -> R<()> {
        if self.st.hashmode == 0 {
            self.finish(c, &[V::c(0)]);
            return Ok(());
        }
        // which key layout: after "8hash_one" comes the type argument K (the parameter is K by value)
        let i = name.find("8hash_one").unwrap() + 9;
        let t = &name[i..];
        let key = if t.starts_with("Re") {
            let (p, n) = (self.conc64(a[1])?, self.conc64(a[2])?);
            self.read_bytes(p, n)?
        } else if t.starts_with("RRe") {
            let q = self.conc64(a[1])?;
            let p = self.load(V::c(q), 64, 0)?;
            let n = self.load(V::c(q), 64, 8)?;
            let (p, n) = (self.conc64(p)?, self.conc64(n)?);
            self.read_bytes(p, n)?
        } else if t.contains("6string6String") && t.starts_with("RN") {
            let q = self.conc64(a[1])?;
            let p = self.load(V::c(q), 64, 8)?;
            let n = self.load(V::c(q), 64, 16)?;
            let (p, n) = (self.conc64(p)?, self.conc64(n)?);
            self.read_bytes(p, n)?
        } else {
            match self.plain_key(t, a)? {
                Some(k) => k,
                // keys of other shapes: one hash function of the many there are
                None => {
                    self.finish(c, &[V::c(0)]);
                    return Ok(());
                }
            }
        };
        let prev = self.st.hashes.clone();
        for (k, h) in prev {
            if k.len() == key.len() {
                let e = self.bytes_eq(&k, &key);
                if self.truth_of(e, 1)? {
                    self.finish(c, &[h]);
                    return Ok(());
                }
            }
        }
        // a fresh, arbitrary hash: symbolic low bits choose the bucket
        let v = self.new_var()?;
        // eight hash classes place up to seven keys in every relative order (four: up to three)
        let k = self.nvars_last();
        self.st.doms[k as usize] = [if self.st.hashmode == 2 { 0xf } else { 0xff }, 0, 0, 0];
        let h = self.ex.zext(v, 64);
        let h = self.mk(h);
        self.st.hashes.push((key, h));
        self.finish(c, &[h]);
        Ok(())
    }
}

/// keep the part of a path that does not depend on where the sources live
pub fn short_loc(l: &str) -> String {
    for m in ["/crates/", "/registry/src/", "/library/"] {
        if let Some(i) = l.find(m) {
            let t = &l[i + 1..];
            return t.to_string();
        }
    }
    l.to_string()
}
