//! Parallel exploration by forking worker processes that share nothing but a few counters.

use crate::exec::*;
use crate::expr::Exprs;
use crate::ir::Prog;
use crate::mem::Mem;
use crate::solver::Solver;
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::raw::{c_int, c_void};
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn fork() -> c_int;
    fn pipe(p: *mut c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    fn _exit(c: c_int) -> !;
    fn signal(s: c_int, h: usize) -> usize;
    fn getpid() -> c_int;
    fn prctl(o: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
}

#[repr(C)]
pub struct Shared {
    active: AtomicI32,
    max: AtomicI32,
    started: AtomicU32,
    finished: AtomicU32,
    stop: AtomicU32,
    paths: AtomicU64,
}

static mut SH: *const Shared = std::ptr::null();
static mut DEADLINE: Option<std::time::Instant> = None;
static mut OUT: String = String::new();

fn sh() -> &'static Shared {
    unsafe { &*SH }
}

fn fresh_stats(c: &mut Ctx) {
    c.stats = Stats::default();
    c.sol.queries = 0;
    c.sol.sat = 0;
    c.sol.unsat = 0;
    c.sol.unknown = 0;
    c.sol.time = 0.0;
}

fn poll(c: &mut Ctx) -> bool {
    #[allow(static_mut_refs)]
    let dl = unsafe { DEADLINE.unwrap() };
    if sh().stop.load(SeqCst) != 0 || std::time::Instant::now() > dl {
        return false;
    }
    try_split(c);
    true
}

fn try_split(c: &mut Ctx) {
    if c.pending.is_empty() || sh().active.load(SeqCst) >= sh().max.load(SeqCst) {
        return;
    }
    if sh().active.fetch_add(1, SeqCst) >= sh().max.load(SeqCst) {
        sh().active.fetch_sub(1, SeqCst);
        return;
    }
    sh().started.fetch_add(1, SeqCst);
    let _ = std::io::stderr().flush();
    let pid = unsafe { fork() };
    if pid < 0 {
        sh().active.fetch_sub(1, SeqCst);
        sh().started.fetch_sub(1, SeqCst);
        return;
    }
    if pid == 0 {
        let s = c.pending.remove(0);
        c.pending.clear();
        fresh_stats(c);
        c.st = s;
        worker(c);
    }
    c.pending.remove(0);
}

fn worker(c: &mut Ctx) -> ! {
    let mut stopped = false;
    loop {
        let e = c.run_path();
        if e == End::Exit(-1) {
            c.stats.unexplored += 1 + c.pending.len() as u64;
            c.stats.steps += c.st.steps;
            stopped = true;
            break;
        }
        c.finish_path(e);
        sh().paths.fetch_add(1, SeqCst);
        if !poll(c) {
            c.stats.unexplored += c.pending.len() as u64;
            stopped = true;
            break;
        }
        match c.pending.pop() {
            Some(s) => c.st = s,
            None => break,
        }
    }
    let _ = stopped;
    dump(c);
    sh().finished.fetch_add(1, SeqCst);
    sh().active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}

fn dump(c: &mut Ctx) {
    let mut o = String::new();
    let s = &c.stats;
    let mut kv = |k: &str, v: String| {
        o.push_str(&format!("stat\t{k}\t{v}\n"));
    };
    kv("paths", s.paths.to_string());
    kv("pruned", s.pruned.to_string());
    kv("steps", s.steps.to_string());
    kv("forks", s.forks.to_string());
    kv("implied", s.implied.to_string());
    kv("asserts", s.asserts.to_string());
    kv("sym_asserts", s.sym_asserts.to_string());
    kv("unexplored", s.unexplored.to_string());
    kv("queries", c.sol.queries.to_string());
    kv("sat", c.sol.sat.to_string());
    kv("unsat", c.sol.unsat.to_string());
    kv("unknown", c.sol.unknown.to_string());
    kv("solver_time", format!("{:.6}", c.sol.time));
    o.push_str(&format!("max\tvars\t{}\n", s.maxvars));
    for (k, v) in &s.marks {
        o.push_str(&format!("mark\t{k}\t{v}\n"));
    }
    for (k, v) in &s.prof {
        o.push_str(&format!("prof\t{k}\t{v}\n"));
    }
    for (k, v) in &s.errors {
        o.push_str(&format!("error\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (k, v) in &s.violcount {
        o.push_str(&format!("violcount\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (l, i, w) in &s.viols {
        o.push_str(&format!("viol\t{}\t{}\t{}\n", l.replace(['\t', '\n'], " "), hex(i), w));
    }
    for (i, e, n) in &s.samples {
        o.push_str(&format!("sample\t{}\t{}\t{}\n", hex(i), e, n.join(",")));
    }
    for f in &c.fnused {
        o.push_str(&format!("fn\t{}\n", c.prog.fns[*f as usize].name));
    }
    #[allow(static_mut_refs)]
    let p = unsafe { format!("{}.{}", OUT, getpid()) };
    std::fs::write(&p, o).expect("write result");
}

pub fn run(prog: Prog, cfg: Cfg, entry: &str, out: &str, jobs: usize, secs: u64) {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        SH = p as *const Shared;
        DEADLINE = Some(std::time::Instant::now() + std::time::Duration::from_secs(secs));
        OUT = out.to_string();
        let s = sh();
        s.max.store(jobs as i32, SeqCst);
        s.active.store(1, SeqCst);
        s.started.store(1, SeqCst);
        let mut fds = [0 as c_int; 2];
        pipe(fds.as_mut_ptr());
        let pid = fork();
        if pid == 0 {
            close(fds[0]);
            signal(17, 1); // SIGCHLD ignored: forked workers are reaped automatically
            prctl(1, 9, 0, 0, 0); // die with the parent
            let mut c = new_ctx(prog, cfg);
            c.start(entry);
            worker(&mut c);
        }
        close(fds[1]);
        let mut b = [0u8; 1];
        // all workers hold the write end; EOF means that all of them are gone
        while read(fds[0], b.as_mut_ptr() as *mut c_void, 1) > 0 {}
        let ok = s.started.load(SeqCst) == s.finished.load(SeqCst);
        let mut f = std::fs::File::create(out).expect("out");
        writeln!(f, "workers\t{}\t{}", s.started.load(SeqCst), s.finished.load(SeqCst)).unwrap();
        let dir = std::path::Path::new(out).parent().unwrap();
        let stem = std::path::Path::new(out).file_name().unwrap().to_string_lossy().into_owned() + ".";
        for e in std::fs::read_dir(dir).unwrap() {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().into_owned();
            if n.starts_with(&stem) && n[stem.len()..].bytes().all(|c| c.is_ascii_digit()) {
                let mut t = String::new();
                std::fs::File::open(e.path()).unwrap().read_to_string(&mut t).unwrap();
                f.write_all(t.as_bytes()).unwrap();
                let _ = std::fs::remove_file(e.path());
            }
        }
        if !ok {
            eprintln!("a worker died: {} started, {} finished", s.started.load(SeqCst), s.finished.load(SeqCst));
            std::process::exit(2);
        }
    }
}

fn new_ctx(mut prog: Prog, cfg: Cfg) -> Ctx {
    // a placeholder state; start() replaces it
    let dummy: &'static crate::ir::Func = Box::leak(Box::new(crate::ir::Func {
        id: 0,
        name: "",
        code: vec![],
        consts: vec![],
        nregs: 0,
        args: vec![],
        nargslots: 0,
    }));
    let _ = &mut prog;
    Ctx {
        prog,
        ex: Exprs::new(),
        sol: Solver::new(),
        st: State {
            f: dummy,
            base: 0,
            pc: 0,
            regs: vec![],
            frames: vec![],
            mem: Mem::new(),
            doms: vec![],
            cons: vec![],
            consv: 0,
            model: vec![],
            nvars: 0,
            steps: 0,
            forks: 0,
            notes: vec![],
            marks: vec![],
            hashes: vec![],
            vfs: Rc::new(Vfs::default()),
            child: None,
            errno: 0,
            asserts: 0,
            hashmode: 0,
        },
        pending: vec![],
        stats: Stats::default(),
        cfg,
        fnused: HashSet::new(),
        kb: vec![],
        kbgen: 0,
        names: vec![],
        nameidx: HashMap::new(),
        argbuf: vec![],
        tick: 0,
        poll,
    }
}
