mod exec;
mod expr;
mod ext;
mod ir;
mod lex;
mod mem;
mod par;
mod solver;
mod sys;

use std::io::Write;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll: Vec<String> = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut secs = 600u64;
    let mut cfg = exec::Cfg { max_steps: 400_000_000, max_viol: 3, sample_every: 1, trace: false, prof: false, check: std::env::var("RSX_CHECK").is_ok(), args: vec![] };
    let mut lldir = String::new();
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll.push(v()),
            "--lldir" => lldir = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--secs" => secs = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--sample-every" => cfg.sample_every = v().parse().unwrap(),
            "--arg" => cfg.args.push(v().parse().unwrap()),
            "--prof" => cfg.prof = true,
            "--trace" => cfg.trace = true,
            x => panic!("unknown option {x}"),
        }
    }
    if !lldir.is_empty() {
        let mut fs: Vec<String> = std::fs::read_dir(&lldir)
            .unwrap()
            .map(|e| e.unwrap().path().to_string_lossy().into_owned())
            .filter(|p| p.ends_with(".ll"))
            .collect();
        fs.sort();
        ll.extend(fs);
    }
    let t0 = std::time::Instant::now();
    let mut prog = ir::Prog::new(ext::ext_lookup);
    for f in &ll {
        prog.load(f);
    }
    eprintln!("loaded {} modules, {} functions in {:?}", ll.len(), prog.fns.len(), t0.elapsed());
    std::io::stderr().flush().unwrap();
    par::run(prog, cfg, &entry, &out, jobs, secs);
}
