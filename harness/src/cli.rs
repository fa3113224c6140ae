//! Harnesses for the commands: whole runs of `bulloak` over a directory of files.

use crate::chk::*;
use crate::fnd;
use crate::gen;
use crate::rt::*;

const STEMS: [&str; 4] = ["a", "b", "c", "d"];

fn fill(stem: &str, tree: Option<&[u8]>, sol: Option<&[u8]>) {
    if let Some(t) = tree {
        std::fs::write(format!("{stem}.tree"), t).unwrap();
    }
    if let Some(s) = sol {
        std::fs::write(format!("{stem}.t.sol"), s).unwrap();
    }
}

/// A pair of files of some kind: its tree, its Solidity file, and how many violations it has.
pub struct Pair {
    pub tree: Option<Vec<u8>>,
    pub sol: Option<Vec<u8>>,
    pub sol_dir: bool,
    pub count: usize,
    /// None: check has to fail on this file even when fixing
    pub fixes: Option<usize>,
}
pub const KINDS: usize = 11;
pub fn pair(k: usize) -> Pair {
    let tree = "R\n├── it p\n└── it q\n";
    let p = "function test_P() external {\n        // mine\n    }";
    let q = "function test_Q() external {}";
    let file = |name: &str, parts: &str| format!("pragma solidity 0.8.0;\n\ncontract {name} {{\n    {parts}\n}}\n").into_bytes();
    let mut r = Pair { tree: Some(tree.as_bytes().to_vec()), sol: None, sol_dir: false, count: 0, fixes: Some(0) };
    match k {
        0 => r.sol = Some(file("R", &format!("{p}\n    {q}"))),
        1 => {
            // one or two of the tests may be there
            let (c, d) = (gen::few(2), gen::few(2));
            r.tree = Some(format!("R\n├── it q{c}\n└── it z\n").into_bytes());
            r.sol = Some(file("R", &format!("function test_Q{d}() external {{}}\n    {p}")));
            r.count = if c == d { 1 } else { 2 };
            r.fixes = Some(r.count);
        }
        2 => {
            r.sol = Some(file("R", &format!("{q}\n    {p}")));
            r.count = 1;
            r.fixes = Some(1);
        }
        3 => {
            r.sol = Some(file("Rx", p));
            r.count = 2;
            r.fixes = Some(2);
        }
        4 => {
            r.count = 1;
            r.fixes = None;
        }
        5 => {
            r.tree = Some(b"R\nit p\n".to_vec());
            r.sol = Some(file("R", p));
            r.count = 1;
            r.fixes = None;
        }
        6 => {
            r.tree = None;
            r.sol = Some(file("R", p));
            r.count = 1;
            r.fixes = None;
        }
        7 => {
            r.sol = Some(file("R", "function test_P( external {}"));
            r.count = 1;
            r.fixes = None;
        }
        8 => {
            r.sol_dir = true;
            r.count = 1;
            r.fixes = None;
        }
        9 => {
            r.sol = Some(b"contract R { // \xff\n }".to_vec());
            r.count = 1;
            r.fixes = None;
        }
        _ => {
            // the name the tree asks for is no name
            r.tree = Some("1R\n├── it p\n└── it q\n".as_bytes().to_vec());
            r.sol = Some(file("R", &format!("{p}\n    {q}")));
            r.count = 1;
            r.fixes = None;
        }
    }
    r
}
fn lay(stem: &str, p: &Pair) {
    fill(stem, p.tree.as_deref(), p.sol.as_deref());
    if p.sol_dir {
        std::fs::create_dir(format!("{stem}.t.sol")).unwrap();
    }
}
fn same(a: &[Report], b: &[Report]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut left: Vec<&Report> = b.iter().collect();
    for r in a {
        match left.iter().position(|x| *x == r) {
            Some(i) => {
                left.remove(i);
            }
            None => return false,
        }
    }
    true
}

fn trees(n: usize) -> Vec<String> {
    STEMS[..n].iter().map(|s| format!("{s}.tree")).collect()
}
fn run(head: &[&str], files: &[String]) -> i32 {
    let mut a = head.to_vec();
    for f in files {
        a.push(f);
    }
    cli(&a)
}
/// the number in front of "issue(s) fixed"
fn fixed_count(o: &[u8]) -> Option<usize> {
    let o = plain(o);
    let (_, r) = cut(&o, "success: ")?;
    let (n, _) = cut(r, " issue")?;
    Some(number(n))
}

/// check and check --fix over n pairs of files of the kinds below k
pub fn batch(n: u64, k: u64, fix: u64) {
    fnd::warm();
    let n = n as usize;
    let mut pairs = vec![];
    for i in 0..n {
        let p = pair(below(k as usize));
        lay(STEMS[i], &p);
        pairs.push(p);
    }
    let files = trees(n);
    // one by one
    let mut alone: Vec<Report> = vec![];
    for i in 0..n {
        let r = run(&["check"], &files[i..i + 1]);
        let p = reports(&err());
        check(p.reports.len() == pairs[i].count, "a file's violations are not all reported, or too many are");
        check(p.total.unwrap_or(0) == pairs[i].count, "the total of one file is wrong");
        check(r == (pairs[i].count > 0) as i32, "the exit status of one file is wrong");
        alone.extend(p.reports);
    }
    if fix == 0 {
        let r = run(&["check"], &files);
        let p = reports(&err());
        note(&err());
        check(r == !alone.is_empty() as i32, "the exit status is wrong");
        check(same(&p.reports, &alone), "the violations reported for several files are not those of each");
        check(p.total.unwrap_or(0) == alone.len(), "the total is wrong");
        check(p.fixes.unwrap_or(0) == alone.iter().filter(|r| r.fixable).count(), "the number of fixes is wrong");
        let o = plain(&out());
        check(cut(&o, "No issues found").is_some() == alone.is_empty(), "success is claimed wrongly");
        mark(if alone.is_empty() { "all good" } else { "violations" });
        return;
    }
    let r = run(&["check", "--fix"], &files);
    note(&err());
    let bad = pairs.iter().any(|p| p.fixes.is_none());
    check(r == bad as i32, "the exit status after fixing is wrong");
    let want: usize = pairs.iter().map(|p| p.fixes.unwrap_or(0)).sum();
    check(fixed_count(&out()) == Some(want), "the success line does not count the violations fixed");
    let e = plain(&err());
    let p = reports(&err());
    let (mut reported, mut uncheckable) = (0, 0);
    for i in 0..n {
        if pairs[i].fixes.is_none() {
            check(cut(&e, &format!("{}.t", STEMS[i])).is_some(), "a file that cannot be fixed is not reported");
            reported += 1;
            if !(pairs[i].count == 1 && pairs[i].tree.as_deref().map_or(false, |t| t.starts_with(b"1R"))) {
                uncheckable += 1;
            }
        }
    }
    check(p.reports.len() == uncheckable && p.total.unwrap_or(0) == uncheckable, "the files that cannot be checked are not counted");
    let after: Vec<Option<Vec<u8>>> = STEMS[..n].iter().map(|s| std::fs::read(format!("{s}.t.sol")).ok()).collect();
    // fixed one by one, the files come out the same
    for i in 0..n {
        if let Some(s) = &pairs[i].sol {
            std::fs::write(format!("{}.t.sol", STEMS[i]), s).unwrap();
            run(&["check", "--fix"], &files[i..i + 1]);
            check(std::fs::read(format!("{}.t.sol", STEMS[i])).ok() == after[i], "a file is fixed differently next to others");
            if pairs[i].fixes.is_none() {
                check(after[i].as_ref() == pairs[i].sol.as_ref(), "a file that cannot be fixed is changed");
            }
        }
    }
    mark(if reported > 0 { "failed" } else { "fixed" });
}

/// everything in the directory
fn snapshot() -> Vec<(String, Option<Vec<u8>>)> {
    files().into_iter().map(|f| { let c = std::fs::read(&f).ok(); (f, c) }).collect()
}

static PATHS: [(&str, &str); 6] =
    [("a.tree", "a.t.sol"), ("sub/a.tree", "sub/a.t.sol"), ("./a.tree", "a.t.sol"), ("a", "a.t.sol"), ("a.b.tree", "a.b.t.sol"), ("sub/../a.txt", "a.t.sol")];

fn around() {
    std::fs::create_dir("sub").unwrap();
    for f in ["b.tree", "b.t.sol", "a.sol", "t.sol", "sub/a.sol", "sub/b.tree"] {
        put(f, "precious");
    }
}

/// which files scaffold touches
pub fn scaffold_writes(two: u64, _b: u64, _c: u64) {
    fnd::warm();
    let (path, target) = PATHS[below(PATHS.len())];
    around();
    let good = flag();
    put(path, &if good { format!("R\n└── it {}\n", gen::letter()) } else { "R\n└── p\n".to_string() });
    let state = below(4);
    match state {
        0 => {}
        1 => put(target, "precious"),
        3 => put(target, ""),
        _ => std::fs::create_dir(target).unwrap(),
    }
    if two == 1 {
        put("b.tree", "B\n└── it b\n");
    }
    let before = snapshot();
    let mut args = vec!["scaffold"];
    let w = flag();
    if w {
        args.push(if flag() { "-w" } else { "--write-files" });
    }
    let f = flag();
    if f {
        args.push(if flag() { "-f" } else { "--force-write" });
    }
    if flag() {
        args.push("-S");
    }
    if two == 1 && flag() {
        args.extend(["b.tree", path]);
    } else {
        args.push(path);
        if two == 1 {
            args.push("b.tree");
        }
    }
    let r = cli(&args);
    note(&[r as u8]);
    let after = snapshot();
    let replaces = w && good && (state == 0 || state != 2 && f);
    let mut seen = false;
    for (n, c) in &after {
        if n == target {
            seen = true;
            match before.iter().find(|b| b.0 == *n) {
                Some(b) if !replaces => check(b.1 == *c, "the Solidity file is replaced although nobody asked"),
                None if !replaces => fail("a Solidity file is written although nobody asked"),
                _ => {
                    let c = c.clone().unwrap_or_default();
                    check(cut(&c, "contract R").is_some(), "the Solidity file is not written");
                    check(cut(&c, "precious").is_none(), "the Solidity file is not replaced");
                    mark("written");
                }
            }
            continue;
        }
        if two == 1 && n == "b.t.sol" && w && f {
            let c = c.clone().unwrap_or_default();
            check(cut(&c, "contract B").is_some() && cut(&c, "precious").is_none(), "the second Solidity file is not replaced");
            continue;
        }
        match before.iter().find(|b| b.0 == *n) {
            Some(b) => check(b.1 == *c, "a file nobody named is changed"),
            None => fail("a file nobody named is created"),
        }
    }
    for (n, _) in &before {
        check(after.iter().any(|a| a.0 == *n), "a file is deleted");
    }
    check(!replaces || seen, "the Solidity file is not written where it belongs");
    if !w && !f && good {
        let o = out();
        check(cut(&o, "contract R").is_some() && r == 0, "the generated code is not printed");
        mark("printed");
    }
    if f && !w {
        check(r != 0, "-f alone is accepted");
    }
    if w && good {
        // an existing file is left alone without failing; a directory cannot be replaced
        check((r != 0) == (state == 2 && f), "the exit status is wrong");
    }
    if !good {
        check(r != 0, "a malformed tree does not fail the run");
    }
}

/// which files check touches
pub fn check_writes(k: u64, two: u64, _c: u64) {
    fnd::warm();
    let p = pair(below(k as usize));
    let (path, target) = PATHS[below(PATHS.len())];
    around();
    if let Some(t) = &p.tree {
        std::fs::write(path, t).unwrap();
    }
    if let Some(s) = &p.sol {
        std::fs::write(target, s).unwrap();
    }
    if p.sol_dir {
        std::fs::create_dir(target).unwrap();
    }
    let second = if two == 1 { Some(pair(below(3))) } else { None };
    if let Some(p) = &second {
        lay("b", p);
    }
    let before = snapshot();
    let mut args = vec!["check"];
    let fix = flag();
    if fix {
        args.push("--fix");
    }
    let stdout = flag();
    if stdout {
        args.push("--stdout");
    }
    if two == 1 && flag() {
        args.extend(["b.tree", path]);
    } else {
        args.push(path);
        if two == 1 {
            args.push("b.tree");
        }
    }
    let r = cli(&args);
    note(&[r as u8]);
    let after = snapshot();
    check(before.len() == after.len(), "a file is created or deleted");
    let writes = fix && !stdout && p.fixes.is_some();
    for (b, a) in before.iter().zip(&after) {
        check(b.0 == a.0, "a file is created or deleted");
        if b.0 == target && writes {
            mark("written");
            if p.count > 0 {
                check(a.1 != b.1, "the Solidity file is not fixed");
            }
        } else if b.0 == "b.t.sol" && fix && !stdout && second.is_some() {
            check((a.1 != b.1) || second.as_ref().map_or(0, |p| p.count) == 0, "the second Solidity file is not fixed");
        } else {
            check(a.1 == b.1, "a file is changed although nobody asked");
        }
    }
    if stdout && !fix {
        check(r != 0, "--stdout alone is accepted");
        return;
    }
    if fix && stdout && p.fixes.is_some() && two == 0 {
        // what is printed is what would have been written
        let o = plain(&out());
        let body = match cut(&o, "\n") {
            Some((_, b)) => b.to_vec(),
            None => fail("the fixed file is not printed"),
        };
        check(cli(&["check", "--fix", path]) == 0, "a file can be fixed only to stdout");
        let w = std::fs::read(target).unwrap();
        let mut e = w.len();
        while e > 0 && (w[e - 1] == b'\n' || w[e - 1] == b' ') {
            e -= 1;
        }
        check(body.len() >= e && body[..e] == w[..e], "what is printed is not what would be written");
        mark("printed");
    }
    if !fix {
        let n = p.count + second.as_ref().map_or(0, |p| p.count);
        check(r == (n > 0) as i32, "the exit status is wrong");
    }
}

/// scaffold over n files of several kinds
pub fn scaffold_batch(n: u64, k: u64, _c: u64) {
    fnd::warm();
    let n = n as usize;
    let mut bad = vec![];
    let w = flag();
    for i in 0..n {
        let name = format!("{}.tree", STEMS[i]);
        let kind = below(k as usize);
        bad.push(kind >= 3);
        match kind {
            0 => put(&name, &format!("R{i}\n└── it {}\n", gen::letter())),
            1 => put(&name, "S\n├── when a\n│   ├── it b\n│   └── when c\n│       └── it d\n└── it e\n"),
            2 => put(&name, "T::f\n└── it a\n\nT::g\n└── it b\n"),
            3 => put(&name, "R\nit p\n"),
            4 => {}
            5 => std::fs::write(&name, b"R\n\xff").unwrap(),
            6 => put(&name, "R\n├── it a\n└── it a\n"),
            7 => put(&name, "T::f\n└── it a\n\nU::g\n└── it b\n"),
            8 => std::fs::create_dir(&name).unwrap(),
            9 => put(&name, ""),
            10 => put(&name, "1R\n└── it a\n"),
            _ => {
                put(&name, "R\n└── it a\n");
                if w {
                    std::fs::create_dir(format!("{}.t.sol", STEMS[i])).unwrap();
                } else {
                    *bad.last_mut().unwrap() = false;
                }
            }
        }
    }
    let files = trees(n);
    let head: &[&str] = if w { &["scaffold", "-w", "-f"] } else { &["scaffold"] };
    let r = run(head, &files);
    let (o, e) = (out(), plain(&err()));
    note(&o);
    note(&e);
    check((r != 0) == bad.iter().any(|b| *b), "the run fails exactly when no file is bad");
    let mut got = vec![];
    for i in 0..n {
        let named = cut(&e, &format!("file: {}.tree\n", STEMS[i])).is_some();
        check(named == bad[i], "bad files are not the ones that are reported");
        got.push(if w { std::fs::read(format!("{}.t.sol", STEMS[i])).ok() } else { None });
    }
    // alone
    let mut all = vec![];
    for i in 0..n {
        if bad[i] {
            check(got[i].is_none(), "a bad file produces output");
            check(run(head, &files[i..i + 1]) != 0, "a file is bad only next to others");
            all.extend(out());
            continue;
        }
        if w {
            std::fs::remove_file(format!("{}.t.sol", STEMS[i])).unwrap();
        }
        check(run(head, &files[i..i + 1]) == 0, "a file is good only next to others");
        if w {
            check(std::fs::read(format!("{}.t.sol", STEMS[i])).ok() == got[i], "a file's code depends on the other files");
        }
        let x = out();
        check(w || !x.is_empty(), "nothing is generated for a good file");
        all.extend(x);
    }
    check(o == all, "the output for several files is not that of each");
    mark(if bad.iter().all(|b| *b) { "all bad" } else if bad.iter().any(|b| *b) { "mixed" } else { "all good" });
}
