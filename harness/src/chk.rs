//! The check command: what it says about a pair of files whose differences are known.

use crate::fnd::{self, Item};
use crate::gen;
use crate::orc::*;
use crate::rt::*;

/// one thing in a contract's body
#[derive(Clone)]
pub struct Part {
    /// is it a modifier, and its name (functions and modifiers only)
    pub def: Option<(bool, String)>,
    pub text: String,
}
/// a Solidity file taken to pieces
#[derive(Clone, Default)]
pub struct Sol {
    /// everything before the contract, one piece per line
    pub pre: Vec<String>,
    /// None: no contract at all
    pub name: Option<String>,
    /// between the contract's name and its brace
    pub header: String,
    pub parts: Vec<Part>,
    pub post: Vec<String>,
}

impl Sol {
    /// `tight`: as little white space as possible
    pub fn render(&self, tight: bool) -> String {
        let mut s = String::new();
        for p in &self.pre {
            s.push_str(p);
            s.push('\n');
        }
        if let Some(n) = &self.name {
            s.push_str("contract ");
            s.push_str(n);
            s.push_str(&self.header);
            s.push_str(" {");
            for p in &self.parts {
                s.push_str(if tight { " " } else { "\n    " });
                s.push_str(&p.text);
                if p.text.starts_with("//") {
                    s.push('\n');
                }
            }
            s.push_str(if tight { "}" } else { "\n}\n" });
        }
        for p in &self.post {
            s.push_str(p);
            s.push('\n');
        }
        s
    }
    /// where a function or modifier is defined
    pub fn find(&self, modifier: bool, name: &str) -> Option<usize> {
        for (i, p) in self.parts.iter().enumerate() {
            if let Some((m, n)) = &p.def {
                if *m == modifier && n == name {
                    return Some(i);
                }
            }
        }
        None
    }
}

/// one reported violation
#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    Missing(String),
    Order(String),
    NoContract(String),
    Name(String, String),
    NoFile(String),
    Unreadable,
    Other(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    pub what: Rep,
    pub fixable: bool,
    pub place: String,
}
/// everything a run of check printed
#[derive(Clone, Debug, Default)]
pub struct Printed {
    pub reports: Vec<Report>,
    pub total: Option<usize>,
    pub fixes: Option<usize>,
    pub other: Vec<String>,
}

/// without colours
pub fn plain(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            while i < b.len() && b[i] != b'm' {
                i += 1;
            }
            i += 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn text(b: &[u8]) -> String {
    match String::from_utf8(b.to_vec()) {
        Ok(s) => s,
        Err(_) => fail("a message is cut inside a character"),
    }
}
fn strip<'a>(b: &'a [u8], p: &str) -> Option<&'a [u8]> {
    if b.len() >= p.len() && b[..p.len()] == *p.as_bytes() {
        Some(&b[p.len()..])
    } else {
        None
    }
}
fn strip_end<'a>(b: &'a [u8], p: &str) -> Option<&'a [u8]> {
    if b.len() >= p.len() && b[b.len() - p.len()..] == *p.as_bytes() {
        Some(&b[..b.len() - p.len()])
    } else {
        None
    }
}
/// the place of `p` in `b` (a name in front of it holds none of its characters)
pub fn cut<'a>(b: &'a [u8], p: &str) -> Option<(&'a [u8], &'a [u8])> {
    let mut i = 0;
    while i + p.len() <= b.len() {
        if b[i..i + p.len()] == *p.as_bytes() {
            return Some((&b[..i], &b[i + p.len()..]));
        }
        i += 1;
    }
    None
}
pub fn number(b: &[u8]) -> usize {
    let mut n = 0;
    check(!b.is_empty(), "a count is missing");
    for c in b {
        check(*c >= b'0' && *c <= b'9', "a count is not a number");
        n = n * 10 + (*c - b'0') as usize;
    }
    n
}
pub fn reports(b: &[u8]) -> Printed {
    let b = plain(b);
    let mut p = Printed::default();
    let mut from = 0;
    for i in 0..=b.len() {
        if i < b.len() && b[i] != b'\n' {
            continue;
        }
        let l = &b[from..i];
        from = i + 1;
        if l.is_empty() {
            continue;
        }
        if let Some(l) = strip(l, "warn: ") {
            if l[0] >= b'0' && l[0] <= b'9' {
                if let Some((n, rest)) = cut(l, " check") {
                    p.total = Some(number(n));
                    if let Some((_, r)) = cut(rest, " to apply ") {
                        if let Some((n, _)) = cut(r, " fix") {
                            p.fixes = Some(number(n));
                        }
                    }
                    continue;
                }
            }
            let what = if let Some(n) = strip(l, "function \"").and_then(|l| strip_end(l, "\" is missing in .sol")) {
                Rep::Missing(text(n))
            } else if let Some(n) = strip(l, "incorrect position for function `").and_then(|l| strip_end(l, "`")) {
                Rep::Order(text(n))
            } else if let Some(l) = strip(l, "contract \"") {
                if let Some(n) = strip_end(l, "\" is missing in .sol") {
                    Rep::NoContract(text(n))
                } else if let Some((n, m)) = cut(l, "\" is missing in .sol -- found \"") {
                    Rep::Name(text(n), text(strip_end(m, "\" instead").unwrap_or(m)))
                } else {
                    Rep::Other(text(l))
                }
            } else if let Some(n) = strip(l, "the tree is missing its matching Solidity file: ") {
                Rep::NoFile(text(n))
            } else if l == b"bulloak couldn't read the file" {
                Rep::Unreadable
            } else {
                Rep::Other(text(l))
            };
            p.reports.push(Report { what, fixable: false, place: String::new() });
        } else if let Some(l) = strip(l, "   --> ") {
            match p.reports.last_mut() {
                Some(r) => r.place = text(l),
                None => fail("a place without a violation"),
            }
        } else if strip(l, "     + fix: run `bulloak check --fix ").is_some() {
            match p.reports.last_mut() {
                Some(r) => r.fixable = true,
                None => fail("a fix without a violation"),
            }
        } else if strip(l, "     = help: ").is_some() {
        } else {
            p.other.push(text(l));
        }
    }
    p
}

/// a tree of n branches with fixed titles; its drawing and what it becomes
pub fn spec(n: usize, flags: u64) -> (Text, Vec<Item>) {
    let mut v = gen::shape(n, flags);
    for i in 0..n {
        match v[i].kind {
            Kind::Cond => v[i].words = vec![if i % 2 == 0 { "when" } else { "given" }.to_string(), format!("c{i}{}", gen::letter())],
            Kind::Act => v[i].words = vec!["it".to_string(), format!("a{i}{}", gen::letter())],
            _ => v[i].words = vec![format!("d{i}{}", gen::letter())],
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    let nodes = match judge(&t) {
        Ok(n) => n,
        Err(_) => fail("the model rejects its own tree"),
    };
    let items = fnd::model(&nodes, "");
    (t, items)
}

/// the same for two trees in one file, sharing a condition
fn spec_two(n: usize, flags: u64) -> (Text, Vec<Item>) {
    let mut all = Text::new();
    let mut nodes = vec![];
    for k in 0..2 {
        let mut v = gen::shape(n, flags);
        for i in 0..n {
            match v[i].kind {
                Kind::Cond => v[i].words = vec!["when".to_string(), format!("c{i}{}", gen::letter())],
                Kind::Act => v[i].words = vec!["it".to_string(), format!("a{i}{}", gen::letter())],
                _ => v[i].words = vec![format!("d{i}{}", gen::letter())],
            }
        }
        if k > 0 {
            all.newline();
            all.newline();
            all.s.push_str("// in between");
            all.newline();
            all.newline();
        }
        let mut t = Text::new();
        t.line = all.line;
        gen::draw(&mut t, if k == 0 { "Root::f" } else { "Root::g" }, &v);
        all.s.push_str(&t.s);
        all.line = t.line;
        match judge(&t) {
            Ok(n) => nodes.push(n),
            Err(_) => fail("the model rejects its own tree"),
        }
    }
    let (_, items) = fnd::combined(&nodes);
    (all, items)
}

/// a user's function: what follows its name, and its body
pub static BODIES: [(&str, &str); 7] = [
    ("() external", "{}"),
    ("() external", "{\n        // it's a } comment\n        count = 1;\n    }"),
    ("() public virtual@ returns (string memory s)", "{ s = \"}{\"; }"),
    ("(uint256 x) external payable", "{ unchecked { x++; } }"),
    ("() external virtual", ";"),
    ("(address a, bytes calldata b) internal", "{ if (a != address(0)) { x = 1; revert(unicode\"é}\"); } }"),
    ("() external", "{\n        assembly { let x := 1 }\n        // test_\n    }"),
];

/// the user's version of a definition
pub fn part(i: &Item, name: &str, body: (&str, &str)) -> Part {
    let mut s = String::from(if i.modifier { "modifier " } else { "function " });
    s.push_str(name);
    if i.modifier {
        s.push_str("()");
    } else {
        let (a, b) = body.0.split_once('@').unwrap_or((body.0, ""));
        s.push_str(a);
        for m in &i.mods {
            s.push(' ');
            s.push_str(m);
        }
        s.push_str(b);
    }
    if body.1 == ";" {
        if i.modifier {
            s.push_str(" virtual");
        }
        s.push(';');
        return Part { def: Some((i.modifier, name.to_string())), text: s };
    }
    s.push(' ');
    s.push_str(if i.modifier { "{\n        _;\n    }" } else { body.1 });
    Part { def: Some((i.modifier, name.to_string())), text: s }
}
/// something in the contract the tree does not ask for (although names may be like those it asks for)
pub fn extra(k: usize, items: &[Item]) -> Part {
    // a function the tree asks for
    let f = items.iter().find(|i| !i.modifier).map_or("test_A".to_string(), |i| i.name.clone());
    let m = items.iter().find(|i| i.modifier).map_or("whenC".to_string(), |i| i.name.clone());
    let short = |s: &str| s[..s.len() - 1].to_string();
    let function = |n: String, rest: &str| Part { text: format!("function {n}{rest}"), def: Some((false, n)) };
    let modifier = |n: String| Part { text: format!("modifier {n}() {{\n        _;\n    }}"), def: Some((true, n)) };
    let s: &str = match k {
        0 => "uint256 internal count;",
        1 => return function("helper".into(), "() internal {}"),
        2 => return Part { def: None, text: format!("// function {f}() external {{") },
        3 => return function(m, "() internal view returns (bool) {\n        return true;\n    }"),
        4 => "struct P {\n        uint256 x;\n    }",
        5 => "constructor() {}",
        6 => return modifier(f),
        7 => "/* } é { */",
        8 => return Part { def: None, text: format!("event {f}(uint256 x);") },
        9 => {
            let mut p = function(short(&f), "(uint256 x) public pure {}");
            p.text.insert_str(0, "/// é doc }\n    ");
            return p;
        }
        10 => "receive() external payable {}",
        11 => return function("bodiless".into(), "() external virtual;"),
        // a name one symbolic letter away, or none
        12 => return function(short(&f) + &gen::s1(gen::letter()), "() external {}"),
        13 => return modifier(short(&m) + &gen::s1(gen::letter())),
        14 => return function(f + &gen::s1(one_of(b"_$a0A") as char), "() external {}"),
        15 => "using L for uint256;",
        16 => "enum E {\n        A,\n        B\n    }",
        17 => "error Bad(uint256 x);",
        18 => return Part { def: None, text: format!("function() internal {f};") },
        _ => return Part { def: None, text: format!("mapping(address => uint256) public {m};") },
    };
    Part { def: None, text: s.to_string() }
}
pub const EXTRAS: usize = 20;
/// no two definitions of one kind and name
pub fn distinct(parts: &[Part]) {
    for (i, p) in parts.iter().enumerate() {
        for q in &parts[..i] {
            if let (Some(a), Some(b)) = (&p.def, &q.def) {
                assume(!(a.0 == b.0 && a.1 == b.1));
            }
        }
    }
}

/// some of the items in some order
pub fn arrange(items: &[Item], max: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..items.len()).collect();
    let mut out = vec![];
    while !left.is_empty() && out.len() < max {
        let c = below(left.len() + 1);
        if c == left.len() {
            break;
        }
        out.push(left.remove(c));
    }
    out
}

/// what check must find
pub struct Want {
    /// name and line
    pub missing: Vec<(String, usize)>,
    pub unsorted: bool,
}
pub fn want(items: &[Item], sol: &Sol, skip: bool) -> Want {
    let mut w = Want { missing: vec![], unsorted: false };
    let mut far = None;
    for i in items {
        match sol.find(i.modifier, &i.name) {
            Some(p) => {
                if let Some(q) = far {
                    if p < q {
                        w.unsorted = true;
                    }
                }
                far = Some(match far {
                    Some(q) if q > p => q,
                    _ => p,
                });
            }
            None => {
                if !(skip && i.modifier) {
                    w.missing.push((i.name.clone(), i.line));
                }
            }
        }
    }
    w
}

/// run check on a.tree and a.t.sol and compare
pub fn judge_check(items: &[Item], root: &str, sol: &Sol, what: u64) {
    let skip = what == 19 && flag();
    let r = if skip { cli(&["check", "-m", "a.tree"]) } else { cli(&["check", "a.tree"]) };
    let p = reports(&err());
    note(&err());
    let has = |f: &dyn Fn(&Rep) -> bool| p.reports.iter().filter(|r| f(&r.what)).count();
    check(has(&|r| matches!(r, Rep::Other(_) | Rep::NoFile(_) | Rep::Unreadable)) == 0, "check cannot process a well-formed pair of files");
    let name = match &sol.name {
        Some(n) => n,
        None => {
            if what == 21 {
                check(p.reports.len() == 1 && p.reports[0].what == Rep::NoContract(root.to_string()), "a file without a contract is not reported as such");
                check(r == 1, "a missing contract does not fail the check");
            }
            mark("no contract");
            return;
        }
    };
    let w = want(items, sol, skip);
    match what {
        19 => {
            let got: Vec<&Report> = p.reports.iter().filter(|r| matches!(r.what, Rep::Missing(_))).collect();
            check(got.len() == w.missing.len(), "the number of missing constructs reported is wrong");
            for (i, (n, line)) in w.missing.iter().enumerate() {
                check(got[i].what == Rep::Missing(n.clone()), "a missing construct is not reported");
                check(got[i].place == format!("a.tree:{line}"), "a missing construct is reported at the wrong place");
            }
            check((r != 0) == !p.reports.is_empty(), "the exit status contradicts the report");
            mark(if w.missing.is_empty() { "nothing missing" } else { "missing" });
        }
        20 => {
            let n = has(&|r| matches!(r, Rep::Order(_)));
            check((n > 0) == w.unsorted, "order problems are reported exactly when the order is right");
            check((r != 0) == !p.reports.is_empty(), "the exit status contradicts the report");
            mark(if w.unsorted { "unsorted" } else { "sorted" });
        }
        21 => {
            check(has(&|r| matches!(r, Rep::NoContract(_))) == 0, "a contract that exists is reported as missing");
            let got: Vec<&Report> = p.reports.iter().filter(|r| matches!(r.what, Rep::Name(_, _))).collect();
            if name == root {
                check(got.is_empty(), "a contract with the right name is reported");
                mark("right name");
            } else {
                check(got.len() == 1 && got[0].what == Rep::Name(root.to_string(), name.clone()), "a contract with the wrong name is not reported");
                check(r == 1, "a wrong name does not fail the check");
                mark("wrong name");
            }
        }
        _ => {}
    }
}

pub fn put(name: &str, s: &str) {
    std::fs::write(name, s).unwrap();
}

/// Trees of n branches against contracts made of some of their definitions, in any order, and
/// (mode bits) 1: extra parts anywhere, 2: one name with an arbitrary character in it, 4: white
/// space and comments.
pub fn check_pair(n: u64, mode: u64, what: u64) {
    fnd::warm();
    let flags = if mode & 128 != 0 { 3 } else { 2 };
    let (t, items) = if mode & 64 != 0 { spec_two(n as usize, flags) } else { spec(n as usize, flags) };
    let order = arrange(&items, 8);
    let mut sol = Sol { name: Some("Root".into()), ..Sol::default() };
    sol.pre = vec!["// SPDX-License-Identifier: UNLICENSED".into(), "pragma solidity 0.8.0;".into()];
    let hot = if mode & 2 != 0 && !order.is_empty() { below(order.len()) } else { usize::MAX };
    for (k, &o) in order.iter().enumerate() {
        let mut name = items[o].name.clone();
        if k == hot {
            // an arbitrary character in place of one of its own
            let mut b: Vec<char> = name.chars().collect();
            let c = one_of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$") as char;
            match below(5) {
                0 => *b.last_mut().unwrap() = c,
                1 => b[2] = c,
                2 => b.push(c),
                3 => b.insert(0, if c.is_ascii_digit() { '_' } else { c }),
                _ => {
                    b.pop();
                }
            }
            name = b.into_iter().collect();
        }
        let body = if mode & 4 != 0 { BODIES[below(BODIES.len())] } else { BODIES[1] };
        sol.parts.push(part(&items[o], &name, body));
    }
    if mode & 1 != 0 {
        let at = below(sol.parts.len() + 1);
        let e = extra(below(EXTRAS), &items);
        sol.parts.insert(at, e);
        distinct(&sol.parts);
    }
    if mode & 4 != 0 {
        let mut c = String::from("// ");
        c.push(wide());
        sol.parts.insert(below(sol.parts.len() + 1), Part { def: None, text: c });
    }
    put("a.tree", &t.s);
    put("a.t.sol", &sol.render(mode & 4 != 0 && flag()));
    judge_check(&items, "Root", &sol, what);
}
/// a character of a comment
pub fn wide() -> char {
    let c = ch();
    assume(c != '\n' && c != '\r');
    c
}

/// what surrounds and names the contract; returns false if there is no Solidity file at all
fn frame(sol: &mut Sol, k: usize) -> bool {
    let bits = |s: &mut Sol| {
        s.name = None;
        s.parts.clear();
        s.pre.clear();
    };
    match k {
        0 => {}
        1 => {
            // an arbitrary character in the name
            let mut n = String::from("Root");
            let c = one_of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$");
            match below(3) {
                0 => n.push(c as char),
                1 => n = format!("R{}ot", c as char),
                _ => n = format!("Roo{}", c as char),
            }
            sol.name = Some(n);
        }
        2 => sol.post.push("contract Other {}".into()),
        3 => {
            sol.pre.push("import {Test} from \"forge-std/Test.sol\";".into());
            sol.header = " is Test".into();
        }
        4 => {
            sol.name = Some("Other".into());
            sol.header = " is /* { */ Base(Args({x: 1}))".into();
            sol.post.push("contract Root {}".into());
        }
        5 => {
            sol.pre.push("// contract Other { é".into());
            sol.pre.push("error Bad(uint256 x);".into());
            sol.post.push("function free() pure {}".into());
            sol.post.push("// the end }".into());
        }
        6 => {
            // the name is also used elsewhere
            sol.name = Some("Rot".into());
            sol.pre.push("string constant Rotten = \"contract Rot {\";".into());
            sol.parts.push(Part { def: None, text: "Rot internal other;".into() });
        }
        7 => bits(sol),
        8 => {
            bits(sol);
            sol.pre.push("// contract Root {}".into());
        }
        9 => {
            bits(sol);
            sol.pre.push("pragma solidity ^0.8.0;".into());
            sol.pre.push("function free() pure {}".into());
        }
        _ => return false,
    }
    true
}
const FRAMES: usize = 11;

/// Contracts of every kind of name, missing contracts and missing files; `k`: first arrangement size
pub fn contract(n: u64, max: u64, what: u64) {
    fnd::warm();
    let (t, items) = spec(n as usize, 2);
    let mut sol = Sol { name: Some("Root".into()), ..Sol::default() };
    sol.pre = vec!["// SPDX-License-Identifier: UNLICENSED".into(), "pragma solidity 0.8.0;".into()];
    let k = below(FRAMES);
    if k < 7 {
        for o in arrange(&items, max as usize) {
            sol.parts.push(part(&items[o], &items[o].name, BODIES[1]));
        }
    }
    put("a.tree", &t.s);
    if !frame(&mut sol, k) {
        let r = cli(&["check", "a.tree"]);
        let p = reports(&err());
        note(&err());
        check(p.reports.len() == 1 && matches!(p.reports[0].what, Rep::NoFile(_)), "a missing file is not reported as such");
        check(r == 1, "a missing file does not fail the check");
        mark("no file");
        return;
    }
    put("a.t.sol", &sol.render(false));
    if what == 21 {
        judge_check(&items, "Root", &sol, what);
    } else {
        judge_fix(&items, "Root", &sol, what);
    }
}

/// without white space
pub fn dense(s: &str) -> Vec<u8> {
    let mut o = String::new();
    for c in s.chars() {
        if !c.is_whitespace() {
            o.push(c);
        }
    }
    o.into_bytes()
}
fn find(b: &[u8], p: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + p.len() <= b.len() {
        if b[i..i + p.len()] == *p {
            return Some(i);
        }
        i += 1;
    }
    None
}
const SEPARATOR: &str = "// <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
// ==================== BULLOAK AUTOGENERATED SEPARATOR ====================
// >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>
//    Code below this section could not be automatically moved by bulloak
// =========================================================================";

/// a definition as it is generated
pub fn generated(i: &Item) -> String {
    let mut s = String::from(if i.modifier { "modifier " } else { "function " });
    s.push_str(&i.name);
    s.push_str("()");
    if !i.modifier {
        s.push_str(" external");
        for m in &i.mods {
            s.push(' ');
            s.push_str(m);
        }
    }
    s.push_str(" {");
    for l in &i.body {
        s.push('\n');
        s.push_str(l);
    }
    s.push('}');
    s
}

/// fix a.t.sol and judge what became of it
pub fn judge_fix(items: &[Item], root: &str, sol: &Sol, what: u64) {
    let skip = flag();
    let args: &[&str] = if skip { &["check", "-m", "a.tree"] } else { &["check", "a.tree"] };
    let before = if what == 24 {
        let r = cli(args);
        let p = reports(&err());
        check((r == 1) == !p.reports.is_empty() && r <= 1, "the exit status contradicts the report");
        check(p.total.unwrap_or(0) == p.reports.len(), "the total is not the number of violations");
        check(p.fixes.unwrap_or(0) == p.reports.iter().filter(|r| r.fixable).count(), "the number of fixes is not the number of fixable violations");
        Some(p)
    } else {
        None
    };
    let mut fargs = args.to_vec();
    fargs.insert(1, "--fix");
    let r = cli(&fargs);
    if r != 0 {
        note(&err());
        fail("a file that can be fixed is not fixed");
    }
    let fixed = match std::fs::read("a.t.sol") {
        Ok(b) => text(&b),
        Err(_) => fail("the fixed file cannot be read"),
    };
    note(fixed.as_bytes());
    if let Some(p) = &before {
        let o = plain(&out());
        let n = match cut(&o, "success: ") {
            Some((_, r)) => match cut(r, " issue") {
                Some((n, _)) => number(n),
                None => fail("the success line is missing"),
            },
            None => fail("the success line is missing"),
        };
        check(n == p.fixes.unwrap_or(0), "the success line does not count the violations fixed");
        mark(if n > 0 { "fixed" } else { "nothing to fix" });
        return;
    }
    if what == 22 {
        check(forge_fmt::parse(&fixed).is_ok(), "the fixed file does not parse");
        let r = cli(args);
        let p = reports(&err());
        check(p.reports.is_empty() && r == 0, "something is left after fixing");
        mark("fixed");
        return;
    }
    // every piece is there once, and nothing else
    let w = want(items, sol, skip);
    let mut pieces: Vec<Vec<u8>> = vec![];
    for p in sol.pre.iter().chain(&sol.post) {
        pieces.push(dense(p));
    }
    let mut ghost = vec![];
    if sol.name.is_none() && sol.pre.is_empty() {
        pieces.push(dense("// SPDX-License-Identifier: UNLICENSED"));
        pieces.push(dense("pragma solidity 0.8.0;"));
    } else if sol.name.is_none() && sol.pre.iter().all(|p| p.starts_with("//")) {
        // nothing but comments: a complete file is added
        pieces.push(dense("// SPDX-License-Identifier: UNLICENSED"));
        pieces.push(dense("pragma solidity 0.8.0;"));
    }
    pieces.push(dense(&format!("contract {root}{} {{", sol.header)));
    for p in &sol.parts {
        // a doc comment may stay where it is when what follows it moves
        match p.text.split_once('\n') {
            Some((c, rest)) if c.starts_with("///") => {
                pieces.push(dense(c));
                pieces.push(dense(rest));
            }
            _ => pieces.push(dense(&p.text)),
        }
    }
    let mut added = 0;
    for i in items {
        if sol.find(i.modifier, &i.name).is_none() && !(skip && i.modifier && sol.name.is_some()) {
            pieces.push(dense(&generated(i)));
            added += 1;
        }
    }
    if w.unsorted {
        ghost = dense(SEPARATOR);
    }
    pieces.sort_by(|a, b| b.len().cmp(&a.len()));
    let mut d = dense(&fixed);
    if !ghost.is_empty() {
        // the separator may be there
        if let Some(i) = find(&d, &ghost) {
            d.splice(i..i + ghost.len(), [1]);
        }
    }
    // a comment inside of another piece is looked for first
    if let Some(i) = pieces.iter().position(|p| *p == dense(STRAY)) {
        for _ in 0..2 {
            match find(&d, &pieces[i]) {
                Some(k) => {
                    d.drain(k..k + pieces[i].len());
                }
                None => fail("a comment is lost or altered"),
            }
        }
        pieces.remove(i);
    }
    for p in &pieces {
        match find(&d, p) {
            Some(i) => {
                d.splice(i..i + p.len(), [1]);
            }
            None => fail("a piece of the file is lost or altered"),
        }
    }
    let mut close = 0;
    for b in &d {
        if *b == b'}' {
            close += 1;
        } else {
            check(*b == 1, "something appears in the fixed file that nobody asked for");
        }
    }
    check(close == 1, "the contract is not closed once");
    mark(if added > 0 { "added" } else { "nothing added" });
    if w.unsorted {
        mark("reordered");
    }
}

const STRAY: &str = "/* é } ; { */";

/// like check_pair, but fixed
pub fn fix_pair(n: u64, mode: u64, what: u64) {
    fnd::warm();
    let flags = if mode & 128 != 0 { 3 } else { 2 };
    let (t, items) = if mode & 64 != 0 { spec_two(n as usize, flags) } else { spec(n as usize, flags) };
    let order = arrange(&items, 8);
    let mut sol = Sol { name: Some("Root".into()), ..Sol::default() };
    sol.pre = vec!["// SPDX-License-Identifier: UNLICENSED".into(), "pragma solidity 0.8.0;".into()];
    for &o in &order {
        let body = if mode & 4 != 0 { BODIES[below(BODIES.len())] } else { BODIES[1] };
        sol.parts.push(part(&items[o], &items[o].name, body));
    }
    if mode & 1 != 0 {
        let at = below(sol.parts.len() + 1);
        let k = below(EXTRAS);
        // (comments do not nest)
        assume(k != 7 || mode & 16 == 0);
        sol.parts.insert(at, extra(k, &items));
        distinct(&sol.parts);
    }
    if mode & 2 != 0 {
        let mut c = String::from("// ");
        c.push(wide());
        c.push('z');
        sol.parts.insert(below(sol.parts.len() + 1), Part { def: None, text: c });
    }
    if mode & 256 != 0 {
        // what follows the contract
        let post: &[&str] = match below(5) {
            0 => &["// the end }"],
            1 => &["/* } { */"],
            2 => &["contract Other {", "function test_A0a() external {}", "}", "// last"],
            3 => &["function free() pure returns (uint256) { return 1; }"],
            _ => &["// {", "", "library L { function whenC0() internal {} }", "/// last"],
        };
        sol.post.extend(post.iter().map(|p| p.to_string()));
    }
    let mut s = sol.render(mode & 8 != 0);
    if mode & 256 != 0 && flag() {
        s.pop();
    }
    if mode & 16 != 0 {
        // a comment before any of the words and signs of the file
        let mut at = vec![];
        let b = s.as_bytes();
        // (none may be in a pragma)
        let from = sol.pre.iter().map(|p| p.len() + 1).sum::<usize>() - 1;
        for i in from..b.len() {
            if b[i] == b'\n' || b[i] == b' ' || matches!(b[i], b'{' | b'}' | b'(' | b')' | b';') {
                at.push(i);
            }
        }
        let i = at[below(at.len())];
        s.insert_str(i, STRAY);
        sol.post.push(STRAY.into());
        s.push_str(STRAY);
    }
    put("a.tree", &t.s);
    if mode & 32 != 0 {
        s = s.replace('\n', "\r\n");
    }
    put("a.t.sol", &s);
    judge_fix(&items, "Root", &sol, what);
}

/// scaffold a tree, then check it against what was generated
pub fn round_trip(tree: &str) {
    put("a.tree", tree);
    let mut args = vec!["scaffold", "-w"];
    let skip = flag();
    if skip {
        args.push("-m");
    }
    if flag() {
        args.push("--vm-skip");
    }
    match below(3) {
        0 => {}
        1 => args.extend(["-s", "^0.8.4"]),
        _ => args.extend(["-s", ">=0.7.0 <0.9.0"]),
    }
    args.push("a.tree");
    if cli(&args) != 0 {
        mark("refused");
        return;
    }
    mark("generated");
    let r = if skip { cli(&["check", "-m", "a.tree"]) } else { cli(&["check", "a.tree"]) };
    let p = reports(&err());
    note(&err());
    check(p.reports.is_empty(), "check rejects what scaffold generated");
    check(r == 0, "check fails on what scaffold generated");
}

/// The commands over a tree of n branches and any arrangement of its functions, with arbitrary hash
/// functions: everything that is printed or written is what it is with a fixed one.
/// mode: 1 = check, 2 = check --fix, 4 = scaffold; 64 = two trees
pub fn hash_pair(n: u64, mode: u64, _c: u64) {
    fnd::warm();
    let (t, items) = if mode & 64 != 0 { spec_two(n as usize, 3) } else { spec(n as usize, 3) };
    put("a.tree", &t.s);
    let args: &[&str] = match mode & 7 {
        1 => &["check", "a.tree"],
        2 => &["check", "--fix", "a.tree"],
        _ => &["scaffold", "a.tree"],
    };
    let mut s = String::new();
    if mode & 4 == 0 {
        let mut sol = Sol { name: Some("Root".into()), ..Sol::default() };
        let mut order = if mode & 64 == 0 { arrange(&items, 8) } else { (0..items.len()).collect() };
        if mode & 64 != 0 {
            match below(4) {
                0 => order.reverse(),
                1 => order.clear(),
                2 => order.retain(|i| i % 2 == 0),
                _ => order.truncate(items.len() - 1),
            }
        }
        for o in order {
            sol.parts.push(part(&items[o], &items[o].name, BODIES[0]));
        }
        s = sol.render(false);
        put("a.t.sol", &s);
    }
    let r = cli(args);
    let (o, e) = (out(), err());
    let f = std::fs::read("a.t.sol").ok();
    if mode & 4 == 0 {
        put("a.t.sol", &s);
    }
    hashmode(if mode & 64 == 0 { 1 } else { 2 });
    let r2 = cli(args);
    hashmode(0);
    note(&o);
    note(&e);
    check(r == r2, "the exit status depends on the hash seed");
    check(o == out() && e == err(), "what is printed depends on the hash seed");
    check(f == std::fs::read("a.t.sol").ok(), "what is written depends on the hash seed");
    mark("same");
}
