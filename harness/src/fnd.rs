//! Scaffolding: what the documentation says a tree becomes, against what comes out.

use crate::gen;
use crate::orc::*;
use crate::rt::*;
use bulloak_foundry::config::Config;

pub fn cfg(skip: bool, vm: bool, version: &str) -> Config {
    Config { skip_modifiers: skip, emit_vm_skip: vm, solidity_version: version.to_string(), ..Config::default() }
}

/// one definition of the generated contract
#[derive(Clone, Debug)]
pub struct Item {
    pub modifier: bool,
    pub name: String,
    pub mods: Vec<String>,
    /// the lines of the body
    pub body: Vec<String>,
    /// the line of the tree it comes from
    pub line: usize,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.modifier == o.modifier && self.name == o.name && self.mods == o.mods && self.body == o.body
    }
}

/// the generated file, taken apart
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub head: Vec<String>,
    pub contract: String,
    pub base: bool,
    pub items: Vec<Item>,
    pub after: Vec<String>,
}

pub fn lines(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut from = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            out.push(&s[from..i]);
            from = i + 1;
        }
    }
    if from < b.len() {
        out.push(&s[from..]);
    }
    out
}
fn has(b: &[u8], p: &str) -> bool {
    b.len() >= p.len() && b[..p.len()] == *p.as_bytes()
}
fn sub(b: &[u8]) -> String {
    match String::from_utf8(b.to_vec()) {
        Ok(s) => s,
        Err(_) => fail("the output is cut inside a character"),
    }
}
/// the blank-separated words of a line
fn split(b: &[u8]) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Vec<u8> = vec![];
    for &c in b {
        if c == b' ' {
            if !cur.is_empty() {
                out.push(sub(&cur));
                cur = vec![];
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(sub(&cur));
    }
    out
}

/// Take a generated file apart. Everything has to be accounted for.
pub fn parse(s: &str) -> Out {
    let ls = lines(s);
    let mut o = Out::default();
    let mut i = 0;
    while i < ls.len() && !has(ls[i].as_bytes(), "contract ") {
        if !ls[i].is_empty() {
            o.head.push(ls[i].to_string());
        }
        i += 1;
    }
    if i == ls.len() {
        fail("the output has no contract");
    }
    let w = split(ls[i].as_bytes());
    check(w.len() >= 2 && (w[w.len() - 1] == "{" || w[w.len() - 1] == "{}"), "the contract header is malformed");
    o.contract = w[1].clone();
    if w.len() > 3 {
        check(w.len() == 5 && w[2] == "is" && w[3] == "Test", "the contract has an unexpected base");
        o.base = true;
    }
    let empty = w[w.len() - 1] == "{}";
    i += 1;
    if !empty {
        loop {
            if i >= ls.len() {
                fail("the contract is not closed");
            }
            let b = ls[i].as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            if has(b, "}") {
                i += 1;
                break;
            }
            let modifier = has(b, "    modifier ");
            check(modifier || has(b, "    function "), "the contract contains something that is neither a test nor a modifier");
            // the header goes on until the brace
            let mut words = split(b);
            while words[words.len() - 1] != "{" && words[words.len() - 1] != "{}" {
                i += 1;
                if i >= ls.len() {
                    fail("a definition has no body");
                }
                words.extend(split(ls[i].as_bytes()));
            }
            let open = words[words.len() - 1] == "{";
            words.pop();
            i += 1;
            let mut it = Item { modifier, name: String::new(), mods: vec![], body: vec![], line: 0 };
            let n = words[1].as_bytes();
            check(n.len() > 2 && n[n.len() - 2..] == *b"()", "a definition takes parameters");
            it.name = sub(&n[..n.len() - 2]);
            if modifier {
                check(words.len() == 2, "a modifier has attributes");
            } else {
                check(words.len() >= 3 && words[2] == "external", "a test is not external");
                it.mods = words[3..].to_vec();
            }
            if open {
                loop {
                    if i >= ls.len() {
                        fail("a body is not closed");
                    }
                    let b = ls[i].as_bytes();
                    i += 1;
                    if has(b, "    }") {
                        break;
                    }
                    if b.is_empty() {
                        it.body.push(String::new());
                    } else {
                        check(has(b, "        "), "a body line is not indented");
                        it.body.push(sub(&b[8..]));
                    }
                }
            }
            o.items.push(it);
        }
    }
    while i < ls.len() {
        if !ls[i].is_empty() {
            o.after.push(ls[i].to_string());
        }
        i += 1;
    }
    o
}

/// what a tree becomes, by the documentation; `prefix`: the function part of a multi-tree root
pub fn model(nodes: &[Node], prefix: &str) -> Vec<Item> {
    let mut out = vec![];
    let mut stack = vec![];
    let kids = children(nodes, 0);
    for k in kids {
        match nodes[k].kind {
            Kind::Act => {
                let name = format!("test_{}{}", prefix, camel_action(&nodes[k].words[1..]));
                let mut body = vec![];
                act_body(nodes, k, &mut body);
                out.push(Item { modifier: false, name, mods: vec![], body, line: nodes[k].line });
            }
            _ => cond(nodes, k, prefix, &mut stack, &mut out),
        }
    }
    out
}
fn children(nodes: &[Node], i: usize) -> Vec<usize> {
    let mut v = vec![];
    for j in i + 1..nodes.len() {
        if nodes[j].depth <= nodes[i].depth {
            break;
        }
        if nodes[j].depth == nodes[i].depth + 1 {
            v.push(j);
        }
    }
    v
}
fn act_body(nodes: &[Node], k: usize, body: &mut Vec<String>) {
    body.push(format!("// {}", nodes[k].title()));
    for j in k + 1..nodes.len() {
        if nodes[j].depth <= nodes[k].depth {
            break;
        }
        let mut s = String::from("// ");
        for _ in 0..nodes[j].indent {
            s.push(' ');
        }
        s.push_str(&nodes[j].title());
        body.push(s);
    }
}
pub fn modifier_name(n: &Node) -> String {
    lower_first(&camel(&n.words))
}
fn cond(nodes: &[Node], k: usize, prefix: &str, stack: &mut Vec<String>, out: &mut Vec<Item>) {
    let kids = children(nodes, k);
    let inner = kids.iter().any(|&c| nodes[c].kind == Kind::Cond);
    if inner {
        let m = modifier_name(&nodes[k]);
        stack.push(m.clone());
        out.push(Item { modifier: true, name: m, mods: vec![], body: vec!["_;".to_string()], line: nodes[k].line });
    }
    let acts: Vec<usize> = kids.iter().copied().filter(|&c| nodes[c].kind == Kind::Act).collect();
    if !acts.is_empty() {
        let mut s = String::new();
        for (i, w) in nodes[acts[0]].words.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(&clean(&w.to_lowercase()));
        }
        let w = &nodes[k].words;
        let name = if s == "it should revert" {
            format!("test_{}Revert{}_{}", prefix, camel(&w[..1]), camel(&w[1..]))
        } else {
            format!("test_{}{}", prefix, camel(w))
        };
        let mut body = vec![];
        for a in acts {
            act_body(nodes, a, &mut body);
        }
        out.push(Item { modifier: false, name, mods: stack.clone(), body, line: nodes[k].line });
    }
    for c in kids {
        if nodes[c].kind == Kind::Cond {
            cond(nodes, c, prefix, stack, out);
        }
    }
    if inner {
        stack.pop();
    }
}

/// do two items share kind and name?
pub fn clash(items: &[Item]) -> bool {
    for i in 0..items.len() {
        for j in 0..i {
            if items[i].modifier == items[j].modifier && items[i].name == items[j].name {
                return true;
            }
        }
    }
    false
}

const SKIP: &str = "vm.skip(true);";

/// Scaffold `text`, a drawing of the trees `trees`, and check aspect `what` (the property's number).
pub fn judge_output(text: &str, trees: &[Text], what: u64) {
    let vary = what == 15;
    judge_version(text, trees, what, vary)
}
pub fn judge_version(text: &str, trees: &[Text], what: u64, vary: bool) {
    if what == 18 {
        return crate::chk::round_trip(text);
    }
    let (mut skip, mut vm) = (false, false);
    if what == 13 || what == 14 || what == 16 {
        skip = flag();
        vm = flag();
    } else if what == 12 || what == 11 || what == 15 {
        vm = flag();
    }
    let version = if vary {
        let mut v = String::from(if flag() { "^0.8." } else { "0." });
        v.push(one_of(b"0123456789") as char);
        if flag() {
            v.push_str(".2");
        }
        v
    } else {
        "0.8.0".to_string()
    };
    let c = cfg(skip, vm, &version);
    let got = bulloak_foundry::scaffold::scaffold(text, &c);
    let got = match got {
        Ok(s) => s,
        Err(e) => {
            mark("refused");
            note(e.to_string().as_bytes());
            refused(trees, what);
            return;
        }
    };
    note(got.as_bytes());
    mark("generated");
    let nodes: Vec<Vec<Node>> = trees
        .iter()
        .map(|t| match judge(t) {
            Ok(n) => n,
            Err(_) => fail("code was generated from a malformed tree"),
        })
        .collect();
    if what == 16 {
        match forge_fmt::fmt(&got) {
            Ok(s) => check(s == got, "formatting the generated code again changes it"),
            Err(_) => fail("the generated code does not parse"),
        }
        check(!clash(&parse(&got).items), "the generated contract defines a name twice");
        return;
    }
    let o = parse(&got);
    let root = &nodes[0][0].words[0];
    let (name, want) = if trees.len() == 1 { (root.clone(), model(&nodes[0], "")) } else { combined(&nodes) };
    let tests: Vec<&Item> = o.items.iter().filter(|i| !i.modifier).collect();
    let wtests: Vec<&Item> = want.iter().filter(|i| !i.modifier).collect();
    match what {
        10 => {
            check(tests.len() == wtests.len(), "the number of generated tests is wrong");
            for (a, b) in tests.iter().zip(&wtests) {
                check(a.name == b.name, "a generated test has the wrong name or place");
            }
        }
        11 => {
            check(tests.len() == wtests.len(), "the number of generated tests is wrong");
            for (a, b) in tests.iter().zip(&wtests) {
                let n = if vm { a.body.len() - 1 } else { a.body.len() };
                check(n == b.body.len(), "a test body has the wrong number of comments");
                for (x, y) in a.body.iter().zip(&b.body) {
                    check(x == y, "a comment is not the text of the tree");
                }
            }
        }
        12 => {
            check(tests.len() == wtests.len(), "the number of generated tests is wrong");
            for (a, b) in tests.iter().zip(&wtests) {
                check(a.mods == b.mods, "a test does not carry the modifiers of its path");
            }
            let m: Vec<&Item> = o.items.iter().filter(|i| i.modifier).collect();
            let wm: Vec<&Item> = want.iter().filter(|i| i.modifier).collect();
            check(m.len() == wm.len(), "the number of modifiers is wrong");
            for (a, b) in m.iter().zip(&wm) {
                check(a.name == b.name, "a modifier has the wrong name or place");
                check(a.body == b.body, "a modifier has the wrong body");
            }
            // defined before use
            for (i, t) in o.items.iter().enumerate() {
                for u in &t.mods {
                    check(o.items[..i].iter().any(|d| d.modifier && d.name == *u), "a modifier is used before it is defined");
                    mark("modifier used");
                }
            }
        }
        13 => {
            let other = match bulloak_foundry::scaffold::scaffold(text, &cfg(!skip, vm, &version)) {
                Ok(s) => parse(&s),
                Err(_) => fail("a tree is accepted or refused depending on --skip-modifiers"),
            };
            let (with, without) = if skip { (other, o) } else { (o, other) };
            check(with.head == without.head && with.contract == without.contract && with.base == without.base && with.after == without.after, "skipping modifiers changes the header");
            check(without.items.iter().all(|i| !i.modifier), "a modifier is defined although modifiers are skipped");
            let kept: Vec<&Item> = with.items.iter().filter(|i| !i.modifier).collect();
            check(kept.len() == without.items.len(), "skipping modifiers changes the tests");
            for (a, b) in kept.iter().zip(&without.items) {
                check(**a == *b, "skipping modifiers changes a test");
            }
            if kept.len() < with.items.len() {
                mark("modifiers skipped");
            }
        }
        14 => {
            let other = match bulloak_foundry::scaffold::scaffold(text, &cfg(skip, !vm, &version)) {
                Ok(s) => parse(&s),
                Err(_) => fail("a tree is accepted or refused depending on --vm-skip"),
            };
            let (with, without) = if vm { (o, other) } else { (other, o) };
            check(with.base && !without.base, "the base contract is wrong");
            check(with.contract == without.contract && with.after == without.after, "vm-skip changes the contract");
            let import = "import {Test} from \"forge-std/Test.sol\";";
            check(with.head.iter().filter(|l| *l == import).count() == 1, "the import is missing or repeated");
            check(!without.head.iter().any(|l| l == import), "the import is there without vm-skip");
            let rest: Vec<&String> = with.head.iter().filter(|l| *l != import).collect();
            check(rest.len() == without.head.len() && rest.iter().zip(&without.head).all(|(a, b)| *a == b), "vm-skip changes the header");
            check(with.items.len() == without.items.len(), "vm-skip changes the definitions");
            for (a, b) in with.items.iter().zip(&without.items) {
                check(a.modifier == b.modifier && a.name == b.name && a.mods == b.mods, "vm-skip changes a definition");
                if a.modifier {
                    check(a.body == b.body, "vm-skip changes a modifier");
                } else {
                    check(a.body.iter().filter(|l| *l == SKIP).count() == 1, "a test does not skip exactly once");
                    check(a.body[a.body.len() - 1] == SKIP && a.body[..a.body.len() - 1] == b.body[..], "vm-skip changes a test's comments");
                    check(!b.body.iter().any(|l| l == SKIP), "a test skips without vm-skip");
                }
            }
        }
        15 => {
            check(o.head.len() == if vm { 3 } else { 2 }, "the header has unexpected lines");
            check(o.head[0] == "// SPDX-License-Identifier: UNLICENSED", "the license line is missing");
            check(o.head[1] == format!("pragma solidity {version};"), "the pragma does not carry the requested version");
            check(o.contract == clean(&name), "the contract is not named after the root");
            check(o.after.is_empty(), "something follows the contract");
        }
        17 => {
            check(o.contract == clean(&name), "the combined contract has the wrong name");
            check(o.items.len() == want.len(), "the combined contract has the wrong number of definitions");
            for (a, b) in o.items.iter().zip(&want) {
                check(a == b, "a definition of the combined contract is wrong");
            }
            mark("combined");
        }
        _ => {}
    }
}

/// the contract several trees make together
pub fn combined(nodes: &[Vec<Node>]) -> (String, Vec<Item>) {
    let mut name = String::new();
    let mut out: Vec<Item> = vec![];
    for n in nodes {
        let r = &n[0].words[0];
        let (c, f) = match r.split_once("::") {
            Some(x) => x,
            None => fail("roots without a function part were combined"),
        };
        check(!c.is_empty(), "a root without a contract name was combined");
        if name.is_empty() {
            name = c.to_string();
        }
        check(name == c, "roots of different contracts were combined");
        for i in model(n, &upper(&clean(f))) {
            if i.modifier && out.iter().any(|o| o.modifier && o.name == i.name) {
                continue;
            }
            out.push(i);
        }
    }
    (name, out)
}
fn upper(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i == 0 {
            for u in c.to_uppercase() {
                o.push(u);
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// scaffold refused the trees: was there a reason?
fn refused(trees: &[Text], what: u64) {
    if what != 16 && what != 17 && what != 10 {
        return;
    }
    let mut nodes = vec![];
    for t in trees {
        match judge(t) {
            Ok(n) => nodes.push(n),
            Err(_) => return,
        }
    }
    for n in &nodes {
        if !duplicates(n).is_empty() {
            mark("duplicate");
            return;
        }
    }
    if trees.len() > 1 {
        for n in &nodes {
            let r = &n[0].words[0];
            match r.split_once("::") {
                Some((c, _)) if !c.is_empty() => {}
                _ => return,
            }
        }
        let c0 = nodes[0][0].words[0].split_once("::").map(|x| x.0.to_string());
        if nodes.iter().any(|n| n[0].words[0].split_once("::").map(|x| x.0.to_string()) != c0) {
            return;
        }
        let (name, items) = combined(&nodes);
        if clash(&items) {
            mark("clash");
            return;
        }
        check(!name_ok(&clean(&name)), "a set of trees that makes a contract was refused");
        return;
    }
    if clash(&model(&nodes[0], "")) {
        mark("clash");
        return;
    }
    check(!name_ok(&clean(&nodes[0][0].words[0])), "a tree that makes a contract was refused");
    mark("bad contract name");
}
/// could this be the name of a contract? (conservative: what is certainly one)
fn name_ok(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0] >= b'A' && b[0] <= b'Z' && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// warm-up: what is initialised once is initialised before anything is symbolic
pub fn warm() {
    let _ = bulloak_foundry::scaffold::scaffold("W\n└── it w", &cfg(false, true, "0.8.0"));
}

/// Every shape of n branches, one of them (or none) with a word of w arbitrary characters.
pub fn tree(n: u64, w: u64, what: u64) {
    warm();
    let n = n as usize;
    let mut v = gen::shape(n, 0);
    let hot = if w == 0 { n } else { below(n) };
    for i in 0..n {
        let k = v[i].kind;
        if let Some(k) = gen::keyword(k, i == hot) {
            v[i].words.push(k.to_string());
        }
        let mut s = String::new();
        if i == hot {
            for j in 0..w {
                s.push(if k == Kind::Cond {
                    gen::tch()
                } else if j == 0 {
                    gen::wch0()
                } else {
                    gen::wch()
                });
            }
            if k != Kind::Cond {
                assume(!gen::starts_comment(&s));
            }
            if k == Kind::Desc {
                assume(!gen::is_keyword(&s));
            }
        } else {
            s.push(gen::letter());
        }
        v[i].words.push(s);
        if i == hot || k == Kind::Act {
            v[i].words.push(gen::s1((b'a' + i as u8) as char));
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    judge_output(&t.s.clone(), &[t], what);
}

/// Titles around `it should revert`, in every shape of n branches.
pub fn revert(n: u64, w: u64, what: u64) {
    warm();
    let n = n as usize;
    let mut v = gen::shape(n, 1);
    for i in 0..n {
        match v[i].kind {
            Kind::Cond => {
                let k = below(4);
                v[i].words.push(["when", "given", "When", "GIVEN"][k].to_string());
                v[i].words.push(format!("c{}", (b'a' + i as u8) as char));
            }
            _ => {
                let mut set = |s: &str| v[i].words.extend(s.split(' ').map(|x| x.to_string()));
                match below(5) {
                    0 => set("it should revert"),
                    1 => set("It SHOULD Revert."),
                    2 => set("it should revert now"),
                    3 => {
                        set("it should rever");
                        for _ in 0..w {
                            let c = gen::wch();
                            v[i].words[2].push(c);
                        }
                    }
                    _ => {
                        set("it works");
                    }
                }
                if v[i].depth == 1 {
                    v[i].words.push(format!("x{i}"));
                }
            }
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    judge_output(&t.s.clone(), &[t], what);
}

/// A root name of w arbitrary characters above a small tree.
pub fn root(n: u64, w: u64, what: u64) {
    warm();
    let mut s = String::new();
    for j in 0..w {
        s.push(if j == 0 { gen::wch0() } else { gen::wch() });
    }
    if n == 1 {
        // known to start a contract's name
        s = format!("R{s}");
    }
    assume(!gen::starts_comment(&s) && !gen::is_keyword(&s));
    let mut v = vec![gen::Ln { depth: 1, kind: Kind::Cond, words: vec!["when".into(), "a".into()] }, gen::Ln { depth: 2, kind: Kind::Act, words: vec!["it".into(), "b".into()] }];
    if flag() {
        v.remove(0);
        v[0].depth = 1;
    }
    let mut t = Text::new();
    gen::draw(&mut t, &s, &v);
    judge_version(&t.s.clone(), &[t], what, what == 15 && w < 2);
}

/// n trees with roots and bodies of a few kinds.
pub fn multi(n: u64, b: u64, what: u64) {
    warm();
    let mut trees = vec![];
    let mut text = String::new();
    for i in 0..n as usize {
        let mut t = Text::new();
        let root = match below(if b & 1 == 1 { 11 } else { 4 }) {
            0 => format!("A::f{}", gen::few(2)),
            1 => "A::g-h".to_string(),
            2 => "B::f".to_string(),
            3 => "A".to_string(),
            4 => "::f".to_string(),
            5 => "A::".to_string(),
            6 => "A::f::g".to_string(),
            7 => "A::test_f(x)".to_string(),
            8 => format!("{}::h", gen::s1(one_of(b"Aa") as char)),
            9 => format!("A{}::h", gen::s1(one_of(b"aA_0") as char)),
            _ => "A:f".to_string(),
        };
        let mut v = vec![];
        let mut add = |depth: usize, kind: Kind, s: &str| v.push(gen::Ln { depth, kind, words: s.split(' ').map(|x| x.to_string()).collect() });
        match below(4) {
            0 => add(1, Kind::Act, &format!("it {}", gen::few(2))),
            1 => {
                add(1, Kind::Cond, &format!("when {}", gen::few(2)));
                add(2, Kind::Act, "it should revert");
            }
            2 => {
                add(1, Kind::Cond, &format!("when {}", gen::few(2)));
                add(2, Kind::Act, "it y");
                add(2, Kind::Cond, &format!("given {}", gen::few(2)));
                add(3, Kind::Act, "it z");
                add(4, Kind::Desc, "d");
            }
            _ => {
                add(1, Kind::Act, "it test_a");
                add(1, Kind::Cond, "when p");
                add(2, Kind::Cond, &format!("when {}", gen::few(2)));
                add(3, Kind::Act, "it z");
            }
        }
        gen::draw(&mut t, &root, &v);
        if i > 0 {
            text.push_str("\n\n");
        }
        text.push_str(&t.s);
        trees.push(t);
    }
    if what == 17 {
        multi_roots(&text, &trees);
    }
    judge_output(&text, &trees, what);
}
/// which root is the first offending one, and is it named?
fn multi_roots(text: &str, trees: &[Text]) {
    if trees.len() < 2 {
        return;
    }
    let mut first = None;
    let mut name = String::new();
    for (i, t) in trees.iter().enumerate() {
        if judge(t).map_or(true, |n| !duplicates(&n).is_empty()) {
            return;
        }
        let r = &t.toks[0].text;
        let bad = match r.split_once("::") {
            None => true,
            Some((c, _)) if c.is_empty() => true,
            Some((c, _)) => {
                if name.is_empty() {
                    name = c.to_string();
                }
                name != c
            }
        };
        if bad {
            first = Some(i);
            break;
        }
    }
    if let Some(i) = first {
        match bulloak_foundry::scaffold::scaffold(text, &cfg(false, false, "0.8.0")) {
            Ok(_) => fail("roots that do not belong together were combined"),
            Err(e) => {
                mark("offending root");
                let m = e.to_string();
                let r = &trees[i].toks[0].text;
                let c = r.split_once("::").map(|x| x.0).unwrap_or("");
                let named = m.contains(&format!("#{}", i + 1)) || (!c.is_empty() && m.contains(&format!("'{c}'")));
                check(named, "the error does not name the first offending root");
            }
        }
    }
}

/// Long names: the header of a test is wrapped.
/// Trees of n branches whose titles are two symbolic letters each, both cases (mode 1: and a word)
pub fn titles(n: u64, mode: u64, what: u64) {
    warm();
    let n = n as usize;
    let mut v = gen::shape(n, 3);
    for i in 0..n {
        if let Some(k) = gen::keyword(v[i].kind, false) {
            v[i].words.push(k.to_string());
        }
        if v[i].kind == Kind::Cond || mode & 1 != 0 {
            let mut s = gen::s1('a');
            s.push(one_of(b"bBc_") as char);
            v[i].words.push(s);
        } else {
            v[i].words.push(gen::s1((b'p' + i as u8) as char));
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    judge_output(&t.s.clone(), &[t], what);
}
pub fn long(n: u64, _w: u64, what: u64) {
    warm();
    let mut v = vec![];
    let mut w = String::from("a");
    let k = below(3) * 25 + 5;
    for _ in 0..k {
        w.push('b');
    }
    for i in 0..n as usize {
        v.push(gen::Ln { depth: i + 1, kind: Kind::Cond, words: vec!["when".into(), w.clone(), gen::s1((b'a' + i as u8) as char)] });
    }
    let mut a = vec!["it".to_string()];
    for _ in 0..below(4) * 12 {
        a.push("word".into());
    }
    a.push(gen::s1(gen::letter()));
    v.push(gen::Ln { depth: n as usize + 1, kind: Kind::Act, words: a });
    v.push(gen::Ln { depth: n as usize + 1, kind: Kind::Act, words: vec!["it".into(), "x".into()] });
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    judge_output(&t.s.clone(), &[t], what);
}

static VER: &[u8] = b"0123456789.^>=<~ |x";
/// A version of n characters.
pub fn version(n: u64, vm: u64, _c: u64) {
    warm();
    let mut v = String::new();
    for _ in 0..n {
        v.push(one_of(VER) as char);
    }
    let c = cfg(false, vm == 1, &v);
    match bulloak_foundry::scaffold::scaffold("W\n└── it w", &c) {
        Ok(s) => {
            mark("generated");
            note(s.as_bytes());
            let o = parse(&s);
            check(o.head.len() == 2 + vm as usize, "the header has unexpected lines");
            // the formatter normalises blanks
            check(dense(&o.head[1]) == dense(&format!("pragma solidity {v};")), "the pragma does not carry the requested version");
        }
        Err(e) => {
            mark("refused");
            note(e.to_string().as_bytes());
        }
    }
}
fn dense(s: &str) -> String {
    let mut o = vec![];
    for c in s.bytes() {
        if c != b' ' {
            o.push(c);
        }
    }
    sub(&o)
}
