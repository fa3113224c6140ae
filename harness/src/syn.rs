use crate::gen;
use crate::orc::*;
use crate::rt::*;
use bulloak_syntax::{Ast, FrontendError};

/// n arbitrary characters; b = 1: render the diagnostic too
pub fn raw(n: u64, b: u64, _c: u64) {
    let mut s = String::new();
    for _ in 0..n {
        s.push(ch());
    }
    parse_any(&s, b == 1);
}
/// n arbitrary ASCII characters after the start of a tree
pub fn raw_after(n: u64, b: u64, _c: u64) {
    let mut s = String::from(match b {
        0 => "R\n└ when ",
        1 => "R\n└ ",
        2 => "R\n└ it ",
        3 => "R\n└ when a\n  └ it b\n    └ ",
        5 => "R\n\t└ when ",
        6 => "R\n\t├ it a\n\t├ é",
        _ => "R // ",
    });
    for _ in 0..n {
        s.push(ch());
    }
    parse_any(&s, true);
}
fn parse_any(s: &str, render: bool) {
    match bulloak_syntax::parse(s) {
        Ok(t) => {
            mark("accepted");
            note(&[1, t.len() as u8]);
        }
        Err(e) => {
            mark("rejected");
            if render {
                note(e.to_string().as_bytes());
            } else {
                note(&[0]);
            }
        }
    }
}

/// the nodes of an AST, in pre-order: kind, depth, text, line, column
pub struct Flat {
    pub kind: Kind,
    pub depth: usize,
    pub text: String,
    pub line: usize,
    pub col: usize,
}
pub fn flatten(a: &Ast, depth: usize, out: &mut Vec<Flat>) {
    let (kind, text, kids): (Kind, &str, &[Ast]) = match a {
        Ast::Root(r) => (Kind::Root, &r.contract_name, &r.children),
        Ast::Condition(c) => (Kind::Cond, &c.title, &c.children),
        Ast::Action(c) => (Kind::Act, &c.title, &c.children),
        Ast::ActionDescription(d) => (Kind::Desc, &d.text, &[]),
    };
    out.push(Flat { kind, depth, text: text.to_string(), line: a.span().start.line, col: a.span().start.column });
    for k in kids {
        flatten(k, depth + 1, out);
    }
}

/// does the AST say what the nodes say?
pub fn same_tree(a: &Ast, nodes: &[Node]) {
    let mut f = vec![];
    flatten(a, 0, &mut f);
    check(f.len() == nodes.len(), "the parsed tree has a different number of nodes than the drawn one");
    for (x, n) in f.iter().zip(nodes) {
        check(x.kind == n.kind, "a branch was parsed as the wrong kind");
        // descriptions hang directly below their action
        let d = if n.kind == Kind::Desc { None } else { Some(n.depth) };
        if let Some(d) = d {
            check(x.depth == d, "a branch was parsed at the wrong depth");
        }
        let want = match n.kind {
            Kind::Root | Kind::Act => n.title(),
            Kind::Cond => {
                let mut s = String::new();
                for (i, w) in n.words.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    s.push_str(&clean(w));
                }
                s
            }
            Kind::Desc => {
                let mut s = String::new();
                for _ in 0..n.indent {
                    s.push(' ');
                }
                s.push_str(&n.title());
                s
            }
        };
        check(x.text == want, "a branch was parsed with different text");
        check(x.line == n.line && x.col == n.col, "a branch was parsed with the wrong position");
    }
    // a description belongs to the action drawn right before it
    let mut i = 0;
    let mut owner = 0;
    for x in &f {
        if x.kind == Kind::Act {
            owner = x.depth;
        }
        if x.kind == Kind::Desc {
            check(x.depth == owner + 1, "a description was attached to the wrong branch");
        }
        i += 1;
    }
    let _ = i;
}

/// line, column and message of a diagnostic
pub struct Diag {
    pub line: usize,
    pub col: usize,
    pub text: String,
    pub kind: &'static str,
    pub dups: Vec<Vec<usize>>,
}
pub fn diags(e: &anyhow::Error) -> Vec<Diag> {
    let mut out = vec![];
    if let Some(e) = e.downcast_ref::<bulloak_syntax::tokenizer::Error>() {
        out.push(Diag { line: e.span().start.line, col: e.span().start.column, text: e.to_string(), kind: "tok", dups: vec![] });
    } else if let Some(e) = e.downcast_ref::<bulloak_syntax::parser::Error>() {
        out.push(Diag { line: e.span().start.line, col: e.span().start.column, text: e.to_string(), kind: "parse", dups: vec![] });
    } else if let Some(e) = e.downcast_ref::<bulloak_syntax::semantics::Errors>() {
        for x in &e.0 {
            let mut dups = vec![];
            let kind = match x.kind() {
                bulloak_syntax::semantics::ErrorKind::IdentifierDuplicated(s) => {
                    dups.push(s.iter().map(|p| p.start.line).collect());
                    "dup"
                }
                _ => "sem",
            };
            out.push(Diag { line: x.span().start.line, col: x.span().start.column, text: x.to_string(), kind, dups });
        }
    }
    out
}

/// Compare what the parser said about `t` with what the model says.
/// what: 2 structure, 5 acceptance, 6 diagnostics
pub fn compare(t: &Text, what: u64) {
    let r = bulloak_syntax::parse_one(&t.s);
    let want = judge(t);
    match (&r, &want) {
        (Ok(a), Ok(n)) => {
            mark("accepted");
            note(&[1]);
            if what == 5 {
                check(duplicates(n).is_empty(), "a tree with colliding identifiers was accepted");
            }
            if what == 2 {
                same_tree(a, n);
            }
        }
        (Ok(_), Err(_)) => {
            note(&[1]);
            if what == 5 {
                fail("a malformed tree was accepted");
            }
        }
        (Err(e), Ok(n)) => {
            note(&[0]);
            let ds = diags(e);
            let dup = ds.iter().all(|d| d.kind == "dup") && !ds.is_empty();
            if dup {
                mark("duplicate");
            }
            if what == 5 || what == 2 {
                check(dup && !duplicates(n).is_empty(), "a well-formed tree was rejected");
            }
            if what == 6 {
                for d in &ds {
                    placed(t, d, &n.iter().map(|x| (x.line, x.col)).collect::<Vec<_>>());
                }
            }
        }
        (Err(e), Err(w)) => {
            mark("rejected");
            note(&[0]);
            if what == 6 {
                let ds = diags(e);
                check(!ds.is_empty() || t.toks.is_empty(), "a rejection without a diagnostic");
                for d in &ds {
                    let mut w = w.clone();
                    if d.kind == "dup" {
                        w.extend(t.toks.iter().filter(|t| t.k.glyph()).map(|t| (t.line, t.col)));
                    }
                    placed(t, d, &w);
                }
            }
        }
    }
}

/// the diagnostic names one of the places `w`, shows that line and puts the caret below the column
fn placed(t: &Text, d: &Diag, w: &[(usize, usize)]) {
    if t.toks.is_empty() {
        return;
    }
    check(w.iter().any(|p| *p == (d.line, d.col)), "a diagnostic names a place where nothing is wrong");
    let x = d.text.as_bytes();
    let tail = format!("\n\n--- (line {}, column {}) ---\n", d.line, d.col);
    if !(x.len() > tail.len() && x[x.len() - tail.len()..] == *tail.as_bytes()) {
        // a complaint about the first character of the file may come without a place
        check((d.line, d.col) == (1, 1), "a diagnostic does not end with its line and column");
        mark("no place");
        return;
    }
    // backwards: carets, blanks up to the column, the source line
    let mut i = x.len() - tail.len();
    let mut carets = 0;
    while i > 0 && x[i - 1] == b'^' {
        i -= 1;
        carets += 1;
    }
    check(carets > 0, "a diagnostic has no caret");
    check(i > d.col && x[i - d.col..i].iter().skip(1).all(|c| *c == b' ' || *c == b'\t') && x[i - d.col] == b'\n', "the caret is not below the offending column");
    let i = i - d.col;
    let src = match t.s.split('\n').nth(d.line - 1) {
        Some(s) => s.trim_end_matches('\r').as_bytes(),
        None => fail("a diagnostic names a line the text does not have"),
    };
    check(i > src.len() && x[i - src.len()..i] == *src && x[i - src.len() - 1] == b'\n', "a diagnostic does not show the offending source line");
    mark("placed");
}

/// One line of n items in any order after a root (b & 1: at the start of the text).
pub fn soup(n: u64, b: u64, what: u64) {
    let mut t = Text::new();
    if b & 1 == 0 {
        t.tok(K::Word, "R");
        t.newline();
    }
    let mut fresh = true;
    for _ in 0..n {
        let k = below(7);
        if k == 6 {
            t.newline();
            let i = below(3);
            t.spaces(i);
            fresh = true;
            continue;
        }
        if !fresh {
            t.blank(' ');
        }
        fresh = false;
        match k {
            0 => t.tok(K::Tee, "├"),
            1 => t.tok(K::Corner, "└"),
            2 => t.tok(K::When, "when"),
            3 => t.tok(K::Given, "given"),
            4 => t.tok(K::It, "it"),
            _ => {
                let mut s = String::new();
                s.push(if b & 2 == 2 { one_of(b"ab@-") as char } else { gen::wch0() });
                t.tok(K::Word, &s);
            }
        }
    }
    compare(&t, what);
}

/// n lines, each: indentation, glyph, first token, possibly a word
pub fn lines(n: u64, b: u64, what: u64) {
    let mut t = Text::new();
    t.tok(K::Word, "R");
    for i in 0..n {
        t.newline();
        let ind = below(4);
        if b & 16 != 0 {
            // one column per level, blanks or tabs
            for _ in 0..ind {
                t.blank(one_of(b" \t") as char);
            }
        } else {
            t.spaces(ind * 2);
        }
        if b & 1 == 1 || i > 0 {
            match below(if b & 2 == 2 { 3 } else { 2 }) {
                0 => t.tok(K::Tee, "├"),
                1 => t.tok(K::Corner, "└"),
                _ => {}
            }
        } else {
            if flag() { t.tok(K::Tee, "├") } else { t.tok(K::Corner, "└") }
        }
        t.blank(' ');
        let k = below(if b & 1 == 1 { 4 } else { 3 });
        match k {
            0 => t.tok(K::When, "when"),
            1 => t.tok(K::It, "it"),
            2 => {
                let mut s = String::new();
                s.push((b'a' + i as u8) as char);
                t.tok(K::Word, &s);
            }
            _ => t.tok(K::Given, "Given"),
        }
        if b & 4 == 0 || flag() {
            t.blank(' ');
            let mut s = String::new();
            s.push(if b & 8 == 8 { gen::wch0() } else { (b'a' + i as u8) as char });
            t.tok(K::Word, &s);
        }
    }
    compare(&t, what);
}

/// Every shape of n branches; one branch has a word of w arbitrary characters.
pub fn tree(n: u64, w: u64, what: u64) {
    let n = n as usize;
    let mut v = gen::shape(n, 0);
    let hot = below(n);
    for i in 0..n {
        let k = v[i].kind;
        if let Some(k) = gen::keyword(k, i == hot) {
            v[i].words.push(k.to_string());
        }
        let mut s = String::new();
        if i == hot {
            for j in 0..w {
                s.push(if k == Kind::Cond {
                    gen::tch()
                } else if j == 0 {
                    gen::wch0()
                } else {
                    gen::wch()
                });
            }
            if k != Kind::Cond {
                assume(!gen::starts_comment(&s));
            }
            if k == Kind::Desc {
                assume(!gen::is_keyword(&s));
            }
        } else {
            s.push((b'a' + i as u8) as char);
        }
        v[i].words.push(s);
        if i == hot && k == Kind::Cond {
            // so that the identifiers stay apart
            v[i].words.push("zz".into());
        } else if k == Kind::Act {
            v[i].words.push(gen::s1((b'A' + i as u8) as char));
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "Root", &v);
    compare(&t, what);
}

/// The first word of a branch: n arbitrary ASCII characters (b: what follows it).
pub fn keyword(n: u64, b: u64, what: u64) {
    let mut w = String::new();
    for i in 0..n {
        let c = if what == 1 { ch() } else { ach() };
        assume(!c.is_whitespace());
        if i == 0 {
            assume(!matches!(c, '─' | '│' | '├' | '└'));
        }
        w.push(c);
    }
    assume(!gen::starts_comment(&w));
    let cond = w.eq_ignore_ascii_case("when") || w.eq_ignore_ascii_case("given");
    let act = w.eq_ignore_ascii_case("it");
    let s = match b {
        0 => format!("R\n└── {w} a\n    └── it b\n"),
        1 => format!("R\n├── {w} a\n│   └── it b\n└── it c"),
        2 => format!("R\n└── when x\n    └── {w} a\n"),
        3 => format!("R\n└── when x\n    └── it y\n        └── {w} z"),
        4 => format!("R\n└── when {w}\n    └── it y"),
        5 => format!("R\n└── when x\n    └── it {w}"),
        6 => format!("R\n└── {w}\n    └── it b"),
        7 => format!("{w}\n└── it b"),
        _ => format!("R {w}\n└── it b"),
    };
    let r = bulloak_syntax::parse_one(&s);
    if cond {
        mark("condition keyword");
    }
    if act {
        mark("action keyword");
    }
    let mut f = vec![];
    if let Ok(a) = &r {
        flatten(a, 0, &mut f);
        note(&[1]);
    } else {
        note(&[0]);
    }
    let title = w.chars().all(title_char);
    match b {
        0 | 1 => {
            // a condition with one action below it, or an error
            check(r.is_ok() == cond, "the first word of a branch decides: only when/given make a condition with branches");
            if cond {
                check(f[1].kind == Kind::Cond && f[1].text.len() == w.len() + 2, "keyword text kept");
                check(f[1].text.as_bytes()[..w.len()] == *w.as_bytes(), "the emitted text of a keyword is its spelling");
                check(f[2].kind == Kind::Act && f[2].text == "it b", "the rest of the tree is unchanged");
            }
        }
        2 => {
            check(r.is_ok() == act, "the first word of a leaf decides: only `it` makes an action");
            if act {
                check(f[2].kind == Kind::Act && f[2].text.as_bytes()[..2] == *w.as_bytes(), "the spelling of `it` is kept");
            }
        }
        3 => {
            check(r.is_ok() == !(cond || act), "a description is any branch that does not begin with a keyword");
            if r.is_ok() {
                check(f[3].kind == Kind::Desc, "a description was parsed as something else");
            }
        }
        4 => {
            check(r.is_ok() == title, "keywords inside a title are ordinary words");
            if r.is_ok() {
                check(f[1].kind == Kind::Cond, "kind");
            }
        }
        5 => {
            check(r.is_ok(), "keywords inside an action are ordinary words");
            if r.is_ok() {
                check(f[2].kind == Kind::Act && f[2].text.as_bytes()[3..] == *w.as_bytes(), "an action's words are kept");
            }
        }
        6 => {
            check(r.is_err(), "a condition needs a title");
        }
        7 => {
            check(r.is_ok() == !(cond || act), "a root is any word that is not a keyword");
        }
        _ => {
            check(r.is_err(), "a root is a single word");
        }
    }
}

/// The tree of n branches with decorations at one place: nothing changes.
/// b: number of arbitrary characters in the comment
pub fn layout(n: u64, b: u64, _what: u64) {
    let n = n as usize;
    let mut v = gen::shape(n, 0);
    for i in 0..n {
        if let Some(k) = gen::keyword(v[i].kind, false) {
            v[i].words.push(k.to_string());
        }
        v[i].words.push(gen::s1((b'a' + i as u8) as char));
    }
    let mut plain = Text::new();
    gen::draw(&mut plain, "Root", &v);
    // the decorated text
    let at = below(n + 1);
    let how = below(10);
    let mut body = String::new();
    for _ in 0..b {
        let c = ch();
        assume(c != '\n');
        body.push(c);
    }
    let mut t = Text::new();
    if how == 9 && at == 0 {
        // a comment before the root
        t.comment(&body);
        t.newline();
    }
    t.tok(K::Word, "Root");
    for i in 0..=n {
        if i > 0 {
            t.newline();
            if i == at && how == 4 {
                // wider drawing in front of and behind the glyph
                let l = v[i - 1].clone();
                let _ = l;
                gen::draw_line(&mut t, &v, i - 1);
            } else if i == at && how == 5 {
                wide(&mut t, &v, i - 1);
            } else {
                gen::draw_line(&mut t, &v, i - 1);
            }
        }
        if i == at {
            match how {
                0 => {
                    // a comment on its own line
                    t.newline();
                    t.comment(&body);
                }
                1 => {
                    t.newline();
                    t.spaces(2);
                    t.blank('│');
                    t.blank(' ');
                    t.comment(&body);
                }
                2 => {
                    // a comment after the branch
                    t.blank(' ');
                    t.comment(&body);
                }
                3 => {
                    // trailing blanks
                    for _ in 0..1 + below(2) {
                        let c = one_of(b" \t\r") as char;
                        t.blank(c);
                    }
                }
                6 => {
                    // a line of drawing only
                    t.newline();
                    t.blank('│');
                }
                7 => {
                    t.newline();
                    t.blank(' ');
                    t.blank('│');
                    t.blank(' ');
                }
                8 => {
                    t.blank(' ');
                    t.blank('─');
                    t.blank('│');
                }
                _ => {}
            }
        }
    }
    if flag() {
        t.newline();
    }
    let a = bulloak_syntax::parse(&plain.s);
    let d = bulloak_syntax::parse(&t.s);
    let a = match a {
        Ok(a) => a,
        Err(_) => fail("a well-formed tree was rejected"),
    };
    let d = match d {
        Ok(a) => a,
        Err(_) => fail("a tree was rejected because of a comment or its layout"),
    };
    check(a.len() == 1 && d.len() == 1, "comments or layout changed the number of trees");
    let (mut f, mut g) = (vec![], vec![]);
    flatten(&a[0], 0, &mut f);
    flatten(&d[0], 0, &mut g);
    check(f.len() == g.len(), "comments or layout changed the tree");
    for (x, y) in f.iter().zip(&g) {
        check(x.kind == y.kind && x.depth == y.depth, "comments or layout changed the tree");
        check(x.text == y.text, "comments or layout changed a title");
    }
    note(t.s.as_bytes());
    mark(match how {
        0 | 1 => "own-line comment",
        2 => "trailing comment",
        3 => "blanks",
        4..=8 => "drawing",
        _ => "comment before the root",
    });
}
/// the branch with extra drawing between glyph and words
fn wide(t: &mut Text, v: &[gen::Ln], i: usize) {
    let mut u = Text::new();
    gen::draw_line(&mut u, v, i);
    for c in u.s.chars() {
        t.blank(c);
        if c == '└' || c == '├' {
            for _ in 0..3 {
                t.blank('─');
            }
            t.blank(' ');
            t.blank('│');
        }
    }
}

/// Titles of n sibling branches, each of up to two symbolic words: collisions are reported exactly.
/// b: 0 all conditions, 1 all actions, 2 chosen; the shape is flat or nested.
pub fn dups(n: u64, b: u64, w: u64) {
    let n = n as usize;
    let mut v = vec![];
    let mut depth = 1;
    for i in 0..n {
        let cond = match b {
            0 => true,
            1 => false,
            _ => flag(),
        };
        let mut words = vec![];
        if cond {
            words.push("when".to_string());
        } else {
            words.push("it".to_string());
        }
        let two = flag();
        let mut s = String::new();
        for j in 0..w {
            s.push(dch(cond, j == 0));
        }
        words.push(s);
        if two {
            words.push(gen::s1(dch(cond, true)));
        }
        v.push(gen::Ln { depth, kind: if cond { Kind::Cond } else { Kind::Act }, words });
        if cond {
            if i + 1 < n && flag() {
                // the next branch is nested
                depth += 1;
            } else {
                v.push(gen::Ln { depth: depth + 1, kind: Kind::Act, words: vec!["it".into(), "x".into()] });
                if depth > 1 && flag() {
                    depth = 1;
                }
            }
        }
    }
    let mut t = Text::new();
    gen::draw(&mut t, "R", &v);
    let nodes = match judge(&t) {
        Ok(n) => n,
        Err(_) => {
            assume(false);
            return;
        }
    };
    let mut want = vec![];
    let d = duplicates(&nodes);
    for i in d {
        want.push(nodes[i].line);
    }
    match bulloak_syntax::parse_one(&t.s) {
        Ok(_) => {
            note(&[1]);
            mark("no collision");
            check(want.is_empty(), "colliding identifiers were accepted");
        }
        Err(e) => {
            note(e.to_string().as_bytes());
            mark("collision");
            let ds = diags(&e);
            let mut got: Vec<usize> = vec![];
            for d in &ds {
                check(d.kind == "dup", "a tree without collisions was rejected");
                for g in &d.dups {
                    got.extend(g);
                    check(g.len() > 1, "a collision with a single place");
                    check(g[0] == d.line, "a collision is reported at its first place");
                    for x in g {
                        check(d.text.contains(&x.to_string()), "the diagnostic lists every colliding place");
                    }
                }
            }
            got.sort_unstable();
            check(got == want, "the reported collisions are not exactly the colliding branches");
        }
    }
}
/// characters that make identifiers collide, or not
fn dch(cond: bool, first: bool) -> char {
    let set: &[u8] = if cond { b"aAb1_-'\"" } else { b"aA-_(/." };
    let i = below_sym(set.len());
    let c = set[i as usize] as char;
    if !cond && first {
        assume(c != '/');
    }
    c
}

/// A file of n trees with arbitrary separators means the same as the trees one by one.
/// b: 1 = CRLF line ends, 2 = comment blocks between the trees
pub fn multi(n: u64, b: u64, _c: u64) {
    let crlf = b & 1 == 1;
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut parts: Vec<String> = vec![];
    for i in 0..n {
        let name = (b'A' + i as u8) as char;
        let s = match below(6) {
            0 => format!("{name}{nl}└── it {}", gen::letter()),
            1 => format!("{name}{nl}└── when {}{nl}    └── it x", gen::letter()),
            // broken trees
            2 => format!("{name}{nl}└── when x"),
            3 => format!("{name}{nl}// note{nl}├── it x{nl}└── it {}", gen::few(2)),
            4 => format!("{name}"),
            _ => format!("└── it {name}"),
        };
        parts.push(s);
    }
    let mut text = String::new();
    match below(4) {
        0 => {}
        1 => text.push_str(nl),
        2 => {
            text.push_str("// head");
            text.push_str(nl);
            text.push_str(nl);
        }
        _ => text.push_str(&format!("{nl}{nl} {nl}")),
    }
    for (i, p) in parts.iter().enumerate() {
        text.push_str(p);
        if i + 1 < parts.len() {
            text.push_str(nl);
            text.push_str(nl);
            match below(if b & 2 == 2 { 6 } else { 3 }) {
                0 => {}
                1 => text.push_str(nl),
                2 => text.push_str(&format!("{nl}{nl}")),
                3 => text.push_str(&format!("// {}{nl}{nl}", gen::letter())),
                4 => text.push_str(&format!("// a{nl}  // b{nl}{nl}{nl}")),
                _ => text.push_str(&format!("{nl}//{nl}{nl}")),
            }
        }
    }
    match below(3) {
        0 => {}
        1 => text.push_str(nl),
        _ => text.push_str(&format!("{nl}{nl}// tail")),
    }
    // the line each tree begins on, less one
    let mut at = vec![];
    let mut from = 0;
    for p in &parts {
        let mut i = from;
        while text.as_bytes()[i..i + p.len()] != *p.as_bytes() {
            i += 1;
        }
        at.push(text.as_bytes()[..i].iter().filter(|b| **b == b'\n').count());
        from = i + p.len();
    }
    let whole = bulloak_syntax::parse(&text);
    let one: Vec<_> = parts.iter().map(|p| bulloak_syntax::parse_one(p)).collect();
    let bad = one.iter().any(|r| r.is_err());
    match whole {
        Ok(ts) => {
            mark("accepted");
            note(&[1]);
            check(!bad, "a file with a bad tree was accepted");
            check(ts.len() == one.len(), "the number of trees in the file is wrong");
            for ((x, y), at) in ts.iter().zip(&one).zip(&at) {
                let (mut f, mut g) = (vec![], vec![]);
                flatten(x, 0, &mut f);
                if let Ok(y) = y {
                    flatten(y, 0, &mut g);
                }
                check(f.len() == g.len(), "a tree of the file differs from the tree parsed alone");
                for (a, b) in f.iter().zip(&g) {
                    check(a.kind == b.kind && a.depth == b.depth && a.text == b.text, "a tree of the file differs from the tree parsed alone");
                    check(a.line == b.line + at && a.col == b.col, "a branch of a tree is placed elsewhere than in the file");
                }
            }
        }
        Err(e) => {
            mark("rejected");
            note(&[0]);
            check(bad, "a file of good trees was rejected");
            // the message is the one of a bad tree
            let m = e.to_string();
            let head = |s: &str| s.split('\n').nth(1).unwrap_or("").to_string();
            let hit = one.iter().any(|r| matches!(r, Err(x) if head(&x.to_string()) == head(&m)));
            check(hit, "the diagnostic of a file is not the one of a bad tree in it");
            let d = diags(&e);
            let hit = one.iter().zip(&at).any(|(r, at)| {
                let o = match r {
                    Err(x) => diags(x),
                    Ok(_) => return false,
                };
                o.len() == d.len() && o.iter().zip(&d).all(|(o, d)| o.kind == d.kind && o.line + at == d.line && o.col == d.col && o.dups.len() == d.dups.len())
            });
            check(hit, "the diagnostic of a file is placed elsewhere than in the file");
        }
    }
}

/// The diagnostics of a tree with several collisions do not depend on the hash table's order.
pub fn hash(n: u64, _b: u64, _c: u64) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(gen::Ln { depth: 1, kind: Kind::Act, words: vec!["it".into(), gen::s1(gen::few(3))] });
    }
    let mut t = Text::new();
    gen::draw(&mut t, "R", &v);
    hashmode(1);
    let a = bulloak_syntax::parse(&t.s).map(|_| ()).map_err(|e| e.to_string());
    hashmode(1);
    let b = bulloak_syntax::parse(&t.s).map(|_| ()).map_err(|e| e.to_string());
    hashmode(0);
    match (a, b) {
        (Ok(()), Ok(())) => mark("accepted"),
        (Err(x), Err(y)) => {
            mark("rejected");
            check(x == y, "diagnostics depend on the hash seed");
        }
        _ => fail("acceptance depends on the hash seed"),
    }
}
