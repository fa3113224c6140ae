//! Reference model of the tree language, written from the documentation: a list of tokens with
//! their places in the text, and what a text made of these tokens means.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Tee,
    Corner,
    When,
    Given,
    It,
    Word,
}
impl K {
    pub fn glyph(self) -> bool {
        matches!(self, K::Tee | K::Corner)
    }
    pub fn cond(self) -> bool {
        matches!(self, K::When | K::Given)
    }
}

#[derive(Clone, Debug)]
pub struct Tk {
    pub k: K,
    pub line: usize,
    pub col: usize,
    pub text: String,
}

/// Text under construction, with the tokens it contains.
#[derive(Clone, Default)]
pub struct Text {
    pub s: String,
    pub line: usize,
    pub col: usize,
    pub toks: Vec<Tk>,
    /// positions of characters that may not appear in a condition title
    pub bad: Vec<(usize, usize)>,
    in_title: bool,
}

impl Text {
    pub fn new() -> Text {
        Text { line: 1, col: 1, ..Text::default() }
    }
    pub fn blank(&mut self, c: char) {
        self.s.push(c);
        if c == '\n' {
            self.line += 1;
            self.col = 1;
            self.in_title = false;
        } else {
            self.col += 1;
        }
    }
    pub fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.blank(' ');
        }
    }
    pub fn newline(&mut self) {
        self.blank('\n');
    }
    /// a glyph, keyword or word; the caller separates words by blanks
    pub fn tok(&mut self, k: K, text: &str) {
        let (line, col) = (self.line, self.col);
        if self.in_title && !k.glyph() {
            let mut c = col;
            for x in text.chars() {
                if !title_char(x) {
                    self.bad.push((line, c));
                }
                c += 1;
            }
        }
        if k.cond() && self.toks.last().map_or(false, |t| t.k.glyph()) {
            self.in_title = true;
        }
        self.col += text.chars().count();
        self.s.push_str(text);
        self.toks.push(Tk { k, line, col, text: text.to_string() });
    }
    /// a comment: everything up to the end of the line is ignored
    pub fn comment(&mut self, body: &str) {
        self.s.push_str("//");
        self.s.push_str(body);
        self.col += 2 + body.chars().count();
        self.in_title = false;
    }
}

/// letters, digits, `_`, `-` and quotes
pub fn title_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '-' || c == '\'' || c == '"'
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Root,
    Cond,
    Act,
    Desc,
}

/// one node of the expected tree, in pre-order
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub depth: usize,
    pub words: Vec<String>,
    pub line: usize,
    pub col: usize,
    pub glyph: K,
    /// columns between this branch and the action it belongs to (descriptions)
    pub indent: usize,
}

impl Node {
    /// the title as the tree spells it
    pub fn title(&self) -> String {
        join(&self.words)
    }
}
pub fn join(w: &[String]) -> String {
    let mut s = String::new();
    for (i, x) in w.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(x);
    }
    s
}

/// What a token list means: the nodes, or the places of everything wrong with it.
pub fn judge(t: &Text) -> Result<Vec<Node>, Vec<(usize, usize)>> {
    let mut wrong: Vec<(usize, usize)> = t.bad.clone();
    let k = &t.toks;
    if k.is_empty() {
        return Err(wrong);
    }
    if k[0].k != K::Word {
        wrong.push((k[0].line, k[0].col));
        return Err(wrong);
    }
    let mut nodes = vec![Node {
        kind: Kind::Root,
        depth: 0,
        words: vec![k[0].text.clone()],
        line: k[0].line,
        col: k[0].col,
        glyph: K::Corner,
        indent: 0,
    }];
    if k.len() == 1 {
        // a root without branches: the diagnostic may point anywhere on the name
        for i in 0..k[0].text.chars().count() {
            wrong.push((k[0].line, k[0].col + i));
        }
        return Err(wrong);
    }
    if !k[1].k.glyph() {
        wrong.push((k[1].line, k[1].col));
        return Err(wrong);
    }
    // cut into branches
    let mut i = 1;
    while i < k.len() {
        let g = &k[i];
        let mut j = i + 1;
        while j < k.len() && !k[j].k.glyph() {
            j += 1;
        }
        if j == i + 1 {
            // a glyph with nothing after it
            wrong.push((g.line, g.col));
            if j < k.len() {
                wrong.push((k[j].line, k[j].col));
            }
            // a corner at the top level that is followed by anything is wrong as well
            for n in &nodes {
                if n.depth == 1 && n.glyph == K::Corner {
                    wrong.push((n.line, n.col));
                }
            }
            return Err(wrong);
        }
        // parent: the nearest open branch further to the left
        let mut parent = 0;
        for n in (1..nodes.len()).rev() {
            if nodes[n].col < g.col {
                // a branch further left that is still open: nothing at or left of it came since
                if nodes[n + 1..].iter().all(|m| m.col > nodes[n].col) {
                    parent = n;
                    break;
                }
            }
        }
        let first = &k[i + 1];
        let kind = if first.k.cond() {
            Kind::Cond
        } else if first.k == K::It {
            Kind::Act
        } else {
            Kind::Desc
        };
        let pk = nodes[parent].kind;
        let fits = match pk {
            Kind::Root | Kind::Cond => kind != Kind::Desc,
            Kind::Act | Kind::Desc => kind == Kind::Desc,
        };
        if !fits {
            wrong.push((first.line, first.col));
        }
        if kind == Kind::Cond && j == i + 2 {
            wrong.push((first.line, first.col));
        }
        let mut a = parent;
        while nodes[a].kind == Kind::Desc {
            // the enclosing action
            a -= 1;
        }
        let indent = if kind == Kind::Desc { g.col.saturating_sub(nodes[a].col) } else { 0 };
        nodes.push(Node {
            kind,
            depth: nodes[parent].depth + 1,
            words: k[i + 1..j].iter().map(|t| t.text.clone()).collect(),
            line: g.line,
            col: g.col,
            glyph: g.k,
            indent,
        });
        i = j;
    }
    // the last top-level branch, and only it, has a corner
    let tops: Vec<usize> = (1..nodes.len()).filter(|&n| nodes[n].depth == 1).collect();
    for (x, &n) in tops.iter().enumerate() {
        let last = x + 1 == tops.len();
        if last != (nodes[n].glyph == K::Corner) {
            wrong.push((nodes[n].line, nodes[n].col));
        }
    }
    // conditions need children
    for n in 1..nodes.len() {
        if nodes[n].kind == Kind::Cond && !(n + 1 < nodes.len() && nodes[n + 1].depth > nodes[n].depth) {
            wrong.push((nodes[n].line, nodes[n].col));
        }
    }
    if !wrong.is_empty() {
        return Err(wrong);
    }
    Ok(nodes)
}

/// The Solidity identifier a word list becomes: words capitalised and run together, hyphens turned
/// into underscores, everything an identifier cannot contain dropped.
pub fn camel(words: &[String]) -> String {
    let mut s = String::new();
    for w in words {
        let mut first = true;
        for c in clean(w).chars() {
            if first {
                for u in c.to_uppercase() {
                    s.push(u);
                }
                first = false;
            } else {
                s.push(c);
            }
        }
    }
    s
}
pub fn clean(w: &str) -> String {
    let mut s = String::new();
    for c in w.chars() {
        if c == '-' {
            s.push('_');
        } else if ident_char(c) {
            s.push(c);
        }
    }
    s
}
pub fn ident_char(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_alphanumeric() || c == '_'
    } else {
        unicode_xid::UnicodeXID::is_xid_continue(c)
    }
}
pub fn lower_first(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i == 0 {
            for l in c.to_lowercase() {
                o.push(l);
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// the same for the words of an action: what an identifier cannot contain is dropped after the words
/// were capitalised
pub fn camel_action(words: &[String]) -> String {
    let mut s = String::new();
    for w in words {
        let mut u = String::new();
        for (i, c) in w.chars().enumerate() {
            if i == 0 {
                for x in c.to_uppercase() {
                    u.push(x);
                }
            } else {
                u.push(c);
            }
        }
        s.push_str(&clean(&u));
    }
    s
}

/// groups of nodes whose Solidity identifiers are equal: conditions and top-level actions
pub fn duplicates(nodes: &[Node]) -> Vec<usize> {
    let ids: Vec<(usize, bool, String)> = (1..nodes.len())
        .filter_map(|i| {
            let n = &nodes[i];
            match n.kind {
                Kind::Cond => Some((i, true, lower_first(&camel(&n.words)))),
                Kind::Act if n.depth == 1 => Some((i, false, camel_action(&n.words[1..]))),
                _ => None,
            }
        })
        .collect();
    let mut out = vec![];
    for (i, c, a) in &ids {
        if ids.iter().any(|(j, d, b)| i != j && c == d && a == b) {
            out.push(*i);
        }
    }
    out
}
