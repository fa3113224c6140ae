//! Well-formed trees of symbolic shape and with symbolic words.

use crate::orc::*;
use crate::rt::*;

#[derive(Clone, Debug)]
pub struct Ln {
    pub depth: usize,
    pub kind: Kind,
    /// the words after the glyph, keyword included
    pub words: Vec<String>,
}

/// A shape of exactly n branches: every condition has children, actions hold only descriptions.
/// flags: 1 = no descriptions, 2 = no nested descriptions, 4 = no action after a sibling condition
pub fn shape(n: usize, flags: u64) -> Vec<Ln> {
    let mut v: Vec<Ln> = vec![];
    for i in 0..n {
        let mut depth = 1;
        if i > 0 {
            let p = v[i - 1].clone();
            let deepest = match p.kind {
                Kind::Cond => p.depth + 1,
                Kind::Act if flags & 1 == 0 => p.depth + 1,
                Kind::Desc if flags & 2 == 0 => p.depth + 1,
                _ => p.depth,
            };
            // an empty condition must get a child
            depth = if p.kind == Kind::Cond { deepest } else { 1 + below(deepest) };
        }
        let mut parent = Kind::Root;
        for l in v.iter().rev() {
            if l.depth < depth {
                parent = l.kind;
                break;
            }
        }
        let kind = match parent {
            Kind::Act | Kind::Desc => Kind::Desc,
            _ => {
                if i + 1 == n {
                    Kind::Act
                } else if flag() {
                    Kind::Cond
                } else {
                    Kind::Act
                }
            }
        };
        v.push(Ln { depth, kind, words: vec![] });
    }
    v
}

/// is line i the last of its siblings?
pub fn last(v: &[Ln], i: usize) -> bool {
    for l in &v[i + 1..] {
        if l.depth < v[i].depth {
            return true;
        }
        if l.depth == v[i].depth {
            return false;
        }
    }
    true
}

/// draw the tree the way the documentation does
pub fn draw(t: &mut Text, root: &str, v: &[Ln]) {
    t.tok(K::Word, root);
    for i in 0..v.len() {
        t.newline();
        draw_line(t, v, i);
    }
}
pub fn draw_line(t: &mut Text, v: &[Ln], i: usize) {
    for d in 1..v[i].depth {
        // the ancestor at depth d
        let mut a = i;
        for j in (0..i).rev() {
            if v[j].depth == d {
                a = j;
                break;
            }
        }
        t.blank(if last(v, a) { ' ' } else { '│' });
        t.spaces(3);
    }
    if last(v, i) {
        t.tok(K::Corner, "└");
    } else {
        t.tok(K::Tee, "├");
    }
    t.blank('─');
    t.blank('─');
    for (n, w) in v[i].words.iter().enumerate() {
        t.blank(' ');
        let k = if n == 0 {
            match v[i].kind {
                Kind::Cond if w.len() == 4 => K::When,
                Kind::Cond => K::Given,
                Kind::Act => K::It,
                _ => K::Word,
            }
        } else {
            K::Word
        };
        t.tok(k, w);
    }
}

pub fn s1(c: char) -> String {
    let mut s = String::new();
    s.push(c);
    s
}
/// a symbolic lower-case letter
pub fn letter() -> char {
    let b = byte();
    assume(b >= b'a' && b <= b'z');
    b as char
}
/// a symbolic letter out of a few
pub fn few(n: u8) -> char {
    let b = byte();
    assume(b >= b'a' && b < b'a' + n);
    b as char
}
static TITLE: [u32; 72] = title_table();
const fn title_table() -> [u32; 72] {
    let a = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-'\"";
    let mut t = [0u32; 72];
    let mut i = 0;
    while i < 66 {
        t[i] = a[i] as u32;
        i += 1;
    }
    t[66] = 0xE9; // é
    t[67] = 0xDF; // ß
    t[68] = 0x4E2D; // 中
    t[69] = 0xB2; // ² (numeric, no identifier character)
    t[70] = 0x10400; // 𐐀
    t[71] = 0x3C2; // ς
    t
}
/// a symbolic character that may appear in a condition title
pub fn tch() -> char {
    let i = below_sym(72);
    char::from_u32(TITLE[i as usize]).unwrap()
}
/// a symbolic character a word may consist of
pub fn wch() -> char {
    let c = ch();
    assume(!c.is_whitespace());
    c
}
/// a symbolic character that can begin a word
pub fn wch0() -> char {
    let c = wch();
    assume(!matches!(c, '─' | '│' | '├' | '└'));
    c
}
pub fn is_keyword(w: &str) -> bool {
    w.eq_ignore_ascii_case("when") || w.eq_ignore_ascii_case("given") || w.eq_ignore_ascii_case("it")
}
pub fn starts_comment(w: &str) -> bool {
    w.as_bytes().len() >= 2 && w.as_bytes()[0] == b'/' && w.as_bytes()[1] == b'/'
}

/// the keyword of a branch; `vary`: both condition keywords
pub fn keyword(k: Kind, vary: bool) -> Option<&'static str> {
    match k {
        Kind::Cond => Some(if vary && flag() { "given" } else { "when" }),
        Kind::Act => Some("it"),
        _ => None,
    }
}
