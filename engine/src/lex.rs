//! A small tokenizer for textual LLVM IR.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Eof,
    Word,   // keywords, types, numbers
    Local,  // %x
    Global, // @x
    Meta,   // !x
    Attr,   // #1
    Str,    // "..."
    CStr,   // c"..."
    Punct,
    Label, // name:
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub k: K,
    pub s: &'static str,
}

impl Tok {
    pub fn is(&self, p: &str) -> bool {
        (self.k == K::Punct || self.k == K::Word) && self.s == p
    }
}

#[derive(Clone)]
pub struct Lex {
    pub t: &'static [u8],
    pub p: usize,
    pub end: usize,
    pk: Option<(Tok, usize)>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Lex {
    pub fn new(t: &'static str, p: usize, end: usize) -> Lex {
        Lex { t: t.as_bytes(), p, end, pk: None }
    }
    fn st(&self, a: usize, b: usize) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(&self.t[a..b]) }
    }
    fn quoted(&self, mut p: usize) -> (usize, usize, usize) {
        // p at opening quote; returns (start, end, after)
        p += 1;
        let s = p;
        while self.t[p] != b'"' {
            p += 1;
        }
        (s, p, p + 1)
    }
    fn raw(&mut self) -> Tok {
        let t = self.t;
        let end = self.end;
        let mut p = self.p;
        loop {
            if p >= end {
                self.p = p;
                return Tok { k: K::Eof, s: "" };
            }
            match t[p] {
                b' ' | b'\t' | b'\n' | b'\r' => p += 1,
                b';' => {
                    while p < end && t[p] != b'\n' {
                        p += 1
                    }
                }
                _ => break,
            }
        }
        let c = t[p];
        match c {
            b'%' | b'@' => {
                let k = if c == b'%' { K::Local } else { K::Global };
                if t[p + 1] == b'"' {
                    let (a, b, n) = self.quoted(p + 1);
                    self.p = n;
                    return Tok { k, s: self.st(a, b) };
                }
                let a = p + 1;
                let mut q = a;
                while q < end && is_id(t[q]) {
                    q += 1
                }
                self.p = q;
                Tok { k, s: self.st(a, q) }
            }
            b'!' => {
                let a = p + 1;
                let mut q = a;
                if q < end && t[q] == b'"' {
                    let (a, b, n) = self.quoted(q);
                    self.p = n;
                    return Tok { k: K::Meta, s: self.st(a, b) };
                }
                while q < end && is_id(t[q]) {
                    q += 1
                }
                self.p = q;
                Tok { k: K::Meta, s: self.st(a, q) }
            }
            b'#' => {
                let a = p + 1;
                let mut q = a;
                while q < end && is_id(t[q]) {
                    q += 1
                }
                self.p = q;
                Tok { k: K::Attr, s: self.st(a, q) }
            }
            b'"' => {
                let (a, b, n) = self.quoted(p);
                if n < end && t[n] == b':' {
                    self.p = n + 1;
                    return Tok { k: K::Label, s: self.st(a, b) };
                }
                self.p = n;
                Tok { k: K::Str, s: self.st(a, b) }
            }
            b'c' if p + 1 < end && t[p + 1] == b'"' => {
                let (a, b, n) = self.quoted(p + 1);
                self.p = n;
                Tok { k: K::CStr, s: self.st(a, b) }
            }
            c if is_id(c) => {
                let mut q = p;
                while q < end && is_id(t[q]) {
                    q += 1
                }
                if q < end && t[q] == b':' {
                    self.p = q + 1;
                    return Tok { k: K::Label, s: self.st(p, q) };
                }
                self.p = q;
                Tok { k: K::Word, s: self.st(p, q) }
            }
            _ => {
                // "..." varargs is lexed as a word because of '.', so only single puncts remain
                self.p = p + 1;
                Tok { k: K::Punct, s: self.st(p, p + 1) }
            }
        }
    }
    pub fn peek(&mut self) -> Tok {
        if let Some((t, _)) = self.pk {
            return t;
        }
        let save = self.p;
        let t = self.raw();
        let after = self.p;
        self.p = save;
        self.pk = Some((t, after));
        t
    }
    pub fn next(&mut self) -> Tok {
        if let Some((t, a)) = self.pk.take() {
            self.p = a;
            return t;
        }
        self.raw()
    }
    pub fn eat(&mut self, s: &str) -> bool {
        if self.peek().is(s) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, s: &str) {
        let t = self.next();
        if !t.is(s) {
            let a = self.p.saturating_sub(80);
            let b = (self.p + 80).min(self.end);
            panic!("expected {:?} got {:?} near: {}", s, t, self.st(a, b));
        }
    }
    pub fn word(&mut self) -> &'static str {
        self.next().s
    }
    /// skip a balanced parenthesised group if present
    pub fn skip_parens(&mut self) {
        if self.peek().is("(") {
            let mut d = 0;
            loop {
                let t = self.next();
                if t.is("(") {
                    d += 1
                } else if t.is(")") {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                } else if t.k == K::Eof {
                    return;
                }
            }
        }
    }
    /// true if the next token is on a later line (or EOF)
    pub fn at_eol(&mut self) -> bool {
        let mut p = self.p;
        while p < self.end {
            match self.t[p] {
                b' ' | b'\t' => p += 1,
                b'\n' | b';' => return true,
                _ => return false,
            }
        }
        true
    }
    pub fn skip_line(&mut self) {
        self.pk = None;
        while self.p < self.end && self.t[self.p] != b'\n' {
            self.p += 1;
        }
    }
    pub fn context(&self) -> String {
        let mut a = self.p.min(self.end);
        while a > 0 && self.t[a - 1] != b'\n' && self.p - a < 300 {
            a -= 1
        }
        let mut b = self.p.min(self.end);
        while b < self.end && self.t[b] != b'\n' && b - self.p < 300 {
            b += 1
        }
        String::from_utf8_lossy(&self.t[a..b]).into_owned()
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b.len() >= i + 3 {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
