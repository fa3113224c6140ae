//! Stand-ins for the operating system: an in-memory file system and processes that run to their end.
//!
//! Paths are concrete and relative; file contents may be symbolic.  `__rsx_cli` runs the program's
//! main function in a copy of the process: its memory is dropped at `exit`, its files stay.

use crate::exec::*;
use crate::ext::X;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone)]
pub enum Node {
    Dir,
    File(Rc<SBytes>),
}
#[derive(Clone)]
pub struct Desc {
    pub path: String,
    pub off: usize,
    pub flags: u64,
    pub dir: Option<Vec<String>>,
}
#[derive(Clone, Default)]
pub struct Vfs {
    pub nodes: std::collections::BTreeMap<String, Node>,
    pub fds: Vec<Option<Desc>>,
}
pub struct Child {
    pub parent: State,
    pub call: &'static Call,
}

const EPERM: u64 = 1;
const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOTTY: u64 = 25;
const ENOSYS: u64 = 38;

/// files a child's standard output and error go to
pub const OUT: &str = ".out";
pub const ERR: &str = ".err";

impl Vfs {
    /// the normal form of a path, or the error of walking to its parent
    fn norm(&self, p: &str) -> Result<String, u64> {
        if p.is_empty() || p.starts_with('/') {
            return Err(ENOENT);
        }
        let mut o: Vec<&str> = vec![];
        let mut it = p.split('/').peekable();
        while let Some(c) = it.next() {
            match c {
                "" | "." => {}
                ".." => {
                    if o.pop().is_none() {
                        return Err(ENOENT);
                    }
                }
                c => {
                    if !o.is_empty() {
                        match self.nodes.get(&o.join("/")) {
                            Some(Node::Dir) => {}
                            Some(_) => return Err(ENOTDIR),
                            None => return Err(ENOENT),
                        }
                    }
                    o.push(c)
                }
            }
        }
        let n = o.join("/");
        if p.ends_with('/') && matches!(self.nodes.get(&n), Some(Node::File(_))) {
            return Err(ENOTDIR);
        }
        Ok(n)
    }
    fn get(&self, n: &str) -> Option<Node> {
        if n.is_empty() {
            Some(Node::Dir)
        } else {
            self.nodes.get(n).cloned()
        }
    }
    fn children(&self, n: &str) -> Vec<String> {
        let p = if n.is_empty() { String::new() } else { format!("{n}/") };
        self.nodes.keys().filter_map(|k| k.strip_prefix(&p)).filter(|k| !k.is_empty() && !k.contains('/')).map(|k| k.to_string()).collect()
    }
}

impl Ctx {
    fn vfs(&mut self) -> &mut Vfs {
        Rc::make_mut(&mut self.st.vfs)
    }
    fn errno(&mut self) -> R<u64> {
        if self.st.errno == 0 {
            let p = self.alloc(16, 16)?;
            self.st.errno = p;
        }
        Ok(self.st.errno)
    }
    fn fail(&mut self, c: &'static Call, e: u64) -> R<()> {
        let p = self.errno()?;
        let b = (e as u32).to_le_bytes();
        self.write_bytes(p, &b.map(|x| (x, 0)))?;
        let m = if c.rw >= 64 { !0u64 } else { (1u64 << c.rw) - 1 };
        self.finish(c, &[V::c(m)]);
        Ok(())
    }
    fn stat_buf(&mut self, p: u64, n: &Node) -> R<()> {
        let mut b = [0u8; 144];
        let (mode, size) = match n {
            Node::Dir => (0o040755u32, 4096u64),
            Node::File(f) => (0o100644, f.len() as u64),
        };
        b[8] = 1; // st_ino
        b[16] = 1; // st_nlink
        b[24..28].copy_from_slice(&mode.to_le_bytes());
        b[48..56].copy_from_slice(&size.to_le_bytes());
        b[56..64].copy_from_slice(&4096u64.to_le_bytes());
        self.write_bytes(p, &b.map(|x| (x, 0)))
    }
    /// a file of the parent or the child, by descriptor
    fn put(&mut self, fd: u64, data: SBytes) -> Result<(), u64> {
        let child = self.st.child.is_some();
        if fd == 1 || fd == 2 {
            if child {
                let v = self.vfs();
                let name = if fd == 1 { OUT } else { ERR };
                if let Some(Node::File(f)) = v.nodes.get_mut(name) {
                    Rc::make_mut(f).extend(data);
                }
            }
            return Ok(());
        }
        let v = self.vfs();
        let d = match v.fds.get_mut(fd as usize) {
            Some(Some(d)) => d,
            _ => return Err(EBADF),
        };
        if d.flags & 3 == 0 {
            return Err(EBADF);
        }
        let f = match v.nodes.get_mut(&d.path) {
            Some(Node::File(f)) => Rc::make_mut(f),
            _ => return Err(EBADF),
        };
        if d.flags & 0x400 != 0 {
            d.off = f.len();
        }
        while f.len() < d.off {
            f.push((0, 0));
        }
        for (i, b) in data.iter().enumerate() {
            if d.off + i < f.len() {
                f[d.off + i] = *b;
            } else {
                f.push(*b);
            }
        }
        d.off += data.len();
        Ok(())
    }
    /// the end of a process: back in the parent, with the child's files
    pub fn child_exit(&mut self, code: u64) -> R<()> {
        let ch = match self.st.child.clone() {
            Some(c) => c,
            None => err!("exit called by the harness"),
        };
        let mut p = ch.parent.clone();
        std::mem::swap(&mut self.st, &mut p);
        let old = p;
        let s = &mut self.st;
        s.doms = old.doms;
        s.cons = old.cons;
        s.consv = old.consv;
        s.model = old.model;
        s.nvars = old.nvars;
        s.steps = old.steps;
        s.forks = old.forks;
        s.notes = old.notes;
        s.marks = old.marks;
        s.asserts = old.asserts;
        let mut v = (*old.vfs).clone();
        v.fds = vec![];
        s.vfs = Rc::new(v);
        self.finish(ch.call, &[V::c(code & 0xff)]);
        Ok(())
    }

    pub fn sys(&mut self, x: X, name: &'static str, c: &'static Call, a: &[V]) -> R<()> {
        macro_rules! ret {
            ($($v:expr),*) => {{ let r = [$($v),*]; self.finish(c, &r); return Ok(()); }};
        }
        macro_rules! path {
            ($v:expr) => {{
                let p = self.conc64($v)?;
                let s = self.read_cstr(p)?;
                match self.st.vfs.norm(&s) {
                    Ok(n) => n,
                    Err(e) => return self.fail(c, e),
                }
            }};
        }
        match x {
            // hash keys: irrelevant, BuildHasher::hash_one is replaced (see hash_one)
            X::getrandom => {
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                for i in 0..n {
                    self.write_bytes(p + i, &[(0x5a, 0)])?;
                }
                ret!(V::c(n))
            }
            X::getenv => ret!(V::c(0)),
            X::errno => {
                let p = self.errno()?;
                ret!(V::c(p))
            }
            X::statx | X::syscall => return self.fail(c, ENOSYS),
            X::exit | X::_exit => {
                let code = self.conc64(a[0])?;
                return self.child_exit(code);
            }
            X::strerror => {
                let (e, p, n) = (self.conc(a[0], 32)? as u64, self.conc64(a[1])?, self.conc64(a[2])?);
                let t = match e {
                    EPERM => "Operation not permitted",
                    ENOENT => "No such file or directory",
                    EBADF => "Bad file descriptor",
                    EEXIST => "File exists",
                    ENOTDIR => "Not a directory",
                    EISDIR => "Is a directory",
                    EINVAL => "Invalid argument",
                    ENOTTY => "Inappropriate ioctl for device",
                    ENOSYS => "Function not implemented",
                    _ => err!("no text for error number {e}"),
                };
                if n <= t.len() as u64 {
                    err!("buffer of strerror_r too small");
                }
                for (i, b) in t.bytes().chain([0]).enumerate() {
                    self.write_bytes(p + i as u64, &[(b as u128 as _, 0)])?;
                }
                ret!(V::c(0))
            }
            X::pthread_self | X::gettid => ret!(V::c(0x1000)),
            X::isatty => return self.fail(c, ENOTTY),
            X::ioctl => return self.fail(c, ENOTTY),
            X::open => {
                let n = path!(a[0]);
                let fl = self.conc(a[1], 32)? as u64;
                let acc = fl & 3;
                match self.st.vfs.get(&n) {
                    Some(Node::Dir) => {
                        if acc != 0 || fl & 0x40 != 0 {
                            return self.fail(c, EISDIR);
                        }
                    }
                    Some(Node::File(_)) => {
                        if fl & 0xC0 == 0xC0 {
                            return self.fail(c, EEXIST);
                        }
                        if fl & 0x10000 != 0 {
                            return self.fail(c, ENOTDIR);
                        }
                        if fl & 0x200 != 0 && acc != 0 {
                            self.vfs().nodes.insert(n.clone(), Node::File(Rc::default()));
                        }
                    }
                    None => {
                        if fl & 0x40 == 0 {
                            return self.fail(c, ENOENT);
                        }
                        self.vfs().nodes.insert(n.clone(), Node::File(Rc::default()));
                    }
                }
                let v = self.vfs();
                while v.fds.len() < 3 {
                    v.fds.push(None);
                }
                let mut fd = 3;
                while fd < v.fds.len() && v.fds[fd].is_some() {
                    fd += 1;
                }
                if fd == v.fds.len() {
                    v.fds.push(None);
                }
                v.fds[fd] = Some(Desc { path: n, off: 0, flags: fl, dir: None });
                ret!(V::c(fd as u64))
            }
            X::close => {
                let fd = self.conc(a[0], 32)? as usize;
                let v = self.vfs();
                if fd < v.fds.len() && v.fds[fd].is_some() {
                    v.fds[fd] = None;
                    ret!(V::c(0))
                }
                return self.fail(c, EBADF);
            }
            X::read | X::pread => {
                let (fd, p, n) = (self.conc(a[0], 32)? as usize, self.conc64(a[1])?, self.conc64(a[2])? as usize);
                let d = match self.st.vfs.fds.get(fd) {
                    Some(Some(d)) => d.clone(),
                    _ => return self.fail(c, EBADF),
                };
                if d.flags & 3 == 1 {
                    return self.fail(c, EBADF);
                }
                let f = match self.st.vfs.get(&d.path) {
                    Some(Node::File(f)) => f,
                    _ => return self.fail(c, EISDIR),
                };
                let off = if x == X::pread { self.conc64(a[3])? as usize } else { d.off };
                let end = (off + n).min(f.len());
                let k = end.saturating_sub(off);
                if k > 0 {
                    let part: SBytes = f[off..end].to_vec();
                    self.write_bytes(p, &part)?;
                    if x == X::read {
                        self.vfs().fds[fd].as_mut().unwrap().off += k;
                    }
                }
                ret!(V::c(k as u64))
            }
            X::write => {
                let (fd, p, n) = (self.conc(a[0], 32)? as u64, self.conc64(a[1])?, self.conc64(a[2])?);
                let data = self.read_bytes(p, n)?;
                match self.put(fd, data) {
                    Ok(()) => ret!(V::c(n)),
                    Err(e) => return self.fail(c, e),
                }
            }
            X::writev => {
                let (fd, p, n) = (self.conc(a[0], 32)? as u64, self.conc64(a[1])?, self.conc(a[2], 32)? as u64);
                let mut data = vec![];
                for i in 0..n {
                    let q = self.load(V::c(p), 64, 16 * i)?;
                    let q = self.conc64(q)?;
                    let l = self.load(V::c(p), 64, 16 * i + 8)?;
                    let l = self.conc64(l)?;
                    data.extend(self.read_bytes(q, l)?);
                }
                let k = data.len() as u64;
                match self.put(fd, data) {
                    Ok(()) => ret!(V::c(k)),
                    Err(e) => return self.fail(c, e),
                }
            }
            X::lseek => {
                let (fd, o, w) = (self.conc(a[0], 32)? as usize, self.conc64(a[1])?, self.conc(a[2], 32)? as u64);
                let d = match self.st.vfs.fds.get(fd) {
                    Some(Some(d)) => d.clone(),
                    _ => return self.fail(c, EBADF),
                };
                let len = match self.st.vfs.get(&d.path) {
                    Some(Node::File(f)) => f.len() as i64,
                    _ => 0,
                };
                let n = match w {
                    0 => o as i64,
                    1 => d.off as i64 + o as i64,
                    2 => len + o as i64,
                    _ => return self.fail(c, EINVAL),
                };
                if n < 0 {
                    return self.fail(c, EINVAL);
                }
                self.vfs().fds[fd].as_mut().unwrap().off = n as usize;
                ret!(V::c(n as u64))
            }
            X::fstat => {
                let (fd, p) = (self.conc(a[0], 32)? as usize, self.conc64(a[1])?);
                let n = match self.st.vfs.fds.get(fd) {
                    Some(Some(d)) => self.st.vfs.get(&d.path),
                    _ => None,
                };
                match n {
                    Some(n) => self.stat_buf(p, &n)?,
                    None => return self.fail(c, EBADF),
                }
                ret!(V::c(0))
            }
            X::stat | X::lstat => {
                let n = path!(a[0]);
                let p = self.conc64(a[1])?;
                match self.st.vfs.get(&n) {
                    Some(n) => self.stat_buf(p, &n)?,
                    None => return self.fail(c, ENOENT),
                }
                ret!(V::c(0))
            }
            X::mkdir => {
                let n = path!(a[0]);
                if self.st.vfs.get(&n).is_some() {
                    return self.fail(c, EEXIST);
                }
                self.vfs().nodes.insert(n, Node::Dir);
                ret!(V::c(0))
            }
            X::unlink => {
                let n = path!(a[0]);
                match self.st.vfs.get(&n) {
                    Some(Node::File(_)) => {
                        self.vfs().nodes.remove(&n);
                        ret!(V::c(0))
                    }
                    Some(Node::Dir) => return self.fail(c, EISDIR),
                    None => return self.fail(c, ENOENT),
                }
            }
            X::rename => {
                let n = path!(a[0]);
                let m = path!(a[1]);
                match (self.st.vfs.get(&n), self.st.vfs.get(&m)) {
                    (None, _) => return self.fail(c, ENOENT),
                    (Some(Node::File(_)), Some(Node::Dir)) => return self.fail(c, EISDIR),
                    (Some(Node::Dir), _) => err!("rename of a directory not modelled"),
                    (Some(f), _) => {
                        let v = self.vfs();
                        v.nodes.remove(&n);
                        v.nodes.insert(m, f);
                        ret!(V::c(0))
                    }
                }
            }
            X::ftruncate => {
                let (fd, n) = (self.conc(a[0], 32)? as usize, self.conc64(a[1])? as usize);
                let path = match self.st.vfs.fds.get(fd) {
                    Some(Some(d)) => d.path.clone(),
                    _ => return self.fail(c, EBADF),
                };
                if let Some(Node::File(f)) = self.vfs().nodes.get_mut(&path) {
                    Rc::make_mut(f).resize(n, (0, 0));
                }
                ret!(V::c(0))
            }
            X::fsync | X::fchmod | X::chmod => ret!(V::c(0)),
            X::access => {
                let n = path!(a[0]);
                if self.st.vfs.get(&n).is_none() {
                    return self.fail(c, ENOENT);
                }
                ret!(V::c(0))
            }
            X::getcwd => {
                let p = self.conc64(a[0])?;
                let b: SBytes = b"/work\0".iter().map(|b| (*b, 0)).collect();
                self.write_bytes(p, &b)?;
                ret!(V::c(p))
            }
            X::fcntl | X::fcntl64 => ret!(V::c(0)),
            X::opendir => {
                let n = path!(a[0]);
                match self.st.vfs.get(&n) {
                    Some(Node::Dir) => {}
                    Some(_) => return self.fail(c, ENOTDIR),
                    None => return self.fail(c, ENOENT),
                }
                err!("opendir not modelled");
            }
            // every file of the harness's directory, one per line
            X::rsx_files => {
                let (p, cap) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let mut o = String::new();
                for (k, v) in &self.st.vfs.nodes {
                    if k != OUT && k != ERR {
                        o.push_str(k);
                        o.push_str(if let Node::Dir = v { "/\n" } else { "\n" });
                    }
                }
                if o.len() as u64 > cap {
                    err!("file list too long");
                }
                let b: SBytes = o.bytes().map(|b| (b, 0)).collect();
                self.write_bytes(p, &b)?;
                ret!(V::c(o.len() as u64))
            }
            // run main in a copy of this process
            X::rsx_cli => {
                if self.st.child.is_some() {
                    err!("nested processes");
                }
                let (p, n) = (self.conc64(a[0])?, self.conc64(a[1])?);
                let mut text = vec![];
                for (b, s) in self.read_bytes(p, n)? {
                    if s != 0 {
                        err!("symbolic argument");
                    }
                    text.push(b);
                }
                let main = match self.prog.find_fn("vh_cli_main") {
                    Some(f) => f,
                    None => err!("no vh_cli_main"),
                };
                let parent = self.st.clone();
                let args: Vec<&[u8]> = std::iter::once(&b"bulloak"[..]).chain(text.split(|b| *b == 0).filter(|t| !t.is_empty())).collect();
                let v = self.alloc(8 * (args.len() as u64 + 1), 8)?;
                for (i, t) in args.iter().enumerate() {
                    let q = self.alloc(t.len() as u64 + 1, 8)?;
                    let b: SBytes = t.iter().map(|b| (*b, 0)).chain([(0, 0)]).collect();
                    self.write_bytes(q, &b)?;
                    self.write_bytes(v + 8 * i as u64, &q.to_le_bytes().map(|b| (b, 0)))?;
                }
                self.write_bytes(v + 8 * args.len() as u64, &[(0, 0); 8])?;
                for (g, val) in [("3imp4ARGC", args.len() as u64), ("3imp4ARGV", v)] {
                    match self.prog.global_named(g) {
                        Some(p) => self.write_bytes(p, &val.to_le_bytes().map(|b| (b, 0)))?,
                        None => err!("no {g}"),
                    }
                }
                let vf = self.vfs();
                vf.nodes.insert(OUT.into(), Node::File(Rc::default()));
                vf.nodes.insert(ERR.into(), Node::File(Rc::default()));
                vf.fds = vec![];
                self.st.child = Some(Rc::new(Child { parent, call: c }));
                return self.enter(main, c, &[]);
            }
            _ => {}
        }
        let _ = EPERM;
        err!("external {} not modelled (called from {})", name, self.st.f.name)
    }
}
