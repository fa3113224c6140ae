//! Flat 64-bit address space with copy-on-write pages and optional per-byte symbolic contents.

use std::rc::Rc;

pub const PAGE: usize = 4096;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    pub s: Option<Box<[u32; PAGE]>>,
}

impl Page {
    pub fn zero() -> Page {
        Page { d: [0; PAGE], s: None }
    }
}

pub const R_CONST: u64 = 0x1000_0000;
pub const R_GLOB: u64 = 0x2000_0000;
pub const R_STACK: u64 = 0x3000_0000;
pub const R_HEAP: u64 = 0x4000_0000;
pub const R_HEAP_END: u64 = 0xD000_0000;

/// initial images of globals
pub struct Base {
    pub pages: [Vec<Option<Rc<Page>>>; 16],
    ctop: u64,
    gtop: u64,
}

impl Base {
    pub fn new() -> Base {
        Base { pages: Default::default(), ctop: R_CONST + 0x1000, gtop: R_GLOB + 0x1000 }
    }
    pub fn alloc_global(&mut self, size: u64, align: u64, constant: bool) -> u64 {
        let t = if constant { &mut self.ctop } else { &mut self.gtop };
        // a mutable global is materialised while paths are running, some of which may already have their
        // own copy of a page: it gets pages of its own
        let align = if constant { align } else { align.max(0x1000) };
        let a = (*t + align - 1) / align * align;
        *t = a + size;
        assert!(self.ctop < R_GLOB && self.gtop < R_STACK);
        a
    }
    pub fn write(&mut self, a: u64, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            let ad = a + i as u64;
            let r = (ad >> 28) as usize;
            let pn = ((ad & 0xfff_ffff) >> 12) as usize;
            let v = &mut self.pages[r];
            if v.len() <= pn {
                v.resize(pn + 1, None);
            }
            let p = v[pn].get_or_insert_with(|| Rc::new(Page::zero()));
            Rc::make_mut(p).d[(ad & 0xfff) as usize] = *x;
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub pages: [Vec<Option<Rc<Page>>>; 16],
    pub sp: u64,
    pub heap: u64,
    pub heads: [u64; 17],
}

#[derive(Debug)]
pub struct Fault(pub u64);

static ZERO: Page = Page { d: [0; PAGE], s: None };

impl Mem {
    pub fn new() -> Mem {
        Mem { pages: Default::default(), sp: R_STACK + 0x1000, heap: R_HEAP + 0x1000, heads: [0; 17] }
    }
    #[inline]
    pub fn page<'a>(&'a self, base: &'a Base, a: u64) -> Result<&'a Page, Fault> {
        let r = (a >> 28) as usize;
        if r == 0 || r >= 13 {
            return Err(Fault(a));
        }
        let pn = ((a & 0xfff_ffff) >> 12) as usize;
        if let Some(Some(p)) = self.pages[r].get(pn) {
            return Ok(p);
        }
        if r <= 2 {
            if let Some(Some(p)) = base.pages[r].get(pn) {
                return Ok(p);
            }
            return Ok(&ZERO);
        }
        if r == 3 {
            if a < self.sp + 0x10000 {
                return Ok(&ZERO);
            }
        } else if a < self.heap {
            return Ok(&ZERO);
        }
        Err(Fault(a))
    }
    #[inline]
    pub fn page_mut<'a>(&'a mut self, base: &Base, a: u64) -> Result<&'a mut Page, Fault> {
        let r = (a >> 28) as usize;
        if r < 2 || r >= 13 {
            return Err(Fault(a));
        }
        if r > 3 && a >= self.heap {
            return Err(Fault(a));
        }
        if r == 3 && a >= self.sp + 0x10000 {
            return Err(Fault(a));
        }
        let pn = ((a & 0xfff_ffff) >> 12) as usize;
        let v = &mut self.pages[r];
        if v.len() <= pn {
            v.resize(pn + 1, None);
        }
        let e = &mut v[pn];
        if e.is_none() {
            let init = if r == 2 {
                match base.pages[2].get(pn) {
                    Some(Some(p)) => p.clone(),
                    _ => Rc::new(Page::zero()),
                }
            } else {
                Rc::new(Page::zero())
            };
            *e = Some(init);
        }
        Ok(Rc::make_mut(e.as_mut().unwrap()))
    }
    #[inline]
    pub fn byte(&self, base: &Base, a: u64) -> Result<(u8, u32), Fault> {
        let p = self.page(base, a)?;
        let o = (a & 0xfff) as usize;
        Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn set_byte(&mut self, base: &Base, a: u64, d: u8, s: u32) -> Result<(), Fault> {
        let p = self.page_mut(base, a)?;
        let o = (a & 0xfff) as usize;
        p.d[o] = d;
        if s != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o] = s;
        } else if let Some(x) = &mut p.s {
            x[o] = 0;
        }
        Ok(())
    }
    /// concrete fast path: Some(value) if all bytes are concrete and in one page
    #[inline]
    pub fn load_fast(&self, base: &Base, a: u64, n: usize) -> Option<u64> {
        let p = self.page(base, a).ok()?;
        let o = (a & 0xfff) as usize;
        if o + n > PAGE {
            return None;
        }
        if let Some(s) = &p.s {
            for i in 0..n {
                if s[o + i] != 0 {
                    return None;
                }
            }
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.d[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    #[inline]
    pub fn store_fast(&mut self, base: &Base, a: u64, n: usize, v: u64) -> Result<bool, Fault> {
        let o = (a & 0xfff) as usize;
        if o + n > PAGE {
            return Ok(false);
        }
        let p = self.page_mut(base, a)?;
        p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut p.s {
            for i in 0..n {
                s[o + i] = 0;
            }
        }
        Ok(true)
    }
    pub fn copy(&mut self, base: &Base, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // read everything first (handles overlap)
        if n <= 64 {
            let mut d = [0u8; 64];
            let mut s = [0u32; 64];
            let mut any = false;
            let o = (src & 0xfff) as usize;
            if o + (n as usize) <= PAGE {
                let p = self.page(base, src)?;
                d[..n as usize].copy_from_slice(&p.d[o..o + n as usize]);
                if let Some(x) = &p.s {
                    for i in 0..n as usize {
                        s[i] = x[o + i];
                        any |= s[i] != 0;
                    }
                }
            } else {
                for i in 0..n as usize {
                    let (a, b) = self.byte(base, src + i as u64)?;
                    d[i] = a;
                    s[i] = b;
                    any |= b != 0;
                }
            }
            return self.put(base, dst, &d[..n as usize], if any { Some(&s[..n as usize]) } else { None });
        }
        let mut d = Vec::with_capacity(n as usize);
        let mut s: Option<Vec<u32>> = None;
        let mut a = src;
        let end = src + n;
        while a < end {
            let o = (a & 0xfff) as usize;
            let k = (PAGE - o).min((end - a) as usize);
            let p = self.page(base, a)?;
            let at = d.len();
            d.extend_from_slice(&p.d[o..o + k]);
            if let Some(x) = &p.s {
                if x[o..o + k].iter().any(|v| *v != 0) {
                    let v = s.get_or_insert_with(|| vec![0; n as usize]);
                    v[at..at + k].copy_from_slice(&x[o..o + k]);
                }
            }
            a += k as u64;
        }
        self.put(base, dst, &d, s.as_deref())
    }
    pub fn put(&mut self, base: &Base, dst: u64, d: &[u8], s: Option<&[u32]>) -> Result<(), Fault> {
        let mut i = 0usize;
        let n = d.len();
        while i < n {
            let a = dst + i as u64;
            let o = (a & 0xfff) as usize;
            let k = (PAGE - o).min(n - i);
            let p = self.page_mut(base, a)?;
            p.d[o..o + k].copy_from_slice(&d[i..i + k]);
            match s {
                Some(s) => {
                    let part = &s[i..i + k];
                    if p.s.is_some() || part.iter().any(|v| *v != 0) {
                        p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o..o + k].copy_from_slice(part);
                    }
                }
                None => {
                    if let Some(x) = &mut p.s {
                        x[o..o + k].fill(0);
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn set(&mut self, base: &Base, dst: u64, v: u8, sym: u32, n: u64) -> Result<(), Fault> {
        let mut a = dst;
        let end = dst + n;
        while a < end {
            let o = (a & 0xfff) as usize;
            let k = (PAGE - o).min((end - a) as usize);
            let p = self.page_mut(base, a)?;
            p.d[o..o + k].fill(v);
            if sym != 0 {
                p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o..o + k].fill(sym);
            } else if let Some(x) = &mut p.s {
                x[o..o + k].fill(0);
            }
            a += k as u64;
        }
        Ok(())
    }
    /// usable size of a block requested with `n` bytes
    pub fn cap(n: u64) -> u64 {
        if n <= 16 {
            16
        } else if n <= 32768 {
            n.next_power_of_two()
        } else {
            (n + 15) / 16 * 16
        }
    }
    pub fn alloc(&mut self, base: &Base, size: u64, align: u64) -> u64 {
        let cap = Mem::cap(size);
        if cap <= 32768 && align <= 16 {
            let k = cap.trailing_zeros() as usize;
            let h = self.heads[k];
            if h != 0 {
                if let Some(n) = self.load_fast(base, h, 8) {
                    self.heads[k] = n;
                    return h;
                }
            }
        }
        let al = align.max(16);
        let a = (self.heap + al - 1) / al * al;
        if a + cap >= R_HEAP_END {
            return 0;
        }
        self.heap = a + cap;
        a
    }
    pub fn free(&mut self, base: &Base, p: u64, size: u64, align: u64) {
        let cap = Mem::cap(size);
        if cap <= 32768 && align <= 16 {
            let k = cap.trailing_zeros() as usize;
            let h = self.heads[k];
            if let Ok(true) = self.store_fast(base, p, 8, h) {
                self.heads[k] = p;
            }
        }
    }
    /// push a stack block; returns address
    pub fn push(&mut self, size: u64, align: u64) -> u64 {
        let a = (self.sp + align - 1) / align * align;
        self.sp = a + size;
        a
    }
    pub fn sym_pages(&self) -> usize {
        self.pages.iter().flat_map(|v| v.iter()).filter(|p| p.as_ref().map_or(false, |p| p.s.is_some())).count()
    }
}
