//! 4 GB flat guest memory, copy-on-write 4 KB pages, optional symbolic expression per byte.
use crate::expr::{self, E};
use crate::ll::V;
use std::rc::Rc;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; 4096],
    pub s: Option<Box<[E; 4096]>>,
}
type L2 = [Option<Rc<Page>>; 1024];
#[derive(Clone)]
pub struct Mem {
    l1: Vec<Option<Rc<L2>>>,
    /// next never-used heap address and free-list heads per size class
    pub brk: u64,
    pub free: [u64; 64],
    pub zero: Rc<Page>,
}
#[derive(Debug)]
pub struct Fault(pub u64);

const HDR: u64 = 16;

impl Mem {
    pub fn new() -> Mem {
        Mem {
            l1: vec![None; 1024],
            brk: crate::ll::HEAP_BASE,
            free: [0; 64],
            zero: Rc::new(Page { d: [0; 4096], s: None }),
        }
    }
    #[inline]
    fn page(&self, a: u64) -> Result<&Page, Fault> {
        if a >> 32 == 0 {
            if let Some(l2) = &self.l1[(a >> 22) as usize] {
                if let Some(p) = &l2[(a >> 12 & 1023) as usize] {
                    return Ok(p);
                }
            }
        }
        self.page_slow(a)
    }
    fn valid(a: u64) -> bool {
        use crate::ll::*;
        (a >= GLOBAL_BASE && a < HEAP_END) || (a >= STACK_BASE && a < STACK_END)
    }
    #[cold]
    fn page_slow(&self, a: u64) -> Result<&Page, Fault> {
        if Self::valid(a) {
            Ok(&self.zero)
        } else {
            Err(Fault(a))
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        if a >> 32 != 0 || !Self::valid(a) {
            return Err(Fault(a));
        }
        let l1 = &mut self.l1[(a >> 22) as usize];
        if l1.is_none() {
            const NONE: Option<Rc<Page>> = None;
            *l1 = Some(Rc::new([NONE; 1024]));
        }
        let l2 = Rc::make_mut(l1.as_mut().unwrap());
        let p = &mut l2[(a >> 12 & 1023) as usize];
        if p.is_none() {
            *p = Some(self.zero.clone());
        }
        Ok(Rc::make_mut(p.as_mut().unwrap()))
    }
    #[inline]
    pub fn load(&self, a: u64, w: u16) -> Result<V, Fault> {
        let n = (w as usize + 7) / 8;
        let o = (a & 4095) as usize;
        if o + n <= 4096 && n <= 8 {
            let p = self.page(a)?;
            if p.s.is_none() {
                let v = match n {
                    1 => p.d[o] as u64,
                    8 => u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()),
                    4 => u32::from_le_bytes(p.d[o..o + 4].try_into().unwrap()) as u64,
                    2 => u16::from_le_bytes(p.d[o..o + 2].try_into().unwrap()) as u64,
                    _ => {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&p.d[o..o + n]);
                        u64::from_le_bytes(b)
                    }
                };
                return Ok(V::C(if w % 8 == 0 { v } else { v & ((1u64 << w) - 1) }));
            }
        }
        self.load_slow(a, w)
    }
    fn load_slow(&self, a: u64, w: u16) -> Result<V, Fault> {
        let n = (w as usize + 7) / 8;
        let mut bytes = [0u8; 32];
        let mut syms = [0 as E; 32];
        let mut any = false;
        for i in 0..n {
            let (b, s) = self.byte(a + i as u64)?;
            bytes[i] = b;
            syms[i] = s;
            any |= s != 0;
        }
        if !any {
            if w <= 64 {
                let v = u64::from_le_bytes(bytes[..8].try_into().unwrap());
                return Ok(V::C(if w == 64 { v } else { v & ((1u64 << w) - 1) }));
            }
            let v = u128::from_le_bytes(bytes[..16].try_into().unwrap());
            return Ok(V::S(expr::with(|ar| ar.c(w, v))));
        }
        Ok(expr::with(|ar| {
            let mut e: Option<E> = None;
            for i in (0..n).rev() {
                let b = if syms[i] != 0 { syms[i] } else { ar.c(8, bytes[i] as u128) };
                e = Some(match e {
                    None => b,
                    Some(h) => ar.concat(h, b),
                });
            }
            let mut e = e.unwrap();
            if w as usize != n * 8 {
                e = ar.extract(w, 0, e);
            }
            norm(ar, e)
        }))
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E), Fault> {
        let p = self.page(a)?;
        let o = (a & 4095) as usize;
        Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    pub fn set_byte(&mut self, a: u64, v: u8, s: E) -> Result<(), Fault> {
        let o = (a & 4095) as usize;
        let p = self.page_mut(a)?;
        p.d[o] = v;
        match &mut p.s {
            Some(x) => x[o] = s,
            None => {
                if s != 0 {
                    let mut b = Box::new([0 as E; 4096]);
                    b[o] = s;
                    p.s = Some(b);
                }
            }
        }
        Ok(())
    }
    #[inline]
    pub fn store(&mut self, a: u64, v: V, w: u16) -> Result<(), Fault> {
        let n = (w as usize + 7) / 8;
        let o = (a & 4095) as usize;
        if let V::C(x) = v {
            if o + n <= 4096 {
                let p = self.page_mut(a)?;
                match n {
                    1 => p.d[o] = x as u8,
                    8 => p.d[o..o + 8].copy_from_slice(&x.to_le_bytes()),
                    4 => p.d[o..o + 4].copy_from_slice(&(x as u32).to_le_bytes()),
                    2 => p.d[o..o + 2].copy_from_slice(&(x as u16).to_le_bytes()),
                    _ => p.d[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]),
                }
                if let Some(s) = &mut p.s {
                    s[o..o + n].fill(0);
                }
                return Ok(());
            }
            for i in 0..n {
                self.set_byte(a + i as u64, (x >> (8 * i)) as u8, 0)?;
            }
            return Ok(());
        }
        let V::S(e) = v else { unreachable!() };
        let parts: Vec<(u8, E)> = expr::with(|ar| {
            let mut e = e;
            if w as usize != n * 8 {
                e = ar.zext((n * 8) as u16, e);
            }
            (0..n)
                .map(|i| {
                    let x = ar.extract(8, (8 * i) as u16, e);
                    match ar.as_const(x) {
                        Some(c) => (c as u8, 0),
                        None => (0, x),
                    }
                })
                .collect()
        });
        for (i, (b, s)) in parts.into_iter().enumerate() {
            self.set_byte(a + i as u64, b, s)?;
        }
        Ok(())
    }
    pub fn write(&mut self, mut a: u64, mut b: &[u8]) -> Result<(), Fault> {
        while !b.is_empty() {
            let o = (a & 4095) as usize;
            let n = b.len().min(4096 - o);
            let p = self.page_mut(a)?;
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
            a += n as u64;
            b = &b[n..];
        }
        Ok(())
    }
    /// concrete bytes, or None if one of them is symbolic
    pub fn read(&self, mut a: u64, n: u64) -> Result<Option<Vec<u8>>, Fault> {
        let mut out = Vec::with_capacity(n as usize);
        let end = a + n;
        while a < end {
            let o = (a & 4095) as usize;
            let k = ((end - a) as usize).min(4096 - o);
            let p = self.page(a)?;
            if let Some(s) = &p.s {
                if s[o..o + k].iter().any(|x| *x != 0) {
                    return Ok(None);
                }
            }
            out.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        Ok(Some(out))
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        if let Some(b) = self.read(s, n)? {
            return self.write(d, &b);
        }
        let mut buf = Vec::with_capacity(n as usize);
        for i in 0..n {
            buf.push(self.byte(s + i)?);
        }
        for (i, (b, e)) in buf.into_iter().enumerate() {
            self.set_byte(d + i as u64, b, e)?;
        }
        Ok(())
    }
    pub fn fill(&mut self, mut d: u64, v: u8, mut n: u64) -> Result<(), Fault> {
        while n > 0 {
            let o = (d & 4095) as usize;
            let k = (n as usize).min(4096 - o);
            let p = self.page_mut(d)?;
            p.d[o..o + k].fill(v);
            if let Some(s) = &mut p.s {
                s[o..o + k].fill(0);
            }
            d += k as u64;
            n -= k as u64;
        }
        Ok(())
    }
    fn class(n: u64) -> (usize, u64) {
        // 16-byte steps up to 128, then 4 classes per power of two
        let n = n.max(1);
        if n <= 128 {
            let c = (n + 15) / 16;
            return (c as usize, c * 16);
        }
        let lg = 63 - (n - 1).leading_zeros() as u64; // 2^lg < n <= 2^(lg+1)
        let step = 1u64 << (lg - 2);
        let k = (n - (1 << lg) + step - 1) / step; // 1..=4
        let sz = (1 << lg) + k * step;
        ((8 + (lg - 7) * 4 + k) as usize, sz)
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> Option<u64> {
        if align > 16 {
            let a = (self.brk + HDR + align - 1) / align * align;
            let e = a + n;
            if e >= crate::ll::HEAP_END {
                return None;
            }
            self.store(a - 16, V::C(63), 64).ok()?;
            self.store(a - 8, V::C(n), 64).ok()?;
            self.brk = (e + 15) / 16 * 16;
            return Some(a);
        }
        let (c, sz) = Self::class(n);
        if c < 62 {
            let h = self.free[c];
            if h != 0 {
                let V::C(nx) = self.load(h, 64).ok()? else { return None };
                self.free[c] = nx;
                self.store(h - 8, V::C(n), 64).ok()?;
                return Some(h);
            }
        }
        let a = self.brk + HDR;
        if a + sz >= crate::ll::HEAP_END {
            return None;
        }
        self.store(a - 16, V::C(c as u64), 64).ok()?;
        self.store(a - 8, V::C(n), 64).ok()?;
        self.brk = a + sz;
        Some(a)
    }
    pub fn size_of(&self, a: u64) -> u64 {
        match self.load(a - 8, 64) {
            Ok(V::C(n)) => n,
            _ => 0,
        }
    }
    pub fn free(&mut self, a: u64) {
        if a < 4096 {
            return;
        }
        let c = match self.load(a - 16, 64) {
            Ok(V::C(n)) => n as usize,
            _ => 63,
        };
        if c < 62 && c > 0 {
            let h = self.free[c];
            let _ = self.store(a, V::C(h), 64);
            self.free[c] = a;
        }
    }
    pub fn realloc(&mut self, a: u64, n: u64, align: u64) -> Option<u64> {
        let old = self.size_of(a);
        let b = self.alloc(n, align)?;
        self.copy(b, a, old.min(n)).ok()?;
        self.free(a);
        Some(b)
    }
}
pub fn norm(ar: &mut expr::Arena, e: E) -> V {
    if ar.width(e) <= 64 {
        if let Some(c) = ar.as_const(e) {
            return V::C(c as u64);
        }
    }
    V::S(e)
}
