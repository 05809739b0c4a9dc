//! Byte-addressed memory: copy-on-write pages, each with an optional overlay of symbolic bytes.
use std::rc::Rc;

pub const PS: u64 = 4096;

pub struct Page { pub d: [u8; 4096], pub s: Option<Box<[u32; 4096]>> }
impl Clone for Page { fn clone(&self) -> Self { Page { d: self.d, s: self.s.clone() } } }

const NONE: Option<Rc<Page>> = None;
#[derive(Clone)]
struct L2 { p: [Option<Rc<Page>>; 1024] }

#[derive(Clone)]
pub struct Mem { top: Vec<Option<Rc<L2>>> }

pub const STACK_LO: u64 = 0xB000_0000;
pub const STACK_HI: u64 = 0xC000_0000;

#[inline] fn auto(a: u64) -> bool { a >= STACK_LO && a < STACK_HI }

impl Mem {
    pub fn new() -> Self { Mem { top: vec![None; 1024] } }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        if a >> 32 != 0 { return None }
        match &self.top[(a >> 22) as usize] { Some(l) => l.p[((a >> 12) & 1023) as usize].as_deref(), None => None }
    }
    /// Writable page; creates stack pages on demand and any page if `create`.
    #[inline]
    pub fn page_mut(&mut self, a: u64, create: bool) -> Option<&mut Page> {
        if a >> 32 != 0 { return None }
        let t = &mut self.top[(a >> 22) as usize];
        if t.is_none() {
            if !create && !auto(a) { return None }
            *t = Some(Rc::new(L2 { p: [NONE; 1024] }));
        }
        let l = Rc::make_mut(t.as_mut().unwrap());
        let p = &mut l.p[((a >> 12) & 1023) as usize];
        if p.is_none() {
            if !create && !auto(a) { return None }
            *p = Some(Rc::new(Page { d: [0; 4096], s: None }));
        }
        Some(Rc::make_mut(p.as_mut().unwrap()))
    }
    pub fn mapped(&self, a: u64, n: u64) -> bool {
        if n == 0 { return true }
        let mut p = a & !(PS - 1);
        while p < a + n { if self.page(p).is_none() && !auto(p) { return false } p += PS }
        true
    }
    /// byte and its symbolic expression (0 = concrete)
    #[inline]
    pub fn byte(&self, a: u64) -> Option<(u8, u32)> {
        match self.page(a) {
            Some(p) => { let o = (a & 4095) as usize; Some((p.d[o], p.s.as_ref().map_or(0, |s| s[o]))) }
            None => if auto(a) { Some((0, 0)) } else { None },
        }
    }
    /// Concrete read of up to 8 bytes: Ok(Some) concrete, Ok(None) something symbolic, Err unmapped.
    #[inline]
    pub fn read(&self, a: u64, n: u64) -> Result<Option<u64>, ()> {
        let o = a & 4095;
        if o + n <= 4096 {
            let o = o as usize;
            let p = match self.page(a) { Some(p) => p, None => return if auto(a) { Ok(Some(0)) } else { Err(()) } };
            if let Some(s) = &p.s { if s[o..o + n as usize].iter().any(|&e| e != 0) { return Ok(None) } }
            return Ok(Some(match n {
                1 => p.d[o] as u64,
                2 => u16::from_le_bytes([p.d[o], p.d[o + 1]]) as u64,
                4 => u32::from_le_bytes(p.d[o..o + 4].try_into().unwrap()) as u64,
                8 => u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()),
                _ => { let mut v = 0; for i in 0..n as usize { v |= (p.d[o + i] as u64) << (8 * i) } v }
            }));
        }
        let mut v = 0;
        for i in 0..n {
            let (b, s) = self.byte(a + i).ok_or(())?;
            if s != 0 { return Ok(None) }
            v |= (b as u64) << (8 * i);
        }
        Ok(Some(v))
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: u64, v: u64) -> Result<(), ()> {
        let o = (a & 4095) as usize;
        if o as u64 + n <= 4096 {
            let p = self.page_mut(a, false).ok_or(())?;
            let b = v.to_le_bytes();
            p.d[o..o + n as usize].copy_from_slice(&b[..n as usize]);
            if let Some(s) = &mut p.s { s[o..o + n as usize].fill(0) }
            return Ok(());
        }
        for i in 0..n { self.set(a + i, (v >> (8 * i)) as u8, 0)? }
        Ok(())
    }
    #[inline]
    pub fn set(&mut self, a: u64, b: u8, s: u32) -> Result<(), ()> {
        let p = self.page_mut(a, false).ok_or(())?;
        let o = (a & 4095) as usize;
        p.d[o] = b;
        if s != 0 { p.s.get_or_insert_with(|| Box::new([0; 4096]))[o] = s }
        else if let Some(x) = &mut p.s { x[o] = 0 }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, n: u64, b: u8, s: u32, create: bool) -> Result<(), ()> {
        let mut i = 0;
        while i < n {
            let o = ((a + i) & 4095) as usize;
            let k = (4096 - o as u64).min(n - i);
            let p = self.page_mut(a + i, create).ok_or(())?;
            p.d[o..o + k as usize].fill(b);
            if s != 0 { p.s.get_or_insert_with(|| Box::new([0; 4096]))[o..o + k as usize].fill(s) }
            else if let Some(x) = &mut p.s { x[o..o + k as usize].fill(0) }
            i += k;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8], create: bool) -> Result<(), ()> {
        let mut i = 0;
        while i < b.len() {
            let o = ((a + i as u64) & 4095) as usize;
            let k = (4096 - o).min(b.len() - i);
            let p = self.page_mut(a + i as u64, create).ok_or(())?;
            p.d[o..o + k].copy_from_slice(&b[i..i + k]);
            if let Some(x) = &mut p.s { x[o..o + k].fill(0) }
            i += k;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), ()> {
        if n == 0 || d == s { return Ok(()) }
        if n <= 4096 * 4 {
            // through a buffer: also right for overlapping ranges
            let mut buf = [0u8; 4096 * 4];
            let mut sy: Vec<u32> = Vec::new();
            let mut i = 0;
            while i < n {
                let o = ((s + i) & 4095) as usize;
                let k = (4096 - o as u64).min(n - i) as usize;
                match self.page(s + i) {
                    Some(p) => {
                        buf[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]);
                        if let Some(x) = &p.s {
                            if x[o..o + k].iter().any(|&e| e != 0) {
                                if sy.is_empty() { sy.resize(n as usize, 0) }
                                sy[i as usize..i as usize + k].copy_from_slice(&x[o..o + k]);
                            }
                        }
                    }
                    None => if auto(s + i) { buf[i as usize..i as usize + k].fill(0) } else { return Err(()) },
                }
                i += k as u64;
            }
            i = 0;
            while i < n {
                let o = ((d + i) & 4095) as usize;
                let k = (4096 - o as u64).min(n - i) as usize;
                let p = self.page_mut(d + i, false).ok_or(())?;
                p.d[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
                if sy.is_empty() { if let Some(x) = &mut p.s { x[o..o + k].fill(0) } }
                else { p.s.get_or_insert_with(|| Box::new([0; 4096]))[o..o + k].copy_from_slice(&sy[i as usize..i as usize + k]) }
                i += k as u64;
            }
            return Ok(());
        }
        const C: u64 = 4096 * 4;
        if d < s || d >= s + n {
            let mut i = 0;
            while i < n { let k = C.min(n - i); self.copy(d + i, s + i, k)?; i += k }
        } else {
            let mut i = n;
            while i > 0 { let k = C.min(i); self.copy(d + i - k, s + i - k, k)?; i -= k }
        }
        Ok(())
    }
}
