//! Stand-in for flate2 in the symbolic build: a self-delimiting container instead of DEFLATE.
//! Format: 0x78, then chunks [u32 LE length != 0][bytes], then [0;4]. What carries over from the real crate:
//! `write` may take only part of the data (at most `LIMIT` bytes a call), readers read ahead of what they decode
//! and report it in `total_in`, damaged or truncated data is an error, a dropped encoder finishes itself.
use std::io;

/// Most bytes one `write` call takes (0 = no limit); set by the harness.
pub static mut LIMIT: usize = 0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression {
    pub fn new(l: u32) -> Self { Compression(l) }
    pub fn none() -> Self { Compression(0) }
    pub fn fast() -> Self { Compression(1) }
    pub fn best() -> Self { Compression(9) }
    pub fn level(&self) -> u32 { self.0 }
}
impl Default for Compression { fn default() -> Self { Compression(6) } }

pub mod write {
    use super::*;
    use std::io::Write;
    pub struct ZlibEncoder<W: Write> { inner: Option<W>, started: bool, done: bool, total_in: u64 }
    impl<W: Write> ZlibEncoder<W> {
        pub fn new(w: W, _: Compression) -> Self { ZlibEncoder { inner: Some(w), started: false, done: false, total_in: 0 } }
        fn start(&mut self) -> io::Result<()> { if !self.started { self.started = true; self.inner.as_mut().unwrap().write_all(&[0x78])? } Ok(()) }
        pub fn try_finish(&mut self) -> io::Result<()> { if !self.done { self.start()?; self.done = true; self.inner.as_mut().unwrap().write_all(&[0; 4])? } Ok(()) }
        pub fn finish(mut self) -> io::Result<W> { self.try_finish()?; Ok(self.inner.take().unwrap()) }
        pub fn get_ref(&self) -> &W { self.inner.as_ref().unwrap() }
        pub fn get_mut(&mut self) -> &mut W { self.inner.as_mut().unwrap() }
        pub fn total_in(&self) -> u64 { self.total_in }
    }
    impl<W: Write> Write for ZlibEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.start()?;
            let lim = unsafe { LIMIT };
            let n = if lim != 0 && b.len() > lim { lim } else { b.len() };
            if n == 0 { return Ok(0) }
            let w = self.inner.as_mut().unwrap();
            w.write_all(&(n as u32).to_le_bytes())?;
            w.write_all(&b[..n])?;
            self.total_in += n as u64;
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> { self.start() }
    }
    impl<W: Write> Drop for ZlibEncoder<W> { fn drop(&mut self) { if self.inner.is_some() { let _ = self.try_finish(); } } }
}

pub mod read {
    use super::*;
    use std::io::Read;
    pub struct ZlibDecoder<R> { inner: R, buf: Vec<u8>, loaded: bool, pos: usize, left: usize, state: u8, out: u64 }
    impl<R: Read> ZlibDecoder<R> {
        pub fn new(r: R) -> Self { ZlibDecoder { inner: r, buf: Vec::new(), loaded: false, pos: 0, left: 0, state: 0, out: 0 } }
        fn take(&mut self, n: usize) -> io::Result<usize> {
            if self.buf.len() - self.pos < n { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "deflate: unexpected end")) }
            let p = self.pos;
            self.pos += n;
            Ok(p)
        }
    }
    impl<R> ZlibDecoder<R> {
        pub fn total_in(&self) -> u64 { self.pos as u64 }
        pub fn total_out(&self) -> u64 { self.out }
        pub fn into_inner(self) -> R { self.inner }
        pub fn get_ref(&self) -> &R { &self.inner }
        pub fn get_mut(&mut self) -> &mut R { &mut self.inner }
    }
    impl<R: Read> Read for ZlibDecoder<R> {
        fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
            if !self.loaded { self.loaded = true; self.inner.read_to_end(&mut self.buf)?; }
            if out.is_empty() { return Ok(0) }
            let bad = || io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream");
            loop {
                match self.state {
                    0 => { let p = self.take(1)?; if self.buf[p] != 0x78 { return Err(bad()) } self.state = 1 }
                    1 => {
                        let p = self.take(4)?;
                        let n = u32::from_le_bytes([self.buf[p], self.buf[p + 1], self.buf[p + 2], self.buf[p + 3]]) as usize;
                        if n == 0 { self.state = 3 } else { if n > 1 << 24 { return Err(bad()) } self.left = n; self.state = 2 }
                    }
                    2 => {
                        let avail = self.buf.len() - self.pos;
                        if avail == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "deflate: unexpected end")) }
                        let n = out.len().min(self.left).min(avail);
                        let p = self.take(n)?;
                        out[..n].copy_from_slice(&self.buf[p..p + n]);
                        self.left -= n;
                        self.out += n as u64;
                        if self.left == 0 { self.state = 1 }
                        return Ok(n)
                    }
                    _ => return Ok(0),
                }
            }
        }
    }
    /// Reads from the inner reader and gives the compressed data.
    pub struct ZlibEncoder<R> { inner: R, level: Compression, out: Option<(Vec<u8>, usize)> }
    impl<R> ZlibEncoder<R> {
        pub fn new(r: R, level: Compression) -> Self { ZlibEncoder { inner: r, level, out: None } }
        pub fn into_inner(self) -> R { self.inner }
        pub fn get_ref(&self) -> &R { &self.inner }
    }
    impl<R: Read> Read for ZlibEncoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.out.is_none() {
                let mut v = Vec::new();
                self.inner.read_to_end(&mut v)?;
                let mut e = super::write::ZlibEncoder::new(Vec::new(), self.level);
                io::Write::write_all(&mut e, &v)?;
                self.out = Some((e.finish()?, 0));
            }
            let (v, p) = self.out.as_mut().unwrap();
            let n = b.len().min(v.len() - *p);
            b[..n].copy_from_slice(&v[*p..*p + n]);
            *p += n;
            Ok(n)
        }
    }
}

pub mod bufread {
    use super::*;
    use std::io::{BufRead, Read};
    pub struct ZlibDecoder<R> { inner: R, buf: Vec<u8>, loaded: bool, pos: usize, left: usize, state: u8, out: u64 }
    impl<R: BufRead> ZlibDecoder<R> {
        pub fn new(r: R) -> Self { ZlibDecoder { inner: r, buf: Vec::new(), loaded: false, pos: 0, left: 0, state: 0, out: 0 } }
        fn take(&mut self, n: usize) -> io::Result<usize> {
            if self.buf.len() - self.pos < n { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "deflate: unexpected end")) }
            let p = self.pos;
            self.pos += n;
            self.inner.consume(n);
            Ok(p)
        }
    }
    impl<R> ZlibDecoder<R> {
        pub fn total_in(&self) -> u64 { self.pos as u64 }
        pub fn total_out(&self) -> u64 { self.out }
        pub fn into_inner(self) -> R { self.inner }
        pub fn get_ref(&self) -> &R { &self.inner }
        pub fn get_mut(&mut self) -> &mut R { &mut self.inner }
    }
    impl<R: BufRead> Read for ZlibDecoder<R> {
        fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
            if !self.loaded { self.loaded = true; let b = self.inner.fill_buf()?.to_vec(); self.buf = b; }
            if out.is_empty() { return Ok(0) }
            let bad = || io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream");
            loop {
                match self.state {
                    0 => { let p = self.take(1)?; if self.buf[p] != 0x78 { return Err(bad()) } self.state = 1 }
                    1 => {
                        let p = self.take(4)?;
                        let n = u32::from_le_bytes([self.buf[p], self.buf[p + 1], self.buf[p + 2], self.buf[p + 3]]) as usize;
                        if n == 0 { self.state = 3 } else { if n > 1 << 24 { return Err(bad()) } self.left = n; self.state = 2 }
                    }
                    2 => {
                        let avail = self.buf.len() - self.pos;
                        if avail == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "deflate: unexpected end")) }
                        let n = out.len().min(self.left).min(avail);
                        let p = self.take(n)?;
                        out[..n].copy_from_slice(&self.buf[p..p + n]);
                        self.left -= n;
                        self.out += n as u64;
                        if self.left == 0 { self.state = 1 }
                        return Ok(n)
                    }
                    _ => return Ok(0),
                }
            }
        }
    }
    pub use super::read::ZlibEncoder;
}
