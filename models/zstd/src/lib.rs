//! Stand-in for zstd in the symbolic build: a self-delimiting container instead of compression.
//! Format: 28 B5 2F FD, then chunks [u32 LE length != 0][bytes], then [0;4]. As in the real crate, `write` may take
//! only part of the data, an encoder that is not finished leaves an incomplete frame, data after a frame must be
//! another frame, and damaged or truncated data is an error.
use std::io;
/// Most bytes one `write` call takes (0 = no limit); set by the harness.
pub static mut LIMIT: usize = 0;
pub use stream::{decode_all, encode_all, Decoder, Encoder};
pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
pub mod bulk {
    pub fn compress(b: &[u8], level: i32) -> std::io::Result<Vec<u8>> { super::encode_all(b, level) }
    pub fn decompress(b: &[u8], cap: usize) -> std::io::Result<Vec<u8>> {
        let v = super::decode_all(b)?;
        if v.len() > cap { return Err(std::io::Error::new(std::io::ErrorKind::Other, "Destination buffer is too small")) }
        Ok(v)
    }
}

pub mod stream {
    use super::*;
    use std::io::{BufRead, BufReader, Read, Write};
    pub use read::Decoder;
    pub use write::Encoder;

    pub mod read {
        use super::*;
        pub struct Decoder<'a, R: BufRead> { inner: R, buf: Vec<u8>, loaded: bool, pos: usize, left: usize, state: u8, p: std::marker::PhantomData<&'a ()> }
        impl<R: Read> Decoder<'static, BufReader<R>> {
            pub fn new(r: R) -> io::Result<Self> { Self::with_buffer(BufReader::new(r)) }
        }
        impl<R: BufRead> Decoder<'static, R> {
            pub fn with_buffer(r: R) -> io::Result<Self> { Ok(Decoder { inner: r, buf: Vec::new(), loaded: false, pos: 0, left: 0, state: 0, p: std::marker::PhantomData }) }
        }
        impl<'a, R: BufRead> Decoder<'a, R> {
            pub fn finish(self) -> R { self.inner }
            pub fn get_ref(&self) -> &R { &self.inner }
            fn take(&mut self, n: usize) -> io::Result<usize> {
                if self.buf.len() - self.pos < n { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame")) }
                let p = self.pos;
                self.pos += n;
                Ok(p)
            }
        }
        impl<'a, R: BufRead> Read for Decoder<'a, R> {
            fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
                if !self.loaded { self.loaded = true; self.inner.read_to_end(&mut self.buf)?; }
                if out.is_empty() { return Ok(0) }
                loop {
                    match self.state {
                        0 => {
                            if self.pos == self.buf.len() { return Ok(0) }
                            let p = self.take(4)?;
                            if self.buf[p..p + 4] != [0x28, 0xB5, 0x2F, 0xFD] { return Err(io::Error::new(io::ErrorKind::Other, "Unknown frame descriptor")) }
                            self.state = 1
                        }
                        1 => {
                            let p = self.take(4)?;
                            let n = u32::from_le_bytes([self.buf[p], self.buf[p + 1], self.buf[p + 2], self.buf[p + 3]]) as usize;
                            if n == 0 { self.state = 0 } else { if n > 1 << 24 { return Err(io::Error::new(io::ErrorKind::Other, "Data corruption detected")) } self.left = n; self.state = 2 }
                        }
                        _ => {
                            let avail = self.buf.len() - self.pos;
                            if avail == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame")) }
                            let n = out.len().min(self.left).min(avail);
                            let p = self.take(n)?;
                            out[..n].copy_from_slice(&self.buf[p..p + n]);
                            self.left -= n;
                            if self.left == 0 { self.state = 1 }
                            return Ok(n)
                        }
                    }
                }
            }
        }
    }
    pub mod write {
        use super::*;
        pub struct Encoder<'a, W: Write> { inner: W, started: bool, p: std::marker::PhantomData<&'a ()> }
        impl<W: Write> Encoder<'static, W> {
            pub fn new(w: W, _level: i32) -> io::Result<Self> { Ok(Encoder { inner: w, started: false, p: std::marker::PhantomData }) }
        }
        impl<'a, W: Write> Encoder<'a, W> {
            fn start(&mut self) -> io::Result<()> { if !self.started { self.started = true; self.inner.write_all(&[0x28, 0xB5, 0x2F, 0xFD])? } Ok(()) }
            pub fn finish(mut self) -> io::Result<W> { self.start()?; self.inner.write_all(&[0; 4])?; Ok(self.inner) }
            pub fn auto_finish(self) -> AutoFinish<'a, W> { AutoFinish(Some(self)) }
            pub fn do_finish(&mut self) -> io::Result<()> { self.start()?; self.inner.write_all(&[0; 4]) }
            pub fn get_ref(&self) -> &W { &self.inner }
            pub fn get_mut(&mut self) -> &mut W { &mut self.inner }
            pub fn include_checksum(&mut self, _: bool) -> io::Result<()> { Ok(()) }
        }
        pub struct AutoFinish<'a, W: Write>(Option<Encoder<'a, W>>);
        impl<'a, W: Write> Write for AutoFinish<'a, W> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.as_mut().unwrap().write(b) }
            fn flush(&mut self) -> io::Result<()> { self.0.as_mut().unwrap().flush() }
        }
        impl<'a, W: Write> Drop for AutoFinish<'a, W> { fn drop(&mut self) { if let Some(e) = self.0.take() { let _ = e.finish(); } } }
        impl<'a, W: Write> Write for Encoder<'a, W> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                self.start()?;
                let lim = unsafe { super::super::LIMIT };
                let n = if lim != 0 && b.len() > lim { lim } else { b.len() };
                if n == 0 { return Ok(0) }
                self.inner.write_all(&(n as u32).to_le_bytes())?;
                self.inner.write_all(&b[..n])?;
                Ok(n)
            }
            fn flush(&mut self) -> io::Result<()> { self.start()?; self.inner.flush() }
        }
    }
    pub fn decode_all<R: Read>(r: R) -> io::Result<Vec<u8>> { let mut v = Vec::new(); Decoder::new(r)?.read_to_end(&mut v)?; Ok(v) }
    pub fn encode_all<R: Read>(mut r: R, level: i32) -> io::Result<Vec<u8>> { let mut v = Vec::new(); r.read_to_end(&mut v)?; let mut e = Encoder::new(Vec::new(), level)?; e.write_all(&v)?; e.finish() }
    pub fn copy_decode<R: Read, W: Write>(r: R, mut w: W) -> io::Result<()> { w.write_all(&decode_all(r)?) }
    pub fn copy_encode<R: Read, W: Write>(r: R, mut w: W, l: i32) -> io::Result<()> { w.write_all(&encode_all(r, l)?) }
}
