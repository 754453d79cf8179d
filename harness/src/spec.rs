//! Library functions specified in Rust (what their documentation says, no
//! more): the extractor redirects calls of `std::a::b` to `spec__std__a__b`.
//! Never executed.
use std::io::{self, Read, Write, BufRead, ErrorKind};
use crate::*;

opaque! {
    fmt_bytes(a: &std::fmt::Arguments) -> &'static [u8];
}

pub fn spec__std__io__copy<R: Read + ?Sized, W: Write + ?Sized>(r: &mut R, w: &mut W) -> io::Result<u64> {
    let mut buf = [0u8; 8192];
    let mut total = 0u64;
    loop {
        let n = match r.read(&mut buf) {
            Ok(0) => return Ok(total),
            Ok(n) => n,
            Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        w.write_all(&buf[..n])?;
        total += n as u64;
    }
}

pub fn spec__std__io__Write__write_all<W: Write + ?Sized>(w: &mut W, mut buf: &[u8]) -> io::Result<()> {
    while !buf.is_empty() {
        match w.write(buf) {
            Ok(0) => return Err(io::Error::new(ErrorKind::WriteZero, "failed to write whole buffer")),
            Ok(n) => buf = &buf[n..],
            Err(ref e) if e.kind() == ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

pub fn spec__std__io__Write__write_fmt<W: Write + ?Sized>(w: &mut W, a: std::fmt::Arguments) -> io::Result<()> {
    w.write_all(fmt_bytes(&a))
}
