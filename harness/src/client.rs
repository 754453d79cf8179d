//! Client roots: every sequence of calls on the three client APIs, with an
//! arbitrary request, stream and field sources.
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart};
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use mime::Mime;
use crate::*;

pub struct Req(u8);
pub struct Strm(u8);
pub struct Src(u8);
pub struct Resp(u8);

opaque! {
    ext_apply(r: &mut Req, boundary: &str, len: Option<u64>) -> bool;
    ext_open(r: Req) -> io::Result<Strm>;
    ext_write(s: &mut Strm, buf: &[u8]) -> io::Result<usize>;
    ext_flush(s: &mut Strm) -> io::Result<()>;
    ext_finish(s: Strm) -> io::Result<Resp>;
    ext_src_read(s: &mut Src, buf: &mut [u8]) -> io::Result<usize>;
    nondet_mime() -> Option<Mime>;
    nondet_src() -> Src;
    nondet_fname() -> Option<&'static str>;
    nondet_str() -> &'static str;
    nondet_path() -> &'static Path;
    nondet_req() -> Req;
}

impl HttpRequest for Req {
    type Stream = Strm;
    type Error = io::Error;
    fn apply_headers(&mut self, boundary: &str, len: Option<u64>) -> bool { ext_apply(self, boundary, len) }
    fn open_stream(self) -> Result<Strm, io::Error> { ext_open(self) }
}
impl Write for Strm {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { ext_write(self, buf) }
    fn flush(&mut self) -> io::Result<()> { ext_flush(self) }
}
impl HttpStream for Strm {
    type Request = Req;
    type Response = Resp;
    type Error = io::Error;
    fn finish(self) -> Result<Resp, io::Error> { ext_finish(self) }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { ext_src_read(self, buf) }
}

#[inline(never)] pub fn obs_text(name: &str, val: &str) {}
#[inline(never)] pub fn obs_stream(name: &str, src: &Src, fname: &Option<&str>, mime: &Option<Mime>) {}
#[inline(never)] pub fn obs_file(name: &str, path: &Path) {}
#[inline(never)] pub fn obs_written() {}
#[inline(never)] pub fn obs_failed() {}
#[inline(never)] pub fn obs_sent() {}
#[inline(never)] pub fn obs_prepared(boundary: &str, len: Option<u64>) {}
#[inline(never)] pub fn obs_chunk(buf: &[u8]) {}
#[inline(never)] pub fn obs_body_end() {}

fn one_field<S: HttpStream>(m: &mut Multipart<S>) -> bool {
    let name = nondet_str();
    let r = match nondet_u8() {
        0 => {
            let val = nondet_str();
            obs_text(name, val);
            m.write_text(name, val).is_ok()
        }
        1 => {
            let (mut src, f, ct) = (nondet_src(), nondet_fname(), nondet_mime());
            obs_stream(name, &src, &f, &ct);
            m.write_stream(name, &mut src, f, ct).is_ok()
        }
        _ => {
            let path = nondet_path();
            obs_file(name, path);
            m.write_file(name, path).is_ok()
        }
    };
    r
}

/// Streaming client, any number of fields.
pub fn root_client(req: Req) {
    let mut m = match Multipart::from_request(req) {
        Ok(m) => m,
        Err(_) => { obs_failed(); return }
    };
    while nondet_bool() {
        if one_field(&mut m) { obs_written() } else { obs_failed(); return }
    }
    match m.send() {
        Ok(_) => obs_sent(),
        Err(_) => obs_failed(),
    }
}

/// Buffering client (`SizedRequest`), up to two fields.
pub fn root_sized(req: Req) {
    let mut m = match Multipart::from_request_sized(req) {
        Ok(m) => m,
        Err(_) => { obs_failed(); return }
    };
    if nondet_bool() {
        if !one_field(&mut m) { obs_failed(); return }
        if nondet_bool() && !one_field(&mut m) { obs_failed(); return }
    }
    match m.send() {
        Ok(_) => obs_sent(),
        Err(_) => obs_failed(),
    }
}

fn add_field<'n, 'd>(m: &mut lazy::Multipart<'n, 'd>) {
    let name = nondet_str();
    match nondet_u8() {
        0 => {
            let val = nondet_str();
            obs_text(name, val);
            m.add_text(name, val);
        }
        1 => {
            let (src, f, ct) = (nondet_src(), nondet_fname(), nondet_mime());
            obs_stream(name, &src, &f, &ct);
            m.add_stream(name, src, f, ct);
        }
        _ => {
            let path = nondet_path();
            obs_file(name, path);
            m.add_file(name, path);
        }
    }
}

/// Lazy client, up to two fields, sent.
pub fn root_lazy(req: Req) {
    let mut m = lazy::Multipart::new();
    if nondet_bool() {
        add_field(&mut m);
        if nondet_bool() { add_field(&mut m) }
    }
    match m.send(req) {
        Ok(_) => obs_sent(),
        Err(_) => obs_failed(),
    }
}

/// Lazy client exported as a reader which is read in arbitrary pieces,
/// going on after errors.
pub fn root_prepared() {
    let mut m = lazy::Multipart::new();
    if nondet_bool() {
        add_field(&mut m);
        if nondet_bool() { add_field(&mut m) }
    }
    let mut p = match m.prepare() {
        Ok(p) => p,
        Err(_) => { obs_failed(); return }
    };
    obs_prepared(p.boundary(), p.content_len());
    let mut buf = [0u8; 64];
    loop {
        let cap = nondet_usize();
        if cap > 64 || cap == 0 { continue }
        match p.read(&mut buf[..cap]) {
            Ok(0) => { obs_body_end(); break }
            Ok(n) => obs_chunk(&buf[..n]),
            Err(_) => (),
        }
    }
}
