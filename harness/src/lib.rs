//! Entry points ("most general clients") whose monomorphised MIR is analysed.
//! Never executed.
#![allow(non_snake_case, dead_code, unused_variables, unused_mut, unreachable_code)]
extern crate multipart;
use multipart::server::*;
use multipart::server::save::*;
use std::io::{self, BufRead, Read, Write};

macro_rules! opaque { ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => {$(
    #[inline(never)] pub fn $name($($a: $t),*) -> $r { loop {} }
)*} }
pub mod client;
pub mod save;
pub mod spec;
pub mod gate;
pub mod entry;

opaque! {
    nondet_bool() -> bool;
    nondet_usize() -> usize;
    nondet_u64() -> u64;
    nondet_u8() -> u8;
    ext_read(b: &mut Body, buf: &mut [u8]) -> io::Result<usize>;
}

pub struct Body(u8);
impl Read for Body {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { ext_read(self, buf) }
}

#[inline(never)] pub fn obs_entry(f: &MultipartField<&mut Multipart<Body>>) {}
#[inline(never)] pub fn obs_end() {}
#[inline(never)] pub fn obs_err(e: io::Error) {}
#[inline(never)] pub fn obs_fill(r: &[u8]) {}
#[inline(never)] pub fn obs_consumed(n: usize) {}
#[inline(never)] pub fn obs_read(buf: &[u8], n: usize) {}

pub fn root_reader(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    while nondet_bool() {
        match Multipart::read_entry(&mut m) {
            Ok(Some(field)) => {
                obs_entry(&field);
                let MultipartField { headers, mut data, .. } = field;
                drop(headers);
                while nondet_bool() {
                    match nondet_u8() {
                        0 => {
                            let n = match data.fill_buf() {
                                Ok(b) => {
                                    obs_fill(b);
                                    let n = nondet_usize();
                                    if n <= b.len() { n } else { 0 }
                                }
                                Err(e) => { obs_err(e); 0 }
                            };
                            data.consume(n);
                            obs_consumed(n);
                        }
                        1 => data.set_min_buf_size(nondet_usize()),
                        _ => {
                            let mut buf = [0u8; 16];
                            match data.read(&mut buf) {
                                Ok(n) => obs_read(&buf, n),
                                Err(e) => obs_err(e),
                            }
                        }
                    }
                }
            }
            Ok(None) => obs_end(),
            Err(e) => obs_err(e),
        }
    }
}
