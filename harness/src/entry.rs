//! Reading fields through every way to step through a request.
use super::*;
use multipart::server::ReadEntryResult::{Entry, End, Error};

#[inline(never)] pub fn obs_step() {}
#[inline(never)] pub fn obs_field(h: &FieldHeaders) {}
#[inline(never)] pub fn obs_stop() {}
#[inline(never)] pub fn obs_fail(e: io::Error) {}
#[inline(never)] pub fn obs_data(r: &[u8]) {}
#[inline(never)] pub fn obs_took(n: usize) {}
#[inline(never)] pub fn obs_copied(buf: &[u8], n: usize) {}
#[inline(never)] pub fn obs_derr(e: io::Error) {}

fn use_data<M: ReadEntry>(data: &mut MultipartData<M>) {
    while nondet_bool() {
        match nondet_u8() {
            0 => {
                match data.fill_buf() {
                    Ok(b) => obs_data(b),
                    Err(e) => obs_derr(e),
                }
            }
            1 => {
                let n = nondet_usize();
                data.consume(n);
                obs_took(n);
            }
            2 => data.set_min_buf_size(nondet_usize()),
            _ => {
                let mut buf = [0u8; 16];
                match data.read(&mut buf) {
                    Ok(n) => obs_copied(&buf, n),
                    Err(e) => obs_derr(e),
                }
            }
        }
    }
}

pub fn root_field_ref(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    while nondet_bool() {
        obs_step();
        match Multipart::read_entry(&mut m) {
            Ok(Some(mut f)) => { obs_field(&f.headers); use_data(&mut f.data); }
            Ok(None) => obs_stop(),
            Err(e) => obs_fail(e),
        }
    }
}

fn touch<M: ReadEntry>(data: &mut MultipartData<M>) {
    match data.fill_buf() {
        Ok(b) => obs_data(b),
        Err(e) => return obs_derr(e),
    }
    let n = nondet_usize();
    data.consume(n);
    obs_took(n);
}

pub fn root_field_owned(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    while nondet_bool() {
        obs_step();
        m = match m.into_entry() {
            Entry(f) => {
                obs_field(&f.headers);
                let MultipartField { headers, mut data, .. } = f;
                drop(headers);
                use_data(&mut data);
                data.into_inner()
            }
            End(m) => { obs_stop(); m }
            Error(m, e) => { obs_fail(e); m }
        };
    }
}

pub fn root_field_next(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    obs_step();
    if let Entry(mut f) = m.into_entry() {
        obs_field(&f.headers);
        touch(&mut f.data);
        while nondet_bool() {
            obs_step();
            match f.next_entry() {
                Entry(mut g) => { obs_field(&g.headers); touch(&mut g.data); f = g; }
                End(m) => { obs_stop(); return; }
                Error(m, e) => { obs_fail(e); return; }
            }
        }
    }
}

pub fn root_field_inplace(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    obs_step();
    if let Entry(mut f) = m.into_entry() {
        obs_field(&f.headers);
        while nondet_bool() {
            obs_step();
            match f.next_entry_inplace() {
                Ok(Some(g)) => obs_field(&g.headers),
                Ok(None) => obs_stop(),
                Err(e) => obs_fail(e),
            }
            touch(&mut f.data);
        }
    }
}

pub fn root_field_foreach(body: Body, boundary: String) {
    let mut m = Multipart::with_body(body, boundary);
    obs_step();
    let r = m.foreach_entry(|mut f| { obs_field(&f.headers); use_data(&mut f.data); obs_step(); });
    match r {
        Ok(()) => obs_stop(),
        Err(e) => obs_fail(e),
    }
}
