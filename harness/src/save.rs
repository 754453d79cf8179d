//! Save roots: one field saved with any options, by any of the ways to save it.
use multipart::server::*;
use multipart::server::save::*;
use std::io::{self, BufRead, Read, Write};
use std::path::PathBuf;
use crate::*;

pub type Data<'a> = MultipartData<&'a mut Multipart<Body>>;

pub struct Dest(u8);
opaque! {
    ext_dest_write(d: &mut Dest, buf: &[u8]) -> io::Result<usize>;
    nondet_dest() -> Dest;
}
impl Write for Dest {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { ext_dest_write(self, buf) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[inline(never)] pub fn obs_opts(limit: u64, thr: u64, policy: u8) {}
#[inline(never)] pub fn obs_saved(r: &FieldSaveResult) {}
#[inline(never)] pub fn obs_copied(r: &SaveResult<u64, u64>) {}

/// A field saved to a path of the caller's choice.
pub fn root_save_path(data: &mut Data, path: PathBuf, limit: u64, thr: u64) {
    let b = data.save().size_limit(limit).memory_threshold(thr);
    let mut b = match nondet_u8() {
        0 => { obs_opts(limit, thr, 0); b.force_text() }
        1 => { obs_opts(limit, thr, 1); b.ignore_text() }
        _ => { obs_opts(limit, thr, 2); b.try_text() }
    };
    let r = b.with_path(path);
    obs_saved(&r);
}

/// A field saved without a size limit.
pub fn root_save_unlimited(data: &mut Data, path: PathBuf, thr: u64) {
    obs_opts(u64::max_value(), thr, 2);
    let r = data.save().size_limit(None).memory_threshold(thr).with_path(path);
    obs_saved(&r);
}

/// A field saved under a generated name.
pub fn root_save_dir(data: &mut Data, dir: PathBuf, limit: u64, thr: u64) {
    obs_opts(limit, thr, 2);
    let mut b = data.save().size_limit(limit).memory_threshold(thr);
    let r = match nondet_u8() {
        0 => b.temp(),
        1 => b.with_filename(crate::client::nondet_str()),
        _ => b.with_dir(dir),
    };
    obs_saved(&r);
}

/// A field copied to a writer.
pub fn root_write_to(data: &mut Data, limit: u64) {
    obs_opts(limit, 0, 2);
    let mut d = nondet_dest();
    let r = if nondet_bool() {
        data.save().size_limit(limit).write_to(&mut d)
    } else {
        obs_opts(u64::max_value(), 0, 2);
        data.save().size_limit(None).write_to(&mut d)
    };
    obs_copied(&r);
}

#[inline(never)] pub fn obs_entries(r: &EntriesSaveResult<&mut Multipart<Body>>, n: Option<u32>) {}
#[inline(never)] pub fn obs_count(limit: u32) {}

/// All fields of a request.
pub fn root_entries(m: &mut Multipart<Body>, dir: PathBuf, limit: u64, thr: u64, count: u32) {
    obs_opts(limit, thr, 2);
    obs_count(count);
    let b = m.save().size_limit(limit).memory_threshold(thr).count_limit(count);
    let r = b.with_dir(dir);
    let n = match r {
        SaveResult::Full(ref e) => Some(e.fields_count()),
        SaveResult::Partial(ref p, _) => Some(p.entries.fields_count()),
        SaveResult::Error(_) => None,
    };
    obs_entries(&r, n);
}

/// The same in a temporary directory.
pub fn root_entries_temp(m: &mut Multipart<Body>, limit: u64, thr: u64, count: u32) {
    obs_opts(limit, thr, 2);
    obs_count(count);
    let b = m.save().size_limit(limit).memory_threshold(thr).count_limit(count);
    let r = b.temp_with_prefix(crate::client::nondet_str());
    let n = match r {
        SaveResult::Full(ref e) => Some(e.fields_count()),
        SaveResult::Partial(ref p, _) => Some(p.entries.fields_count()),
        SaveResult::Error(_) => None,
    };
    obs_entries(&r, n);
}

#[inline(never)] pub fn obs_more(e: &mut Entries) {}
opaque! {
    nondet_entries() -> Entries;
}

/// More fields for entries which already hold some.
pub fn root_entries_more(m: &mut Multipart<Body>, limit: u64, thr: u64, count: u32) {
    obs_opts(limit, thr, 2);
    obs_count(count);
    let mut e = nondet_entries();
    obs_more(&mut e);
    let r = m.save().size_limit(limit).memory_threshold(thr).count_limit(count).with_entries(e);
    let n = match r {
        SaveResult::Full(ref e) => Some(e.fields_count()),
        SaveResult::Partial(ref p, _) => Some(p.entries.fields_count()),
        SaveResult::Error(_) => None,
    };
    obs_entries(&r, n);
}

/// The same without a limit on the number of fields.
pub fn root_entries_uncounted(m: &mut Multipart<Body>, limit: u64, thr: u64) {
    obs_opts(limit, thr, 2);
    let r = m.save().size_limit(limit).memory_threshold(thr).count_limit(None).temp();
    let n = match r {
        SaveResult::Full(ref e) => Some(e.fields_count()),
        SaveResult::Partial(ref p, _) => Some(p.entries.fields_count()),
        SaveResult::Error(_) => None,
    };
    obs_entries(&r, n);
}
