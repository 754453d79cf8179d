//! Entry points for the framework integrations: which requests are taken for
//! multipart requests, with which boundary, and what the hyper client sends.
use crate::*;

// the harness never looks at `m`: the marker records the parts a verdict depends on
#[inline(never)] pub fn obs_gate<M>(method: &M, got: Option<&str>) {}
#[inline(never)] pub fn obs_apply(method: &::hyper::method::Method, boundary: &str, len: Option<u64>, ret: bool) {}
#[inline(never)] pub fn obs_mime(boundary: &str, m: &::hyper::header::ContentType) {}
#[inline(never)] pub fn obs_multi<R>(m: &Multipart<R>) {}
#[inline(never)] pub fn obs_refused(q: Q) {}

opaque! {
    ext_boundary(q: &Q) -> Option<&'static str>;
}

pub fn root_gate_hyper(req: ::hyper::server::Request) {
    obs_gate(&req.method, multipart::server::HttpRequest::multipart_boundary(&req));
}
pub fn root_gate_hyper_mut(req: &mut ::hyper::server::Request) {
    obs_gate(&req.method, multipart::server::HttpRequest::multipart_boundary(&req));
}
pub fn root_gate_iron(req: &mut ::iron::Request) {
    obs_gate(&req.method, multipart::server::HttpRequest::multipart_boundary(&req));
}
pub fn root_gate_nickel(req: &mut ::nickel::Request<()>) {
    let req = multipart::server::nickel::Maybe(req);
    obs_gate(&req.0.origin.method, multipart::server::HttpRequest::multipart_boundary(&req));
}
pub fn root_gate_tiny(req: &mut ::tiny_http::Request) {
    let r = &mut *req;
    obs_gate(r.method(), multipart::server::HttpRequest::multipart_boundary(&r));
}

/// A request of some framework.
pub struct Q(u8);
impl multipart::server::HttpRequest for Q {
    type Body = Body;
    fn multipart_boundary(&self) -> Option<&str> { ext_boundary(self) }
    fn body(self) -> Body { Body(0) }
}
pub fn root_gate_from_request(q: Q) {
    match Multipart::from_request(q) {
        Ok(m) => obs_multi(&m),
        Err(q) => obs_refused(q),
    }
}

pub fn root_gate_apply(req: &mut ::hyper::client::request::Request<::hyper::net::Fresh>, boundary: &str, len: Option<u64>) {
    let method = req.method();
    let ret = multipart::client::HttpRequest::apply_headers(req, boundary, len);
    obs_apply(&method, boundary, len, ret);
}
pub fn root_gate_content_type(boundary: &str) {
    obs_mime(boundary, &multipart::client::hyper::content_type(boundary));
}

#[inline(never)] pub fn obs_before(i: &multipart::server::iron::Intercept, r: ::iron::IronResult<()>) {}
pub fn root_intercept(i: &multipart::server::iron::Intercept, req: &mut ::iron::Request) {
    let r = ::iron::BeforeMiddleware::before(i, req);
    obs_before(i, r);
}

#[inline(never)] pub fn obs_same(what: &str, a: u64, b: u64) {}
#[inline(never)] pub fn obs_true(what: &str, b: bool) {}
#[inline(never)] pub fn obs_path(p: &Option<std::path::PathBuf>, want: &str) {}
pub fn root_gate_icfg(i: multipart::server::iron::Intercept, path: &str, a: u64, b: u32) {
    use multipart::server::iron::{Intercept, LimitBehavior, DEFAULT_FILE_SIZE_LIMIT, DEFAULT_FILE_COUNT_LIMIT};
    let (s, c) = (i.file_size_limit, i.file_count_limit as u64);
    let i = i.temp_dir_path(path);
    obs_path(&i.temp_dir_path, path);
    obs_same("temp_dir_path keeps file_size_limit", i.file_size_limit, s);
    obs_same("temp_dir_path keeps file_count_limit", i.file_count_limit as u64, c);
    let i = i.file_size_limit(a);
    obs_path(&i.temp_dir_path, path);
    obs_same("file_size_limit sets the limit", i.file_size_limit, a);
    obs_same("file_size_limit keeps file_count_limit", i.file_count_limit as u64, c);
    let i = i.file_count_limit(b);
    obs_path(&i.temp_dir_path, path);
    obs_same("file_count_limit keeps file_size_limit", i.file_size_limit, a);
    obs_same("file_count_limit sets the limit", i.file_count_limit as u64, b as u64);
    let i = i.limit_behavior(LimitBehavior::Continue);
    obs_path(&i.temp_dir_path, path);
    obs_same("limit_behavior keeps file_size_limit", i.file_size_limit, a);
    obs_same("limit_behavior keeps file_count_limit", i.file_count_limit as u64, b as u64);
    obs_true("limit_behavior sets Continue", match i.limit_behavior { LimitBehavior::Continue => true, _ => false });
    let i = i.limit_behavior(LimitBehavior::ThrowError);
    obs_true("limit_behavior sets ThrowError", match i.limit_behavior { LimitBehavior::ThrowError => true, _ => false });
    let d = Intercept::default();
    obs_same("default file_size_limit", d.file_size_limit, DEFAULT_FILE_SIZE_LIMIT);
    obs_same("default file_count_limit", d.file_count_limit as u64, DEFAULT_FILE_COUNT_LIMIT as u64);
    obs_true("default temp_dir_path", d.temp_dir_path.is_none());
    obs_true("default limit_behavior", match d.limit_behavior { LimitBehavior::ThrowError => true, _ => false });
}
