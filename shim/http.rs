// ---- shim/http.rs: the parts of http/axum the HTTP server uses (TRUSTED contracts) ----
//@type HeaderName = HeaderName
pub mod vshim_http {
use vstd::prelude::*;
use super::*;
#[verifier::external_body]
pub struct HeaderValue { x: u8 }
#[verifier::external_body]
pub struct ToStrError { x: u8 }
#[verifier::external_body]
pub struct BadHeader { x: u8 }
impl core::fmt::Debug for BadHeader { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// what may stand in a header as text: visible ASCII, space, tab
pub open spec fn hv_ok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 32 <= #[trigger] s[i] < 127 || s[i] == 9 }
impl HeaderValue {
    pub uninterp spec fn text(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: core::result::Result<&String, ToStrError>)
        ensures match self.text() { Some(t) => r is Ok && r->Ok_0@ == t && hv_ok(t), None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(s: &String) -> (r: Self) requires hv_ok(s@) ensures r.text() == Some(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: core::result::Result<HeaderValue, BadHeader>) ensures hv_ok(s@) ==> r is Ok && r->Ok_0.text() == Some(s@) { unimplemented!() }
}
/// `s.parse::<HeaderValue>()`
pub trait VParse { fn v_parse(&self) -> core::result::Result<HeaderValue, BadHeader>; }
impl VParse for String {
    #[verifier::external_body]
    fn v_parse(&self) -> (r: core::result::Result<HeaderValue, BadHeader>) ensures hv_ok(self@) ==> r is Ok && r->Ok_0.text() == Some(self@) { unimplemented!() }
}
/// header names compare without case
pub open spec fn low(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn lname(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| low(b)) }
pub enum HeaderName { ContentType, Accept, CacheControl, Connection }
pub open spec fn hname(h: HeaderName) -> Seq<u8> {
    match h { HeaderName::ContentType => S("content-type"), HeaderName::Accept => S("accept"), HeaderName::CacheControl => S("cache-control"), HeaderName::Connection => S("connection") }
}
pub trait VHdr { spec fn hdr(&self) -> Seq<u8>; }
impl VHdr for HeaderName { open spec fn hdr(&self) -> Seq<u8> { hname(*self) } }
impl VHdr for &String { open spec fn hdr(&self) -> Seq<u8> { lname(self@) } }
/// the first value under each name
#[verifier::external_body]
pub struct HeaderMap { x: u8 }
impl View for HeaderMap { type V = Map<Seq<u8>, HeaderValue>; uninterp spec fn view(&self) -> Map<Seq<u8>, HeaderValue>; }
impl HeaderMap {
    #[verifier::external_body]
    pub fn get<K: VHdr>(&self, k: K) -> (r: Option<&HeaderValue>)
        ensures match r { Some(v) => self@.contains_key(k.hdr()) && *v == self@[k.hdr()], None => !self@.contains_key(k.hdr()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<K: VHdr>(&self, k: K) -> (r: bool) ensures r == self@.contains_key(k.hdr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<K: VHdr>(&mut self, k: K, v: HeaderValue) -> (r: Option<HeaderValue>) ensures final(self)@ == old(self)@.insert(k.hdr(), v) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct StatusCode { pub code: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { code: 200 };
    pub const ACCEPTED: StatusCode = StatusCode { code: 202 };
    pub const NO_CONTENT: StatusCode = StatusCode { code: 204 };
    pub const BAD_REQUEST: StatusCode = StatusCode { code: 400 };
    pub const UNAUTHORIZED: StatusCode = StatusCode { code: 401 };
    pub const FORBIDDEN: StatusCode = StatusCode { code: 403 };
    pub const NOT_FOUND: StatusCode = StatusCode { code: 404 };
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode { code: 405 };
    pub const NOT_ACCEPTABLE: StatusCode = StatusCode { code: 406 };
    pub const CONFLICT: StatusCode = StatusCode { code: 409 };
    pub const UNSUPPORTED_MEDIA_TYPE: StatusCode = StatusCode { code: 415 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { code: 500 };
}
}
pub use vshim_http::*;
pub mod header {
use super::*;
pub const CONTENT_TYPE: HeaderName = HeaderName::ContentType;
pub const ACCEPT: HeaderName = HeaderName::Accept;
pub const CACHE_CONTROL: HeaderName = HeaderName::CacheControl;
pub const CONNECTION: HeaderName = HeaderName::Connection;
}
