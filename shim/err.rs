// ---- shim/err.rs: the crate's error type (src/error/mod.rs), extracted; payload types of dependencies are opaque ----
//@include json.rs
//@type anyhow::Error = AnyError
//@type tokio_tungstenite::tungstenite::Error = WsError
//@type std::io::Error = IoError
//@extract src/error/mod.rs struct:ErrorCode +derive=Copy,Clone,Structural,PartialEq,Eq
//@extract src/error/mod.rs enum:TransportError enum:Error
//@type Result<_> = VResult
pub type VResult<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub struct AnyError { x: u8 }
#[verifier::external_body]
pub struct WsError { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
/// `Display` of an error (thiserror): an unspecified text
pub uninterp spec fn err_text(e: Error) -> Seq<u8>;
impl Error {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == err_text(*self) { unimplemented!() }
}
