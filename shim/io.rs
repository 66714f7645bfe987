// ---- shim/io.rs: byte streams (TRUSTED contracts of tokio's AsyncBufRead/AsyncWrite; include after err.rs) ----
pub mod io {
    use super::*;
    pub enum ErrorKind { UnexpectedEof, InvalidData, BrokenPipe, Other }
    impl IoError {
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> (r: IoError) { unimplemented!() }
    }
}
/// `Display` of an I/O error
pub uninterp spec fn io_text(e: IoError) -> Seq<u8>;
impl IoError {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == io_text(*self) { unimplemented!() }
}
impl VDisp for IoError { open spec fn disp(&self) -> Seq<u8> { io_text(*self) } }
/// the error conversions made by `?`
pub trait VErr: Sized { spec fn as_err(&self) -> Error; fn v_err(self) -> (r: Error) ensures r == self.as_err(); }
impl VErr for Error { open spec fn as_err(&self) -> Error { *self } fn v_err(self) -> (r: Error) { self } }
impl VErr for TransportError { open spec fn as_err(&self) -> Error { Error::Transport(*self) } fn v_err(self) -> (r: Error) { Error::Transport(self) } }
/// `#[from]` of thiserror
impl vstd::std_specs::convert::FromSpecImpl<TransportError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TransportError) -> Error { Error::Transport(v) }
}
impl From<TransportError> for Error { fn from(v: TransportError) -> (r: Error) { Error::Transport(v) } }
/// the length of the first line, its line feed included
pub open spec fn line_len(s: Seq<u8>) -> int { match index_of(s, 10) { Some(i) => i + 1, None => s.len() as int } }
#[verifier::external_body]
pub struct Stdin { x: u8 }
/// A buffered reader: the bytes it will still deliver before the end of the input, and whether reading has failed.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufReader<T> { x: core::marker::PhantomData<T> }
impl<T> BufReader<T> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    /// the input broke (or was not text where text is read)
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body]
    pub fn read_line(&mut self, line: &mut String) -> (r: core::result::Result<usize, IoError>)
        ensures match r {
            Ok(n) => n == line_len(old(self).rest()) && final(self).rest() == old(self).rest().subrange(n as int, old(self).rest().len() as int)
                && final(line)@ == old(line)@ + old(self).rest().subrange(0, n as int) && final(self).broken() == old(self).broken(),
            Err(_) => final(self).broken(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
        ensures final(b)@.len() == old(b)@.len(), match r {
            Ok(n) => n == old(b)@.len() && n <= old(self).rest().len() && final(self).rest() == old(self).rest().subrange(n as int, old(self).rest().len() as int)
                && final(b)@ == old(self).rest().subrange(0, n as int) && final(self).broken() == old(self).broken(),
            Err(_) => final(self).broken() || final(self).rest().len() == 0 && old(self).rest().len() < old(b)@.len(),
        }
    { unimplemented!() }
    /// `self.take(n).read_to_end(b)`: at most n bytes, fewer only at the end of the input
    #[verifier::external_body]
    pub fn v_take_to_end(&mut self, n: u64, b: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
        ensures match r {
            Ok(k) => k == (if n <= old(self).rest().len() { n as int } else { old(self).rest().len() as int }) && final(self).rest() == old(self).rest().subrange(k as int, old(self).rest().len() as int)
                && final(b)@ == old(b)@ + old(self).rest().subrange(0, k as int) && final(self).broken() == old(self).broken(),
            Err(_) => final(self).broken(),
        }
    { unimplemented!() }
}
/// `vec![0u8; n]` panics when n exceeds isize::MAX
#[verifier::external_body]
pub fn v_vec_repeat(x: u8, n: usize) -> (r: Vec<u8>)
    requires n <= isize::MAX
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ unimplemented!() }
/// the output: everything written, and whether all of it has been flushed
#[verifier::external_body]
pub struct Stdout { x: u8 }
impl Stdout {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn flushed(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), IoError>)
        ensures match r {
            Ok(_) => final(self).out() == old(self).out() + b@,
            Err(_) => is_prefix(old(self).out(), final(self).out()) && is_prefix(final(self).out(), old(self).out() + b@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: core::result::Result<(), IoError>)
        ensures final(self).out() == old(self).out(), r is Ok ==> final(self).flushed()
    { unimplemented!() }
}
impl VDisp for Error { open spec fn disp(&self) -> Seq<u8> { err_text(*self) } }
