// ---- shim/bytebuf.rs: byte buffers that grow ----
pub trait VExtend { spec fn xv(&self) -> Seq<u8>;
    fn v_extend_from_slice(&mut self, s: &[u8]) ensures final(self).xv() == old(self).xv() + s@; }
impl VExtend for Vec<u8> {
    open spec fn xv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_extend_from_slice(&mut self, s: &[u8]) { unimplemented!() } }
