// ---- shim/mem.rs: std::mem::take of a vector (TRUSTED contract of std) ----
//@call std::mem::take = v_mem_take
//@call mem::take = v_mem_take
#[verifier::external_body]
pub fn v_mem_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
