// ---- shim/uuid.rs: random identifiers (TRUSTED: a new identifier is one never issued before; `issued` is the ghost record) ----
#[verifier::external_body]
pub struct Uuid { x: u8 }
/// the canonical text form: 8-4-4-4-12 ASCII characters, dashes between the groups and nowhere else
pub open spec fn canonical(s: Seq<u8>) -> bool {
    s.len() == 36 && forall|i: int| 0 <= i < 36 ==> #[trigger] s[i] < 128 && (s[i] == 45 <==> i == 8 || i == 13 || i == 18 || i == 23)
}
impl Uuid {
    /// freshly drawn at random
    pub uninterp spec fn random(&self) -> bool;
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_v4() -> (r: Uuid) ensures r.random() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text(), canonical(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(&self) -> u128 { unimplemented!() }
}
