// ---- shim/dash.rs: dashmap seen by one caller at a time; guards are references into the map ----
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct DashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for DashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub struct DashEntry<'a, K, V> { pub k: &'a K, pub v: &'a V }
impl<'a, K, V> DashEntry<'a, K, V> {
    pub fn key(&self) -> (r: &K) ensures *r == *self.k { self.k }
    pub fn value(&self) -> (r: &V) ensures *r == *self.v { self.v }
}
pub open spec fn dash_lists<K, V>(s: Seq<DashEntry<K, V>>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).k) && m[*s[i].k] == *s[i].v
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).k != *(#[trigger] s[j]).k
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).k == k
}
impl<K, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key(*k),
            r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VInto<DashEntry<K, V>>) ensures r.wf(), r.pos() == 0, dash_lists(r.seq(), self@) { unimplemented!() }
}
