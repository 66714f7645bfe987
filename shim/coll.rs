// ---- shim/coll.rs: HashMap / HashSet / VecDeque as mathematical maps, sets and sequences (TRUSTED contracts of std) ----
pub mod vshim_coll {
use vstd::prelude::*;
use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::external_body]
pub broadcast proof fn axiom_map_finite<K, V>(m: HashMap<K, V>)
    ensures (#[trigger] m@).dom().len() <= isize::MAX
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_map_ext<K, V>(a: HashMap<K, V>, b: HashMap<K, V>)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
/// s lists every entry of m exactly once
pub open spec fn lists<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub open spec fn lists_k<K, V>(s: Seq<&K>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
}
pub open spec fn lists_o<K, V>(s: Seq<K>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
}
/// s lists every entry (owned) of m exactly once
pub open spec fn lists_kv<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// s lists the value of every key exactly once (`ks` names the keys in the same order)
pub open spec fn lists_v<K, V>(s: Seq<&V>, ks: Seq<K>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len() && ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == *s[i]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] ks[i] == k
}
/// `for x in table` where `table` is a reference
pub trait VRefIter<'a, K, V> { fn v_into_iter(self) -> (r: VInto<(&'a K, &'a V)>) where Self: Sized; }
impl<'a, K, V> VRefIter<'a, K, V> for &'a HashMap<K, V> {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VInto<(&'a K, &'a V)>) ensures r.wf(), r.pos() == 0, lists(r.seq(), self@) { unimplemented!() }
}
/// `for x in set` where `set` is a reference
pub trait VRefSetIter<'a, K> { fn v_into_iter(self) -> (r: VInto<&'a K>) where Self: Sized; }
impl<'a, K> VRefSetIter<'a, K> for &'a HashSet<K> {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VInto<&'a K>) ensures r.wf(), r.pos() == 0, lists_s(r.seq(), self@) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VInto<(&K, &V)>) ensures r.wf(), r.pos() == 0, lists(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: VInto<(K, V)>) ensures r.wf(), r.pos() == 0, lists_kv(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain(&mut self) -> (r: VInto<(K, V)>) ensures r.wf(), r.pos() == 0, lists_kv(r.seq(), old(self)@), final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: VInto<&K>) ensures r.wf(), r.pos() == 0, lists_k(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: VInto<&V>) ensures r.wf(), r.pos() == 0, exists|ks: Seq<K>| lists_v(r.seq(), ks, self@) { unimplemented!() }
    /// the keys, each once, in the map's iteration order
    #[verifier::external_body]
    pub fn v_key_list(&self) -> (r: Vec<K>) ensures lists_o(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_mut(&mut self, k: &K) -> (r: &mut V)
        requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r))
    { unimplemented!() }
    /// `entry(k).or_insert(d)` and its variants
    #[verifier::external_body]
    pub fn v_entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K, v: V| #[trigger] f.requires((&k, &v)),
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k]
                && f.ensures((&k, &old(self)@[k]), true),
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> final(self)@.contains_key(k) || f.ensures((&k, &old(self)@[k]), false),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
#[verifier::external_body]
pub broadcast proof fn axiom_set_finite<K>(m: HashSet<K>)
    ensures (#[trigger] m@).len() <= isize::MAX
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_set_ext<K>(a: HashSet<K>, b: HashSet<K>)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
pub open spec fn lists_s<K>(s: Seq<&K>, m: Set<K>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
    &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
}
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VInto<&K>) ensures r.wf(), r.pos() == 0, lists_s(r.seq(), self@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { k: core::marker::PhantomData<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub broadcast proof fn axiom_deque_ext<T>(a: VecDeque<T>, b: VecDeque<T>)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_deque_len<T>(a: VecDeque<T>)
    ensures (#[trigger] a@).len() <= isize::MAX
{ }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VInto<&T>) ensures r.wf(), r.pos() == 0, derefs(r.seq()) == self@ { unimplemented!() }
}
// broadcast lemmas on sets live in a module of their own (Verus forbids self-reference)
mod vsets {
use vstd::prelude::*;
pub broadcast proof fn lemma_map_insert_key<K, V>(m: Map<K, V>, k: K, v: V, u: K)
    ensures #[trigger] m.insert(k, v).contains_key(u) == (u == k || m.contains_key(u))
{ }
pub broadcast proof fn lemma_map_remove_key<K, V>(m: Map<K, V>, k: K, u: K)
    ensures #[trigger] m.remove(k).contains_key(u) == (u != k && m.contains_key(u))
{ }
pub broadcast proof fn lemma_map_insert_index<K, V>(m: Map<K, V>, k: K, v: V, u: K)
    requires u == k || m.contains_key(u)
    ensures #[trigger] m.insert(k, v)[u] == (if u == k { v } else { m[u] })
{ }
pub broadcast proof fn lemma_set_len0<A>(s: Set<A>)
    ensures (#[trigger] s.len() == 0) <==> s == Set::<A>::empty()
{ if s.len() == 0 { assert(s =~= Set::<A>::empty()); } }
pub broadcast proof fn lemma_set_has<A>(s: Set<A>, x: A)
    requires #[trigger] s.contains(x)
    ensures s != Set::<A>::empty(), s.len() > 0
{ if s.len() == 0 { assert(s =~= Set::<A>::empty()); } }
pub broadcast proof fn lemma_set_insert<A>(s: Set<A>, x: A)
    ensures (#[trigger] s.insert(x)) != Set::<A>::empty()
{ assert(s.insert(x).contains(x)); }
pub broadcast proof fn lemma_set_some<A>(s: Set<A>)
    ensures s.len() > 0 ==> s.contains(#[trigger] s.choose())
{ }
}
pub use vsets::*;
pub proof fn lemma_push_contains<A>(s: Seq<A>, x: A)
    ensures forall|y: A| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x)
{
    assert forall|y: A| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
    }
}
pub proof fn lemma_lists_s<K>(s: Seq<&K>, m: Set<K>)
    requires lists_s(s, m)
    ensures derefs(s).no_duplicates(), forall|k: K| #[trigger] derefs(s).contains(k) == m.contains(k), derefs(s).len() == m.len()
{
    let d = derefs(s);
    assert forall|k: K| #[trigger] d.contains(k) == m.contains(k) by {
        if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(m.contains(*s[i])); }
        if m.contains(k) { let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k; assert(d[i] == k); }
    }
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(*s[i] != *s[j]); }
}
pub proof fn lemma_some<A>(s: Set<A>)
    requires s != Set::<A>::empty()
    ensures exists|x: A| s.contains(x)
{ if forall|x: A| !s.contains(x) { assert(s =~= Set::<A>::empty()); } }
pub broadcast group group_coll { lemma_map_insert_key, lemma_map_remove_key, lemma_map_insert_index, lemma_set_len0, lemma_set_has, lemma_set_insert, axiom_map_finite, axiom_map_ext, axiom_set_finite, axiom_set_ext, axiom_deque_ext, axiom_deque_len }
// ---- Vec operations beyond vstd's
pub trait VecExt2<T>: Sized {
    spec fn vy(&self) -> Seq<T>;
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|x: T| #[trigger] f.requires((&x,)),
            forall|x: T, a: bool, b: bool| f.ensures((&x,), a) && f.ensures((&x,), b) ==> a == b,
        ensures final(self).vy() == old(self).vy().filter(|x: T| f.ensures((&x,), true));
    fn v_extend(&mut self, o: Vec<T>)
        ensures final(self).vy() == old(self).vy() + o@;
    fn v_drain_all(&mut self) -> (r: Vec<T>)
        ensures r@ == old(self).vy(), final(self).vy() == Seq::<T>::empty();
}
impl<T> VecExt2<T> for Vec<T> {
    open spec fn vy(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn v_extend(&mut self, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_drain_all(&mut self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VOptCloned<T> { fn v_cloned(self) -> (r: Option<T>); fn v_copied(self) -> (r: Option<T>); }
impl<'a, T> VOptCloned<T> for Option<&'a T> {
    fn v_cloned(self) -> (r: Option<T>) ensures r == (match self { Some(x) => Some(*x), None => None }) { match self { Some(x) => Some(x.v_clone()), None => None } }
    fn v_copied(self) -> (r: Option<T>) ensures r == (match self { Some(x) => Some(*x), None => None }) { match self { Some(x) => Some(x.v_clone()), None => None } }
}
/// Default::default()
pub trait VDefault: Sized {
    spec fn is_default(&self) -> bool;
    fn v_default() -> (r: Self) ensures r.is_default();
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() }
    fn v_default() -> (r: Self) { Vec::new() }
}
impl<K, V> VDefault for HashMap<K, V> {
    open spec fn is_default(&self) -> bool { self@ == Map::<K, V>::empty() }
    fn v_default() -> (r: Self) { HashMap::new() }
}
impl<K> VDefault for HashSet<K> {
    open spec fn is_default(&self) -> bool { self@ == Set::<K>::empty() }
    fn v_default() -> (r: Self) { HashSet::new() }
}
impl<T> VDefault for VecDeque<T> {
    open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() }
    fn v_default() -> (r: Self) { VecDeque::new() }
}
impl VDefault for String {
    open spec fn is_default(&self) -> bool { self@ == Seq::<u8>::empty() }
    fn v_default() -> (r: Self) { String::new() }
}
impl VDefault for bool {
    open spec fn is_default(&self) -> bool { *self == false }
    fn v_default() -> (r: Self) { false }
}
impl VDefault for u32 {
    open spec fn is_default(&self) -> bool { *self == 0 }
    fn v_default() -> (r: Self) { 0 }
}
impl VDefault for u64 {
    open spec fn is_default(&self) -> bool { *self == 0 }
    fn v_default() -> (r: Self) { 0 }
}
impl VDefault for usize {
    open spec fn is_default(&self) -> bool { *self == 0 }
    fn v_default() -> (r: Self) { 0 }
}
impl<T> VDefault for Option<T> {
    open spec fn is_default(&self) -> bool { *self is None }
    fn v_default() -> (r: Self) { None }
}
pub fn v_default<T: VDefault>() -> (r: T) ensures r.is_default() { T::v_default() }
}
pub use vshim_coll::*;
//@broadcast vshim_coll::group_coll
