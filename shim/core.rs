// ---- shim/core.rs: cloning, defaults, iterators over Vec (verified unless marked external_body) ----
/// TRUSTED: the derived/std Clone of every type used here yields an equal value.
pub trait VClone: Sized {
    fn v_clone(&self) -> (r: Self)
        ensures r == *self;
}
impl<T> VClone for T {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}
/// TRUSTED: == of every element type used here is equality of values.
pub assume_specification<T>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    where T: core::cmp::PartialEq
    ensures r == s@.contains(*x);
pub assume_specification<T, E>[core::result::Result::<T, E>::unwrap_or](r: core::result::Result<T, E>, d: T) -> (o: T)
    ensures o == (match r { Ok(x) => x, Err(_) => d });
/// `panic!`, `unreachable!`, ...: must be proved unreachable.
#[verifier::external_body]
pub fn v_unreachable<T>() -> (r: T)
    requires false
{ unimplemented!() }
/// `assert!`: must be proved to hold.
pub fn v_assert(b: bool)
    requires b
{ }

/// By-reference iteration over a Vec (verified).
pub struct VIt<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VIt<'a, T> {
    pub open spec fn seq(&self) -> Seq<T> { self.v@ }
    pub open spec fn pos(&self) -> int { self.i as int }
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures
            final(self).wf(),
            final(self).seq() == old(self).seq(),
            r is Some <==> old(self).pos() < old(self).seq().len(),
            r is Some ==> *r->0 == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    {
        if self.i < self.v.len() {
            let r = &self.v[self.i];
            self.i = self.i + 1;
            Some(r)
        } else { None }
    }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn v_skip(self, n: usize) -> (r: VInto<&'a T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, derefs(r.seq()) == (if n <= self.seq().len() { self.seq().subrange(n as int, self.seq().len() as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VInto<&'a T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, derefs(r.seq()) == (if n <= self.seq().len() { self.seq().subrange(0, n as int) } else { self.seq() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VInto<&'a T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, derefs(r.seq()) == self.seq().reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect_cloned(self) -> (r: Vec<T>)
        requires self.wf(), self.pos() == 0
        ensures r@ == self.seq()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect(self) -> (r: Vec<&'a T>)
        requires self.wf(), self.pos() == 0
        ensures derefs(r@) == self.seq()
    { unimplemented!() }
}
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
/// By-value iteration over a Vec.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VInto<T> { v: std::vec::IntoIter<T> }
impl<T> VInto<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures
            final(self).wf(),
            final(self).seq() == old(self).seq(),
            r is Some <==> old(self).pos() < old(self).seq().len(),
            r is Some ==> r->0 == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn v_skip(self, n: usize) -> (r: VInto<T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().subrange(n as int, self.seq().len() as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VInto<T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().subrange(0, n as int) } else { self.seq() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VInto<T>)
        requires self.wf(), self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.seq() == self.seq().reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect(self) -> (r: Vec<T>)
        requires self.wf(), self.pos() == 0
        ensures r@ == self.seq()
    { unimplemented!() }
}
impl<'a, T> VInto<&'a T> {
    #[verifier::external_body]
    pub fn v_collect_cloned(self) -> (r: Vec<T>)
        requires self.wf(), self.pos() == 0
        ensures r@ == derefs(self.seq())
    { unimplemented!() }
}
pub trait VecExt<T>: Sized {
    spec fn vx(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIt<'a, T>)
        ensures r.wf(), r.seq() == self.vx(), r.pos() == 0;
    fn v_into_iter(self) -> (r: VInto<T>)
        ensures r.wf(), r.seq() == self.vx(), r.pos() == 0;
    fn v_first<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r is Some <==> self.vx().len() > 0, r is Some ==> *r->0 == self.vx()[0];
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r is Some <==> self.vx().len() > 0, r is Some ==> *r->0 == self.vx().last();
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn vx(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: VIt<'a, T>) { VIt { v: self, i: 0 } }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VInto<T>) { unimplemented!() }
    fn v_first<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
}
/// `for x in r` where r is a reference to a Vec
pub trait VecRefExt<'a, T>: Sized {
    spec fn vxr(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIt<'a, T>)
        ensures r.wf(), r.seq() == self.vxr(), r.pos() == 0;
}
impl<'a, T> VecRefExt<'a, T> for &'a Vec<T> {
    open spec fn vxr(&self) -> Seq<T> { (*self)@ }
    fn v_into_iter(self) -> (r: VIt<'a, T>) { VIt { v: self, i: 0 } }
}
/// `Result::unwrap_or` (Option's is in vstd)
pub trait VResultExt<T>: Sized {
    spec fn okv(&self) -> Option<T>;
    fn v_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.okv() { Some(v) => v, None => d });
}
impl<T, E> VResultExt<T> for core::result::Result<T, E> {
    open spec fn okv(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } }
}
impl<T> VResultExt<T> for Option<T> {
    open spec fn okv(&self) -> Option<T> { *self }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
}
/// By-reference iteration over a slice (verified).
pub struct VSl<'a, T> { pub v: &'a [T], pub i: usize }
impl<'a, T> VSl<'a, T> {
    pub open spec fn seq(&self) -> Seq<T> { self.v@ }
    pub open spec fn pos(&self) -> int { self.i as int }
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures
            final(self).wf(),
            final(self).seq() == old(self).seq(),
            r is Some <==> old(self).pos() < old(self).seq().len(),
            r is Some ==> *r->0 == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    {
        if self.i < self.v.len() {
            let r = &self.v[self.i];
            self.i = self.i + 1;
            Some(r)
        } else { None }
    }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
}
/// `for x in r` where r is a slice
pub trait VSliceIt<'a, T>: Sized {
    spec fn vxs(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VSl<'a, T>)
        ensures r.wf(), r.seq() == self.vxs(), r.pos() == 0;
}
impl<'a, T> VSliceIt<'a, T> for &'a [T] {
    open spec fn vxs(&self) -> Seq<T> { (*self)@ }
    fn v_into_iter(self) -> (r: VSl<'a, T>) { VSl { v: self, i: 0 } }
}
pub trait SliceExt<T> {
    spec fn vs(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VSl<'a, T>)
        ensures r.wf(), r.seq() == self.vs(), r.pos() == 0;
}
impl<T> SliceExt<T> for [T] {
    open spec fn vs(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: VSl<'a, T>) { VSl { v: self, i: 0 } }
}
/// an Option, or a Result without its error (where the source does not show which)
pub trait VOpt<T>: Sized { spec fn as_opt(&self) -> Option<T>; fn v_opt(self) -> (r: Option<T>) ensures r == self.as_opt(); }
impl<T> VOpt<T> for Option<T> { open spec fn as_opt(&self) -> Option<T> { *self } fn v_opt(self) -> (r: Option<T>) { self } }
impl<T, E> VOpt<T> for core::result::Result<T, E> {
    open spec fn as_opt(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    fn v_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}
