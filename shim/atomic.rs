// ---- shim/atomic.rs: atomics seen by one caller at a time (TRUSTED contracts of std::sync::atomic) ----
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
macro_rules! atomic { ($n:ident, $t:ident) => { verus!{
pub struct $n { pub v: $t }
impl $n {
    pub fn new(v: $t) -> (r: Self) ensures r.v == v { $n { v } }
    pub fn load(&self, o: Ordering) -> (r: $t) ensures r == self.v { self.v }
    pub fn store(&mut self, x: $t, o: Ordering) ensures final(self).v == x { self.v = x; }
    pub fn swap(&mut self, x: $t, o: Ordering) -> (r: $t) ensures r == old(self).v, final(self).v == x { let r = self.v; self.v = x; r }
    pub fn fetch_add(&mut self, x: $t, o: Ordering) -> (r: $t) ensures r == old(self).v, final(self).v as int == (if old(self).v + x > $t::MAX { old(self).v + x - $t::MAX - 1 } else { old(self).v + x }) { let r = self.v; self.v = self.v.wrapping_add(x); r }
    pub fn fetch_sub(&mut self, x: $t, o: Ordering) -> (r: $t) ensures r == old(self).v, final(self).v as int == (if old(self).v - x < 0 { old(self).v - x + $t::MAX + 1 } else { old(self).v - x }) { let r = self.v; self.v = self.v.wrapping_sub(x); r }
}
} } }
atomic!(AtomicU32, u32);
atomic!(AtomicU64, u64);
atomic!(AtomicUsize, usize);
pub struct AtomicBool { pub v: bool }
impl AtomicBool {
    pub fn new(v: bool) -> (r: Self) ensures r.v == v { AtomicBool { v } }
    pub fn load(&self, o: Ordering) -> (r: bool) ensures r == self.v { self.v }
    pub fn store(&mut self, x: bool, o: Ordering) ensures final(self).v == x { self.v = x; }
    pub fn swap(&mut self, x: bool, o: Ordering) -> (r: bool) ensures r == old(self).v, final(self).v == x { let r = self.v; self.v = x; r }
}
