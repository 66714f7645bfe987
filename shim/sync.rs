// ---- shim/sync.rs: locks seen by one caller at a time (R9: a guard is a reference into the protected value) ----
pub struct RwLock<T> { pub v: T }
pub type Mutex<T> = RwLock<T>;
impl<T> RwLock<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { RwLock { v } }
    pub fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn write(&mut self) -> (r: &mut T)
        ensures *r == old(self).v, *final(r) == final(self).v
    { &mut self.v }
    pub fn lock(&mut self) -> (r: &mut T)
        ensures *r == old(self).v, *final(r) == final(self).v
    { &mut self.v }
}
