// ---- shim/json.rs: serde_json::Value (TRUSTED contracts of serde_json) ----
//@type serde_json::Value = Value
//@type serde_json::Error = SerdeError
//@type serde::Serialize = Serialize
//@call serde_json::from_value = v_from_value
//@call serde_json::to_value = v_to_value
pub mod vshim_json {
use vstd::prelude::*;
use super::vshim_text::*;
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(JMap) }
#[verifier::external_body]
pub struct Number { x: u8 }
#[verifier::external_body]
pub struct JMap { x: u8 }
#[verifier::external_body]
pub struct SerdeError { x: u8 }
impl core::fmt::Debug for SerdeError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl View for JMap { type V = Map<Seq<u8>, Value>; uninterp spec fn view(&self) -> Map<Seq<u8>, Value>; }
pub uninterp spec fn jnum(n: int) -> Number;
pub uninterp spec fn jstr(s: Seq<u8>) -> String;
/// what serde's derive produces / accepts for a type whose shape does not matter here
pub uninterp spec fn ser_of<T>(x: T) -> Value;
pub uninterp spec fn de_of<T>(v: Value) -> Option<T>;
/// corners of decoding that stay unspecified (sequence forms of a struct, missing content)
pub uninterp spec fn de_other<T>(v: Value) -> Option<T>;
pub uninterp spec fn serde_text(e: SerdeError) -> Seq<u8>;
impl SerdeError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == serde_text(*self) { unimplemented!() } }
impl VDisp for SerdeError { open spec fn disp(&self) -> Seq<u8> { serde_text(*self) } }
pub open spec fn de<T: Deserialize>(v: Value) -> Option<T> { T::de(v) }
pub trait Serialize: Sized { spec fn ser(&self) -> Value; }
pub trait Deserialize: Sized { spec fn de(v: Value) -> Option<Self>; }
impl Serialize for Value { open spec fn ser(&self) -> Value { *self } }
impl<T: Serialize> Serialize for &T { open spec fn ser(&self) -> Value { (*self).ser() } }
impl Serialize for String { open spec fn ser(&self) -> Value { Value::String(jstr(self@)) } }
impl Serialize for bool { open spec fn ser(&self) -> Value { Value::Bool(*self) } }
impl Serialize for u64 { open spec fn ser(&self) -> Value { Value::Number(jnum(*self as int)) } }
impl Serialize for usize { open spec fn ser(&self) -> Value { Value::Number(jnum(*self as int)) } }
impl Serialize for i64 { open spec fn ser(&self) -> Value { Value::Number(jnum(*self as int)) } }
impl Serialize for i32 { open spec fn ser(&self) -> Value { Value::Number(jnum(*self as int)) } }
impl Serialize for u32 { open spec fn ser(&self) -> Value { Value::Number(jnum(*self as int)) } }
impl<T: Serialize> Serialize for Option<T> { open spec fn ser(&self) -> Value { match *self { Some(x) => x.ser(), None => Value::Null } } }
impl Deserialize for Value { open spec fn de(v: Value) -> Option<Value> { Some(v) } }
mod vjson {
use super::*;
use vstd::prelude::*;
#[verifier::external_body]
pub broadcast proof fn axiom_jstr(s: Seq<u8>) ensures (#[trigger] jstr(s))@ == s { }
pub broadcast group group_json { axiom_jstr }
}
pub use vjson::*;
impl JMap {
    #[verifier::external_body]
    pub fn new() -> (r: JMap) ensures r@ == Map::<Seq<u8>, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
impl Value {
    pub fn as_str(&self) -> (r: Option<&String>)
        ensures r is Some <==> self is String, r is Some ==> *r->0 == self->String_0
    { match self { Value::String(s) => Some(s), _ => None } }
    pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { match self { Value::Null => true, _ => false } }
    pub fn is_string(&self) -> (r: bool) ensures r == (self is String) { match self { Value::String(_) => true, _ => false } }
    pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { match self { Value::Object(_) => true, _ => false } }
    pub fn is_array(&self) -> (r: bool) ensures r == (self is Array) { match self { Value::Array(_) => true, _ => false } }
    pub fn is_number(&self) -> (r: bool) ensures r == (self is Number) { match self { Value::Number(_) => true, _ => false } }
    pub fn is_boolean(&self) -> (r: bool) ensures r == (self is Bool) { match self { Value::Bool(_) => true, _ => false } }
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { match self { Value::Bool(b) => Some(*b), _ => None } }
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures r is Some <==> self is Array, r is Some ==> *r->0 == self->Array_0
    { match self { Value::Array(s) => Some(s), _ => None } }
    pub fn as_object(&self) -> (r: Option<&JMap>)
        ensures r is Some <==> self is Object, r is Some ==> *r->0 == self->Object_0
    { match self { Value::Object(s) => Some(s), _ => None } }
    /// `v.get("key")`
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&Value>)
        ensures r is Some <==> self is Object && self->Object_0@.dom().contains(k@), r is Some ==> *r->0 == self->Object_0@[k@]
    { unimplemented!() }
}
impl JMap {
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&Value>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->0 == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<u8>, Value>::empty()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_to_json<T: Serialize>(x: &T) -> (r: Value) ensures r == x.ser() { unimplemented!() }
/// serializing the message types of this crate cannot fail (no maps with non-text keys, no fallible Serialize)
#[verifier::external_body]
pub fn v_to_value<T: Serialize>(x: T) -> (r: core::result::Result<Value, SerdeError>) ensures r is Ok && r->Ok_0 == x.ser() { unimplemented!() }
#[verifier::external_body]
pub fn v_from_value<T: Deserialize>(v: Value) -> (r: core::result::Result<T, SerdeError>)
    ensures match r { Ok(x) => T::de(v) == Some(x), Err(_) => T::de(v) is None }
{ unimplemented!() }
}
pub use vshim_json::*;
//@broadcast vshim_json::group_json
