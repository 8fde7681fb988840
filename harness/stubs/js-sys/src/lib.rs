//! Stand-in for js-sys: arrays and byte arrays with the reference semantics of JavaScript.
use std::cell::RefCell;
use std::iter::FromIterator;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Debug, Clone)]
pub struct Array(JsValue);
#[derive(Debug, Clone)]
pub struct Uint8Array(JsValue);

fn array(v: Vec<JsValue>) -> Array { Array(JsValue::Array(Rc::new(RefCell::new(v)))) }
fn bytes(v: Vec<u8>) -> Uint8Array { Uint8Array(JsValue::Bytes(Rc::new(RefCell::new(v)))) }

macro_rules! value { ($t:ident) => {
    impl Deref for $t { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
    impl AsRef<JsValue> for $t { fn as_ref(&self) -> &JsValue { &self.0 } }
    impl From<$t> for JsValue { fn from(a: $t) -> Self { a.0 } }
    impl From<&$t> for JsValue { fn from(a: &$t) -> Self { a.0.clone() } }
} }
value!(Array);
value!(Uint8Array);

impl Array {
    fn at(&self) -> &Rc<RefCell<Vec<JsValue>>> { match &self.0 { JsValue::Array(a) => a, _ => unreachable!() } }
    pub fn new() -> Array { array(vec![]) }
    pub fn new_with_length(n: u32) -> Array { array(vec![JsValue::Undefined; n as usize]) }
    pub fn of1(a: &JsValue) -> Array { array(vec![a.clone()]) }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array { array(vec![a.clone(), b.clone()]) }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array { array(vec![a.clone(), b.clone(), c.clone()]) }
    pub fn of4(a: &JsValue, b: &JsValue, c: &JsValue, d: &JsValue) -> Array { array(vec![a.clone(), b.clone(), c.clone(), d.clone()]) }
    pub fn push(&self, v: &JsValue) -> u32 { self.at().borrow_mut().push(v.clone()); self.length() }
    pub fn unshift(&self, v: &JsValue) -> u32 { self.at().borrow_mut().insert(0, v.clone()); self.length() }
    pub fn length(&self) -> u32 { self.at().borrow().len() as u32 }
    pub fn get(&self, i: u32) -> JsValue { self.at().borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined) }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.at().borrow_mut();
        while a.len() <= i as usize { a.push(JsValue::Undefined); }
        a[i as usize] = v;
    }
    pub fn concat(&self, o: &Array) -> Array { array(self.at().borrow().iter().chain(o.at().borrow().iter()).cloned().collect()) }
    pub fn to_vec(&self) -> Vec<JsValue> { self.at().borrow().clone() }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> { self.to_vec().into_iter() }
}
impl Default for Array { fn default() -> Array { Array::new() } }

impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(iter: T) -> Array { array(iter.into_iter().map(|v| v.as_ref().clone()).collect()) }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T) { for v in iter { self.push(v.as_ref()); } }
}

fn to_uint8(v: &JsValue) -> u8 {
    match v {
        JsValue::Number(n) if n.is_finite() => n.trunc().rem_euclid(256.0) as u8,
        _ => 0,
    }
}

impl Uint8Array {
    fn at(&self) -> &Rc<RefCell<Vec<u8>>> { match &self.0 { JsValue::Bytes(b) => b, _ => unreachable!() } }
    pub fn new(v: &JsValue) -> Uint8Array {
        bytes(match v {
            JsValue::Undefined | JsValue::Text(_) => vec![],
            JsValue::Number(n) => vec![0; *n as usize],
            JsValue::Array(a) => a.borrow().iter().map(to_uint8).collect(),
            JsValue::Bytes(b) => b.borrow().clone(),
        })
    }
    pub fn new_with_length(n: u32) -> Uint8Array { bytes(vec![0; n as usize]) }
    pub fn to_vec(&self) -> Vec<u8> { self.at().borrow().clone() }
    pub fn length(&self) -> u32 { self.at().borrow().len() as u32 }
    pub fn byte_length(&self) -> u32 { self.length() }
    pub fn get_index(&self, i: u32) -> u8 { self.at().borrow()[i as usize] }
    pub fn set_index(&self, i: u32, v: u8) { self.at().borrow_mut()[i as usize] = v }
    pub fn copy_from(&self, s: &[u8]) { self.at().borrow_mut().copy_from_slice(s) }
    pub fn copy_to(&self, s: &mut [u8]) { s.copy_from_slice(&self.at().borrow()) }
    pub fn set(&self, src: &JsValue, offset: u32) {
        let from = Uint8Array::new(src).to_vec();
        self.at().borrow_mut()[offset as usize..offset as usize + from.len()].copy_from_slice(&from);
    }
    pub fn fill(&self, v: u8, a: u32, b: u32) -> Uint8Array { self.at().borrow_mut()[a as usize..b as usize].fill(v); self.clone() }
    pub unsafe fn view(s: &[u8]) -> Uint8Array { Uint8Array::from(s) }
    pub fn slice(&self, a: u32, b: u32) -> Uint8Array { Uint8Array::from(&self.at().borrow()[a as usize..b as usize]) }
    pub fn subarray(&self, a: u32, b: u32) -> Uint8Array { self.slice(a, b) }
}

impl<'a> From<&'a [u8]> for Uint8Array {
    fn from(s: &'a [u8]) -> Uint8Array { bytes(s.to_vec()) }
}
