//! Stand-in for arrays of JavaScript. A clone is another handle to the same array.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Clone, Debug, Default)]
pub struct Array(Rc<RefCell<Vec<JsValue>>>);

impl Array {
    pub fn new() -> Array {
        Array::default()
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(Rc::new(RefCell::new(vec![JsValue::Undefined; n as usize])))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.borrow_mut().push(v.clone());
        self.length()
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.0.borrow_mut();
        if a.len() <= i as usize {
            a.resize(i as usize + 1, JsValue::Undefined);
        }
        a[i as usize] = v;
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
}

impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array {
        Array(Rc::new(RefCell::new(i.into_iter().map(|x| x.as_ref().clone()).collect())))
    }
}

impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        JsValue::Items(a.0.borrow().clone())
    }
}

impl From<&Array> for JsValue {
    fn from(a: &Array) -> JsValue {
        JsValue::Items(a.0.borrow().clone())
    }
}

#[derive(Clone, Debug)]
pub struct Uint8Array(Rc<RefCell<Vec<u8>>>);

/// The conversion of a number to an unsigned byte.
fn byte(v: &JsValue) -> u8 {
    match v {
        JsValue::Number(x) if x.is_finite() => x.trunc().rem_euclid(256.0) as u8,
        _ => 0,
    }
}

impl Uint8Array {
    fn of(v: Vec<u8>) -> Uint8Array {
        Uint8Array(Rc::new(RefCell::new(v)))
    }
    pub fn new(v: &JsValue) -> Uint8Array {
        Uint8Array::of(match v {
            JsValue::Number(x) => vec![0; *x as usize],
            JsValue::Items(a) => a.iter().map(byte).collect(),
            JsValue::Bytes(b) => b.clone(),
            JsValue::Undefined => vec![],
        })
    }
    pub fn new_with_length(n: u32) -> Uint8Array {
        Uint8Array::of(vec![0; n as usize])
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.length()
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.0.borrow()[i as usize]
    }
    pub fn set_index(&self, i: u32, x: u8) {
        self.0.borrow_mut()[i as usize] = x;
    }
    pub fn copy_from(&self, s: &[u8]) {
        assert_eq!(self.length() as usize, s.len());
        self.0.borrow_mut().copy_from_slice(s);
    }
    pub fn copy_to(&self, s: &mut [u8]) {
        assert_eq!(self.length() as usize, s.len());
        s.copy_from_slice(&self.0.borrow());
    }
    pub fn subarray(&self, a: u32, b: u32) -> Uint8Array {
        Uint8Array::of(self.0.borrow()[a as usize..b as usize].to_vec())
    }
    pub fn slice(&self, a: u32, b: u32) -> Uint8Array {
        self.subarray(a, b)
    }
    pub fn fill(&self, x: u8, a: u32, b: u32) -> Uint8Array {
        for i in a..b {
            self.set_index(i, x);
        }
        self.clone()
    }
}

impl From<&[u8]> for Uint8Array {
    fn from(s: &[u8]) -> Uint8Array {
        Uint8Array::of(s.to_vec())
    }
}

impl From<Uint8Array> for JsValue {
    fn from(a: Uint8Array) -> JsValue {
        JsValue::Bytes(a.to_vec())
    }
}
