//! The wire format, written down independently of the implementation (from the book's wire-format
//! chapter and the public documentation), as the oracle for layout properties.

use std::collections::{HashMap, HashSet};

/// Shortest base-128 little-endian groups.
pub fn varint(mut v: u128, out: &mut Vec<u8>) {
    loop {
        let low = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(low);
            return;
        }
        out.push(low + 128);
    }
}

/// 0, -1, 1, -2, 2, ... -> 0, 1, 2, 3, 4, ...
pub fn zigzag(v: i128) -> u128 {
    if v >= 0 { (v as u128) * 2 } else { ((-(v + 1)) as u128) * 2 + 1 }
}

/// Index of the byte that ends the varint at the start of `b`, if it ends within `max` bytes.
pub fn varint_end(b: &[u8], max: usize) -> Option<usize> {
    let mut i = 0;
    while i < b.len() && i < max {
        if b[i] < 128 {
            return Some(i + 1);
        }
        i += 1;
    }
    None
}

/// The number `n` groups denote, unless it needs more than `bits` bits.
pub fn varint_value(b: &[u8], bits: u32) -> Option<u128> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        let g = (x % 128) as u128;
        let at = 7 * i as u32;
        let room = if at >= bits { 0 } else { bits - at };
        if room < 7 && (g >> room) != 0 {
            return None;
        }
        if at < 128 {
            v |= g << at;
        }
    }
    Some(v)
}

/// Length prefix, then the bytes.
pub fn prefixed(b: &[u8], out: &mut Vec<u8>) {
    varint(b.len() as u128, out);
    out.extend_from_slice(b);
}

pub trait Wire {
    fn wire(&self, out: &mut Vec<u8>);
    fn to_wire(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.wire(&mut v);
        v
    }
}

macro_rules! uint {
    ($($t:ty),*) => {$(impl Wire for $t { fn wire(&self, out: &mut Vec<u8>) { varint(*self as u128, out) } })*};
}
macro_rules! sint {
    ($($t:ty),*) => {$(impl Wire for $t { fn wire(&self, out: &mut Vec<u8>) { varint(zigzag(*self as i128), out) } })*};
}
uint!(u16, u32, u64, u128);
sint!(i16, i32, i64, i128);

impl Wire for bool {
    fn wire(&self, out: &mut Vec<u8>) {
        out.push(if *self { 1 } else { 0 });
    }
}
impl Wire for u8 {
    fn wire(&self, out: &mut Vec<u8>) {
        out.push(*self);
    }
}
impl Wire for i8 {
    fn wire(&self, out: &mut Vec<u8>) {
        out.push(self.to_be_bytes()[0]);
    }
}
impl Wire for f32 {
    fn wire(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_be_bytes());
    }
}
impl Wire for f64 {
    fn wire(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_be_bytes());
    }
}
impl Wire for str {
    fn wire(&self, out: &mut Vec<u8>) {
        prefixed(self.as_bytes(), out);
    }
}
impl Wire for String {
    fn wire(&self, out: &mut Vec<u8>) {
        self[..].wire(out);
    }
}
impl Wire for Box<str> {
    fn wire(&self, out: &mut Vec<u8>) {
        self[..].wire(out);
    }
}
impl Wire for Box<[u8]> {
    fn wire(&self, out: &mut Vec<u8>) {
        prefixed(self, out);
    }
}
impl<T: Wire> Wire for [T] {
    fn wire(&self, out: &mut Vec<u8>) {
        let mut b = Vec::new();
        for x in self {
            x.wire(&mut b);
        }
        prefixed(&b, out);
    }
}
impl<T: Wire> Wire for Vec<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        self[..].wire(out);
    }
}
impl<T: Wire> Wire for &[T] {
    fn wire(&self, out: &mut Vec<u8>) {
        (**self).wire(out);
    }
}
impl<T: Wire, const N: usize> Wire for [T; N] {
    fn wire(&self, out: &mut Vec<u8>) {
        self[..].wire(out);
    }
}
impl<T: Wire> Wire for HashSet<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        let mut b = Vec::new();
        for x in self {
            x.wire(&mut b);
        }
        prefixed(&b, out);
    }
}
impl<K: Wire, T: Wire> Wire for HashMap<K, T> {
    fn wire(&self, out: &mut Vec<u8>) {
        let mut b = Vec::new();
        for (k, v) in self {
            k.wire(&mut b);
            v.wire(&mut b);
        }
        prefixed(&b, out);
    }
}
impl<T: Wire> Wire for Option<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        match self {
            None => out.push(0),
            Some(x) => {
                out.push(1);
                x.wire(out);
            }
        }
    }
}
impl<T: Wire> Wire for std::rc::Rc<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        (**self).wire(out);
    }
}
impl<T: Wire> Wire for std::sync::Arc<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        (**self).wire(out);
    }
}
impl<T: Wire + Clone> Wire for std::borrow::Cow<'_, T> {
    fn wire(&self, out: &mut Vec<u8>) {
        (**self).wire(out);
    }
}

/// How a type is written as a field: its marker, and whether it may be absent.
pub trait Mark: Wire {
    const MARK: u32;
    const OPTIONAL: bool = false;
    /// The bytes of the length in front of a tuple.
    fn slack(&self) -> usize {
        0
    }
    /// The value directly below the key.
    fn root(&self, out: &mut Vec<u8>) {
        self.wire(out)
    }
    fn field(&self, id: u32, out: &mut Vec<u8>) {
        varint((id as u128) * 8 + Self::MARK as u128, out);
        self.root(out);
    }
}
macro_rules! mark {
    ($m:literal: $($t:ty),*) => {$(impl Mark for $t { const MARK: u32 = $m; })*};
}
use std::num::*;
mark!(0: u16, u32, u64, u128, i16, i32, i64, i128);
mark!(0: NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128);
mark!(1: String, Box<str>, Box<[u8]>);
mark!(2: bool, u8, i8, NonZeroU8, NonZeroI8);
mark!(3: f32);
mark!(4: f64);
impl<T: Wire> Mark for Vec<T> {
    const MARK: u32 = 1;
}
impl<T: Wire> Mark for HashSet<T> {
    const MARK: u32 = 1;
}
impl<K: Wire, T: Wire> Mark for HashMap<K, T> {
    const MARK: u32 = 1;
}
impl<T: Wire, const N: usize> Mark for [T; N] {
    const MARK: u32 = 1;
}
/// Absent options take no bytes; an option inside another is a value of its own.
impl<T: Mark> Mark for Option<T> {
    const MARK: u32 = 1;
    const OPTIONAL: bool = true;
    fn slack(&self) -> usize {
        self.as_ref().map_or(0, |x| x.slack())
    }
    fn field(&self, id: u32, out: &mut Vec<u8>) {
        if let Some(x) = self {
            varint((id as u128) * 8 + T::MARK as u128, out);
            x.root(out);
        }
    }
}
/// A tuple is its elements in order; as a field it has a byte length in front.
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Wire),*> Wire for ($($t,)*) {
            fn wire(&self, out: &mut Vec<u8>) { $(self.$i.wire(out);)* }
        }
        impl<$($t: Wire),*> Mark for ($($t,)*) {
            const MARK: u32 = 1;
            fn root(&self, out: &mut Vec<u8>) { prefixed(&self.to_wire(), out) }
            fn slack(&self) -> usize {
                let mut b = Vec::new();
                varint(self.to_wire().len() as u128, &mut b);
                b.len()
            }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);

/// One field as it is on the wire, or absent.
pub struct Part {
    pub id: u32,
    pub name: Option<&'static str>,
    pub optional: bool,
    pub slack: usize,
    pub bytes: Vec<u8>,
}
/// A struct or an enum value.
pub struct Parts {
    pub variant: Option<u32>,
    pub fields: Vec<Part>,
    /// Whether a zero byte ends the fields: not for unit structs and variants.
    pub ended: bool,
}
impl Parts {
    pub fn wire(&self, out: &mut Vec<u8>) {
        if let Some(v) = self.variant {
            varint(v as u128, out);
        }
        for f in &self.fields {
            out.extend_from_slice(&f.bytes);
        }
        if self.ended {
            out.push(0);
        }
    }
}
pub trait Composite {
    fn parts(&self) -> Parts;
    fn variants() -> &'static [u32];
    /// The fields have the types of the schema.
    fn typed(&self) -> bool;
}
