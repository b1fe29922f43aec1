//! `schemas/*.mabo`, again.
use crate::spec::*;
use bytes::Bytes;
use mabo::NonZero;
use std::collections::{HashMap, HashSet};
use std::num::*;

macro_rules! corpus {
    ($m:ident, $o:ident, $bytes:ty) => {
        structs! {
            [] $m::Named { a: u32 = 1, b: bool = 2 }
            [] $m::Small { a: bool = 1, b: u8 = 2, c: i8 = 3, d: u16 = 4, e: i16 = 5 }
            [] $m::Large { a: u32 = 1, b: i32 = 2, c: u64 = 3, d: i64 = 4, e: u128 = 5, f: i128 = 6, g: f32 = 7, h: f64 = 8 }
            [] $m::Texts { a: String = 1, b: String = 2, c: Box<str> = 3, d: $bytes = 4, e: $bytes = 5, f: Box<[u8]> = 6 }
            [] $m::Containers { a: Vec<u32> = 1, b: HashMap<u8, String> = 2, c: HashSet<u32> = 3, d: Option<u32> = 4, e: [u32; 2] = 5,
                f: NonZeroU32 = 6, g: Vec<$bytes> = 7, h: HashMap<String, $bytes> = 8 }
            [] $m::NonZeros { a: NonZeroU8 = 1, b: NonZeroU16 = 2, c: NonZeroU32 = 3, d: NonZeroU64 = 4, e: NonZeroU128 = 5,
                f: NonZeroI8 = 6, g: NonZeroI16 = 7, h: NonZeroI32 = 8, i: NonZeroI64 = 9, j: NonZeroI128 = 10 }
            [] $m::NonEmpty { a: NonZero<String> = 1, b: NonZero<$bytes> = 2, c: NonZero<Vec<String>> = 3,
                d: NonZero<HashMap<u8, $bytes>> = 4, e: NonZero<HashSet<u16>> = 5 }
            [] $m::Nested { value: Vec<Option<NonZero<HashMap<i64, Box<str>>>>> = 1 }
            [] $m::Optionals { a: Option<u32> = 1, b: Option<String> = 2, c: Option<bool> = 3, d: Option<Vec<u16>> = 4, e: Option<Option<u16>> = 5,
                f: Option<f64> = 6, g: Option<NonZeroU8> = 7, h: Option<$m::Named> = 8, i: Option<$bytes> = 9 }
            [] $m::Tuples { a: (u32, bool) = 1, b: Option<(u8, i16)> = 2, c: Vec<(u16, bool)> = 3, d: (u8, (u16, String)) = 4,
                e: (NonZeroU8, Option<u16>) = 5 }
            [] $m::InnerTuples { a: Vec<(u16, bool)> = 1, b: HashMap<u8, (u8, i16)> = 2, c: [(u8, String); 2] = 3 }
            [K, V] $m::KeyValue<K, V> { key: K = 1 param, value: V = 2 param }
            [] $m::UseRef { basic: $m::Kind = 1, with: $m::KeyValue<u32, bool> = 2, opt: Option<$m::Kind> = 3, list: Vec<$m::KeyValue<u8, u8>> = 4,
                map: HashMap<u8, $m::Named> = 5, arr: [$m::Named; 2] = 6, unit: $m::Unit = 7 }
            [] $m::Derived { a: u32 = 1, b: u32 = 100, c: u32 = 101, d: Option<String> = 536870911 }
            [] $m::Numbers { p: u8 = 16, a: u8 = 15, b: Option<bool> = 17, c: u16 = 2047, d: u8 = 2048, e: Option<u8> = 262143, f: u8 = 262144,
                g: Option<u8> = 33554431, h: bool = 33554432, i: u8 = 65552 }
            [] $m::Units { list: Vec<$m::Unit> = 1 }
            [] $m::inner::Deep { a: u32 = 1 }
            [] $m::UseInner { a: $m::inner::Deep = 1, b: Option<$m::inner::more::Deeper> = 2 }
            [] $o::Shared { x: u16 = 1 }
            [] $m::UseImport { a: $o::Shared = 1, b: $o::deep::Thing = 2 }
        }
        tuple_structs! {
            [] $m::Tuple = $m::Tuple { 0 a: u32 = 1, 1 b: bool = 2 }
            [] $m::DerivedTuple = $m::DerivedTuple { 0 a: u32 = 1, 1 b: u32 = 100, 2 c: Option<u32> = 101 }
            [] $o::deep::Thing = $o::deep::Thing { 0 a: bool = 1 }
        }
        unit_structs! {
            $m::Unit;
        }
        enums! {
            [L, R] $m::Either<L, R> { 1 Left(a: L = 1 param), 2 Right(a: R = 1 param), 3 Both { left: Option<L> = 1 option, right: Vec<R> = 2 } }
            [] $m::Kind { 1 One, 2 Two(a: u32 = 1, b: u64 = 2), 3 Three { field1: u32 = 1, field2: bool = 2 }, 70000 Four { o: Option<u32> = 5, s: String = 9 } }
            [] $m::DerivedEnum { 1 Named { a: u32 = 1, b: u32 = 100, c: u32 = 101 }, 4294967293 Unit, 4294967294 Last(a: u32 = 1, b: u32 = 100, c: u32 = 101) }
            [] $m::Numbered { 127 A, 128 B(a: bool = 16), 16384 C { x: u8 = 65536, y: Option<u8> = 256 }, 256 D, 65663 E }
            [] $m::inner::more::Deeper { 1 A, 2 B(a: u8 = 1) }
        }
    };
}
mod s {
    use super::*;
    use crate::gs::{corpus, other};
    corpus!(corpus, other, Vec<u8>);
}
mod b {
    use super::*;
    use crate::gb::{corpus, other};
    corpus!(corpus, other, Bytes);
}

/// Payloads long enough that their length takes two bytes.
impl Sym for crate::gs::corpus::Long {
    fn sym() -> Self {
        let which = sym::below(5);
        let n = |k: u8, a: usize| if which == k { a + sym::below(3) as usize } else { 0 };
        let mut list = vec![300u16; n(0, 63)];
        if let Some(x) = list.first_mut() {
            *x = u16::sym();
        }
        let map = (0..n(1, 14)).map(|i| (i as u8, f64::sym())).collect();
        let mut arr = [0.5; 17];
        if which == 2 {
            arr[0] = f64::sym();
        }
        let mut nested = vec![vec![7u16; 20]; n(3, 5)];
        if let Some(x) = nested.first_mut() {
            x[0] = u16::sym();
        }
        let mut text = "x".repeat(n(4, 126));
        if which == 4 {
            text.push(char::sym());
        }
        Self { list, map, arr, nested, text }
    }
}
impl Same for crate::gs::corpus::Long {
    fn same(&self, o: &Self) -> bool {
        self.list.same(&o.list) && self.map.same(&o.map) && self.arr.same(&o.arr) && self.nested.same(&o.nested) && self.text.same(&o.text)
    }
}
impl Composite for crate::gs::corpus::Long {
    fn parts(&self) -> Parts {
        Parts {
            variant: None,
            ended: true,
            fields: vec![
                part(&self.list, 1, Some("list")),
                part(&self.map, 2, Some("map")),
                part(&self.arr, 3, Some("arr")),
                part(&self.nested, 4, Some("nested")),
                part(&self.text, 5, Some("text")),
            ],
        }
    }
    fn variants() -> &'static [u32] {
        &[]
    }
    fn typed(&self) -> bool {
        true
    }
}
composite!([] crate::gs::corpus::Long);
