//! G03: schemas of two versions.

use crate::gs::{new, old};
use crate::spec::*;
use mabo::{Decode, Encode};

fn text() -> String {
    let n = sym::below(2);
    let mut s = Vec::new();
    for _ in 0..n {
        sym::push_char(&mut s);
    }
    unsafe { String::from_utf8_unchecked(s) }
}

/// What a reader of the other version makes of `v`, which must be all there is.
fn read<T: Decode>(v: &impl Encode) -> Option<T> {
    let mut w = Vec::new();
    v.encode(&mut w);
    sym::settle(&mut w);
    sym::observe(w.len() as u64);
    w.push(sym::u8());
    let mut r = &w[..];
    let d = T::decode(&mut r);
    sym::check(d.is_ok(), "the other version decodes");
    if d.is_ok() {
        sym::check(r.len() == 1, "the other version consumes exactly the encoding");
    }
    d.ok()
}

/// An optional field added.
macro_rules! added {
    ($($name:ident $t:ident $(<$g:ty>)? : $x:ty = $make:expr;)*) => {sym::harness! {$(
        fn $name() {
            if sym::bool() {
                let x: Option<$x> = if sym::bool() { Some($make) } else { None };
                let v = new::$t $(::<$g>)? { a: sym::u32(), x, c: text() };
                if let Some(o) = read::<old::Rec>(&v) {
                    sym::cover("backward");
                    sym::check(o.a == v.a && o.c == v.c, "the old reader sees the shared fields");
                }
            } else {
                let v = old::Rec { a: sym::u32(), c: text() };
                if let Some(o) = read::<new::$t $(<$g>)?>(&v) {
                    sym::cover("forward");
                    sym::check(o.a == v.a && o.c == v.c, "the new reader sees the shared fields");
                    sym::check(o.x.is_none(), "the added field is absent");
                }
            }
        }
    )*}};
}
/// A required field added, and the declaration reordered.
macro_rules! required {
    ($($name:ident $t:ident: $x:ty;)*) => {sym::harness! {$(
        fn $name() {
            let v = new::$t { c: text(), x: <$x>::sym(), a: sym::u32() };
            if let Some(o) = read::<old::Rec>(&v) {
                sym::cover("backward");
                sym::check(o.a == v.a && o.c == v.c, "the old reader sees the shared fields");
            }
        }
    )*}};
}

mod optional {
    use super::*;
    use std::collections::{HashMap, HashSet};
    added! {
        g03_add_bool RecBool: bool = Sym::sym();
        g03_add_u8 RecU8: u8 = Sym::sym();
        g03_add_i8 RecI8: i8 = Sym::sym();
        g03_add_u16 RecU16: u16 = Sym::sym();
        g03_add_i64 RecI64: i64 = Sym::sym();
        g03_add_u128 RecU128: u128 = Sym::sym();
        g03_add_f32 RecF32: f32 = Sym::sym();
        g03_add_f64 RecF64: f64 = Sym::sym();
        g03_add_string RecString: String = Sym::sym();
        g03_add_bytes RecBytes: Vec<u8> = Sym::sym();
        g03_add_boxed RecBoxed: Box<str> = Sym::sym();
        g03_add_vec RecVec: Vec<u16> = Sym::sym();
        g03_add_map RecMap: HashMap<u8, u16> = Sym::sym();
        g03_add_set RecSet: HashSet<u8> = Sym::sym();
        g03_add_array RecArray: [u16; 2] = Sym::sym();
        g03_add_tuple RecTuple: (u8, u16) = Sym::sym();
        g03_add_nz RecNz: std::num::NonZeroU16 = Sym::sym();
        g03_add_nzvec RecNzvec: mabo::NonZero<Vec<u8>> = Sym::sym();
        g03_add_nested RecNested: Vec<Option<u8>> = Sym::sym();
        g03_add_structs RecStructs: Vec<new::Plain> = if sym::bool() { vec![new::Plain { p: sym::u16() }] } else { vec![] };
        g03_add_struct RecStruct: new::Plain = new::Plain { p: sym::u16() };
        g03_add_enum RecEnum: new::Choice = if sym::bool() { new::Choice::A } else { new::Choice::B(sym::u16()) };
        g03_add_generic RecGeneric: new::Wrap<u16> = new::Wrap { t: sym::u16() };
        g03_add_option RecOption: Option<u16> = Sym::sym();
        g03_add_unit RecUnit: new::Empty = new::Empty;
        g03_add_param RecParam<u16>: u16 = Sym::sym();
    }
}
mod more {
    use super::*;
    required! {
        g03_req_u8 ReqU8: u8;
        g03_req_u16 ReqU16: u16;
        g03_req_f64 ReqF64: f64;
        g03_req_string ReqString: String;
        g03_req_vec ReqVec: Vec<u16>;
        g03_req_array ReqArray: [u16; 2];
        g03_req_tuple ReqTuple: (u8, u16);
    }
}

fn new_rec() -> new::Rec {
    let x = if sym::bool() { Some(vec![sym::u8()]) } else { None };
    let y = if sym::bool() { Some(sym::u16()) } else { None };
    new::Rec { a: sym::u32(), x, c: String::from("c"), y }
}
fn old_rec() -> old::Rec {
    old::Rec { a: sym::u32(), c: text() }
}
fn agree(o: &old::Rec, n: &new::Rec) -> bool {
    o.a == n.a && o.c == n.c
}
fn all_agree(o: &[old::Rec], n: &[new::Rec]) -> bool {
    o.len() == n.len() && o.iter().zip(n).all(|(o, n)| agree(o, n))
}

mod whole {
    use super::*;
    sym::harness! {
        fn g03_nested_backward() {
            let at = sym::below(3);
            let few = |k: u8| -> Vec<new::Rec> { if at == k { vec![new_rec()] } else { vec![] } };
            let v = new::Outer {
                map: few(0).into_iter().map(|r| (7, r)).collect(),
                extra: if sym::bool() { Some(vec![]) } else { None },
                list: few(1),
                opt: few(2).pop(),
            };
            if let Some(o) = read::<old::Outer>(&v) {
                sym::cover("nested");
                sym::check(all_agree(&o.list, &v.list), "elements of vectors");
                sym::check(o.map.len() == v.map.len() && o.map.iter().all(|(k, r)| v.map.get(k).is_some_and(|n| agree(r, n))), "values of maps");
                sym::check(o.opt.is_some() == v.opt.is_some() && o.opt.iter().zip(&v.opt).all(|(o, n)| agree(o, n)), "optional fields");
            }
        }
        fn g03_nested_forward() {
            let at = sym::below(3);
            let few = |k: u8| -> Vec<old::Rec> { if at == k { vec![old_rec()] } else { vec![] } };
            let v = old::Outer {
                map: few(0).into_iter().map(|r| (7, r)).collect(),
                list: few(1),
                opt: few(2).pop(),
            };
            if let Some(n) = read::<new::Outer>(&v) {
                sym::cover("nested");
                sym::check(n.extra.is_none(), "the added field is absent");
                sym::check(all_agree(&v.list, &n.list), "elements of vectors");
                sym::check(n.list.iter().all(|r| r.x.is_none() && r.y.is_none()), "added fields of elements are absent");
                sym::check(n.map.len() == v.map.len() && v.map.iter().all(|(k, r)| n.map.get(k).is_some_and(|n| agree(r, n))), "values of maps");
                sym::check(n.opt.is_some() == v.opt.is_some() && v.opt.iter().zip(&n.opt).all(|(o, n)| agree(o, n)), "optional fields");
            }
        }
        fn g03_two_elements() {
            let v = vec![new::Rec { a: 1, x: Some(vec![sym::u8()]), c: String::new(), y: Some(sym::u16()) }, new::Rec { a: sym::u32(), x: None, c: String::new(), y: None }];
            let v = new::Outer { map: Default::default(), extra: None, list: v, opt: None };
            if let Some(o) = read::<old::Outer>(&v) {
                sym::cover("two");
                sym::check(all_agree(&o.list, &v.list), "elements of vectors");
            }
        }
        fn g03_positional() {
            if sym::bool() {
                let v = new::Pos(sym::u32(), <Option<f32>>::sym(), text());
                if let Some(o) = read::<old::Pos>(&v) {
                    sym::cover("backward");
                    sym::check(o.0 == v.0 && o.1 == v.2, "shared fields");
                }
            } else {
                let v = old::Pos(sym::u32(), text());
                if let Some(n) = read::<new::Pos>(&v) {
                    sym::cover("forward");
                    sym::check(n.0 == v.0 && n.2 == v.1 && n.1.is_none(), "shared fields");
                }
            }
        }
        fn g03_event_backward() {
            let v = match sym::below(4) {
                0 => new::Event::Idle,
                1 => new::Event::Stop { reason: if sym::bool() { Some(text()) } else { None }, code: sym::u16() },
                2 => new::Event::Start(sym::u32(), <Option<bool>>::sym()),
                _ => new::Event::Fresh(sym::u8()),
            };
            if let new::Event::Fresh(_) = v {
                let mut w = Vec::new();
                v.encode(&mut w);
                sym::check(matches!(old::Event::decode(&mut &w[..]), Err(mabo::buf::Error::UnknownVariant(4))), "an added variant is unknown");
                return;
            }
            let Some(o) = read::<old::Event>(&v) else { return };
            sym::cover("event");
            sym::check(match (&o, &v) {
                (old::Event::Idle, new::Event::Idle) => true,
                (old::Event::Stop { code: a }, new::Event::Stop { code: b, .. }) => a == b,
                (old::Event::Start(a), new::Event::Start(b, _)) => a == b,
                _ => false,
            }, "same variant and shared fields");
        }
        fn g03_event_forward() {
            let v = match sym::below(3) {
                0 => old::Event::Idle,
                1 => old::Event::Stop { code: sym::u16() },
                _ => old::Event::Start(sym::u32()),
            };
            let Some(n) = read::<new::Event>(&v) else { return };
            sym::cover("event");
            sym::check(match (&v, &n) {
                (old::Event::Idle, new::Event::Idle) => true,
                (old::Event::Stop { code: a }, new::Event::Stop { code: b, reason: None }) => a == b,
                (old::Event::Start(a), new::Event::Start(b, None)) => a == b,
                _ => false,
            }, "same variant and shared fields");
        }
    }
}

pub const TABLES: [&[(&str, extern "C" fn())]; 3] = [optional::TABLE, more::TABLE, whole::TABLE];
