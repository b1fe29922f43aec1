//! W07: field keys, variant ids and skipping.

use mabo::buf::*;
use mabo::{FieldEncoding, FieldId, VariantId};
use sym::wire::{self, Wire};
use sym::Sym;

pub fn encoding(n: u8) -> FieldEncoding {
    match n {
        0 => FieldEncoding::Varint,
        1 => FieldEncoding::LengthPrefixed,
        2 => FieldEncoding::Fixed1,
        3 => FieldEncoding::Fixed4,
        _ => FieldEncoding::Fixed8,
    }
}

/// A value behind a key: skipping it by its marker leaves exactly what follows, any prefix fails.
#[inline(never)]
fn skip_bytes<T>(enc: FieldEncoding, e: impl Fn(&mut Vec<u8>, &T), v: &T) {
    let mut w = Vec::new();
    e(&mut w, v);
    let n = w.len();
    sym::observe(n as u64);
    let tail: [u8; 2] = sym::bytes();
    w.extend_from_slice(&tail);
    let mut r = &w[..];
    sym::check(decode_skip(&mut r, enc).is_ok(), "a complete value can be skipped");
    sym::check(r.len() == 2 && r[0] == tail[0] && r[1] == tail[1], "skips exactly the value");
    let k = sym::u8() as usize;
    sym::assume(k < n);
    let k = sym::pin(k as u64) as usize;
    let mut r = &w[..k];
    sym::cover("cut");
    sym::check(decode_skip(&mut r, enc).is_err(), "an incomplete value cannot be skipped");
}
macro_rules! skips {
    ($($n:ident $enc:ident $t:ty;)*) => {sym::harness! {$( fn $n() { skip_bytes(FieldEncoding::$enc, |w, v: &$t| mabo::Encode::encode(v, w), &<$t>::sym()) } )*}};
}
mod sk {
    use super::*;
    use std::collections::{HashMap, HashSet};
    skips! {
        w07_skip_bool Fixed1 bool; w07_skip_u8 Fixed1 u8; w07_skip_i8 Fixed1 i8; w07_skip_f32 Fixed4 f32; w07_skip_f64 Fixed8 f64;
        w07_skip_u16 Varint u16; w07_skip_u32 Varint u32; w07_skip_u64 Varint u64; w07_skip_u128 Varint u128;
        w07_skip_i16 Varint i16; w07_skip_i32 Varint i32; w07_skip_i64 Varint i64; w07_skip_i128 Varint i128;
        w07_skip_string LengthPrefixed String; w07_skip_bytes LengthPrefixed Box<[u8]>;
        w07_skip_vec LengthPrefixed Vec<u32>; w07_skip_map LengthPrefixed HashMap<u8, u32>; w07_skip_set LengthPrefixed HashSet<u16>; w07_skip_array LengthPrefixed [u16; 2];
        w07_skip_vec_bytes LengthPrefixed Vec<Box<[u8]>>;
    }
}

sym::harness! {
    /// Every number and marker: the documented bits, split back into the same pair.
    fn w07_key() {
        let v = sym::u32();
        sym::assume(v < 1 << 29);
        let m = sym::below(5);
        let id = FieldId::new(v, encoding(m));
        let raw = id.into_u32();
        sym::observe(raw as u64);
        sym::check(raw == v * 8 + m as u32, "documented bits");
        sym::check(v == 0 || raw != END_MARKER, "no collision with the end marker");
        let back = FieldId::from_u32(raw);
        sym::check(matches!(back, Some(b) if b.value == v && b.encoding == encoding(m)), "splits back");
        sym::check(FieldEncoding::from_u32(raw) == Some(encoding(m)), "marker alone");
        let mut w = Vec::new();
        encode_id(&mut w, id);
        let mut spec = Vec::new();
        wire::varint(v as u128 * 8 + m as u128, &mut spec);
        sym::check(w == spec, "documented bytes");
        sym::check(size_field_id(v) == w.len(), "size of the key");
        let mut r = &w[..];
        let d = decode_id(&mut r);
        sym::check(matches!(d, Ok(b) if b.value == v && b.encoding == encoding(m)) && r.is_empty(), "decodes to the same key");
    }
    /// Every raw key.
    fn w07_raw() {
        let raw = sym::u32();
        match FieldId::from_u32(raw) {
            Some(id) => {
                sym::cover("known");
                sym::check(raw % 8 < 5, "unknown markers are rejected");
                sym::check(id.value == raw / 8 && id.encoding == encoding((raw % 8) as u8), "documented bits");
                sym::check(id.into_u32() == raw, "combines back");
            }
            None => {
                sym::cover("unknown");
                sym::check(raw % 8 >= 5, "known markers are accepted");
            }
        }
        let mut w = Vec::new();
        encode_u32(&mut w, raw);
        let mut r = &w[..];
        match decode_id(&mut r) {
            Ok(id) => sym::check(raw % 8 < 5 && id.into_u32() == raw, "decoded key"),
            Err(Error::UnknownEncoding(x)) => sym::check(raw % 8 >= 5 && x == raw, "unknown marker error carries the key"),
            Err(_) => sym::check(false, "complete keys decode"),
        }
    }
    fn w07_variant() {
        let v = sym::u32();
        let mut w = Vec::new();
        encode_variant_id(&mut w, VariantId::new(v));
        sym::check(w == v.to_wire(), "documented bytes");
        sym::check(size_variant_id(v) == w.len(), "size of the variant number");
        let mut r = &w[..];
        sym::check(matches!(decode_variant_id(&mut r), Ok(x) if x.value == v) && r.is_empty(), "decodes to the same number");
    }
    /// A field: key, then value; an absent optional field is nothing.
    fn w07_field() {
        let v = sym::u32();
        sym::assume(v < 1 << 29);
        let x = u32::sym();
        let id = FieldId::new(v, FieldEncoding::Varint);
        let mut spec = Vec::new();
        wire::varint(v as u128 * 8, &mut spec);
        x.wire(&mut spec);
        let mut w = Vec::new();
        encode_field(&mut w, id, |w: &mut Vec<u8>| encode_u32(w, x));
        sym::check(w == spec, "documented bytes of a field");
        sym::check(size_field(v, || size_u32(x)) == w.len(), "size of a field");
    }
    fn w07_field_option() {
        let v = sym::u32();
        sym::assume(v < 1 << 29);
        let x = Option::<u32>::sym();
        let id = FieldId::new(v, FieldEncoding::Varint);
        let mut spec = Vec::new();
        if let Some(x) = x {
            wire::varint(v as u128 * 8, &mut spec);
            x.wire(&mut spec);
        }
        let mut w = Vec::new();
        encode_field_option(&mut w, id, &x, |w: &mut Vec<u8>, x| encode_u32(w, *x));
        sym::check(w == spec, "documented bytes of an optional field");
        sym::check(size_field_option(v, x.as_ref(), |x| size_u32(*x)) == w.len(), "size of an optional field");
    }
    /// Arbitrary bytes: what is skipped is what the marker says.
    fn w07_skip_any() {
        let m = sym::below(5);
        let mut b = [0; 12];
        let s = sym::slice(&mut b);
        let mut r = s;
        let d = decode_skip(&mut r, encoding(m));
        let want = match m {
            0 => wire::varint_end(s, usize::MAX),
            1 => wire::varint_end(s, 10).and_then(|n| match wire::varint_value(&s[..n], 64) {
                None => Some(usize::MAX), // not a length any encoder writes
                Some(l) => (l <= (s.len() - n) as u128).then(|| n + l as usize),
            }),
            2 => (s.len() >= 1).then_some(1),
            3 => (s.len() >= 4).then_some(4),
            _ => (s.len() >= 8).then_some(8),
        };
        match want {
            Some(usize::MAX) => {}
            Some(n) => {
                sym::cover("skipped");
                sym::check(d.is_ok() && s.len() - r.len() == n, "skips exactly the value");
            }
            None => {
                sym::cover("short");
                sym::check(d.is_err(), "an incomplete value cannot be skipped");
            }
        }
    }
}

pub const TABLES: [&[(&str, extern "C" fn())]; 2] = [sk::TABLE, TABLE];
