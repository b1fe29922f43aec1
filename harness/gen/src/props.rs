//! G01, G02, G04, G05 for every type of the corpus, G03 where only the bytes change.

use crate::gb::corpus as b;
use crate::gs::corpus as s;
use crate::spec::*;
use mabo::buf::{Error, Size};
use mabo::{Decode, Encode, FieldEncoding, FieldId};

fn enc<T: Encode>(v: &T) -> Vec<u8> {
    let mut w = Vec::new();
    v.encode(&mut w);
    sym::settle(&mut w);
    w
}

/// Collections inside of collections stay small, for the deepest type of the corpus even the outermost.
fn narrow<T>() {
    sym::set_narrow(std::any::type_name::<T>().ends_with("::Nested"));
}

/// G01
#[inline(never)]
fn round<T: Sym + Same + Encode + Decode>() {
    narrow::<T>();
    let v = T::sym();
    let mut w = enc(&v);
    sym::observe(w.len() as u64);
    let tail: [u8; 2] = sym::bytes();
    w.extend_from_slice(&tail);
    let mut r = &w[..];
    let d = T::decode(&mut r);
    sym::check(d.is_ok(), "decodes");
    let Ok(d) = d else { return };
    sym::check(d.same(&v), "same value");
    sym::check(r.len() == 2 && r[0] == tail[0] && r[1] == tail[1], "consumes exactly the encoding");
}

/// G02
#[inline(never)]
fn layout<T: Sym + Composite + Wire + Encode + Size>() {
    narrow::<T>();
    let v = T::sym();
    sym::check(v.typed(), "fields have the types of the schema");
    let w = enc(&v);
    sym::observe(w.len() as u64);
    let mut wire = v.to_wire();
    sym::settle(&mut wire);
    sym::check(w == wire, "documented layout");
    let slack: usize = v.parts().fields.iter().map(|f| f.slack).sum();
    sym::check(v.size() + slack == w.len(), "computed size is the encoded length");
    if slack > 0 {
        sym::check(v.size() == w.len(), "computed size includes the length in front of tuple fields");
    }
}

/// A payload that fits a marker.
fn payload(mark: u8, out: &mut Vec<u8>) {
    match mark {
        0 => {
            let n = sym::below(3);
            for _ in 0..n {
                out.push(sym::u8() | 0x80);
            }
            out.push(sym::u8() & 0x7f);
        }
        1 => {
            let n = sym::below(3);
            out.push(n);
            for _ in 0..n {
                out.push(sym::u8());
            }
        }
        2 => out.push(sym::u8()),
        3 => out.extend_from_slice(&sym::bytes::<4>()),
        _ => out.extend_from_slice(&sym::bytes::<8>()),
    }
}

/// G03: any two fields exchanged, an unknown field anywhere.
#[inline(never)]
fn disturbed<T: Sym + Same + Composite + Decode>() {
    narrow::<T>();
    // One case: any value, with any two fields exchanged and an extra field in between. Other
    // cases: an ordinary value, with any extra field between any fields.
    let fixed = sym::bool();
    let v = if fixed { T::sym() } else { sym::plain() };
    let mut p = v.parts();
    if !p.ended {
        return;
    }
    let n = p.fields.len();
    let ids: Vec<u32> = p.fields.iter().map(|f| f.id).collect();
    let mut extra = Vec::new();
    let at;
    if fixed {
        let at_field = if n > 1 { sym::below(n as u8) as usize } else { 0 };
        if n > 1 {
            p.fields.swap(at_field, (at_field + 1) % n);
        }
        at = (at_field + 1) % (n + 1);
        sym::wire::varint(77 * 8 + 1, &mut extra);
        extra.extend_from_slice(&[2, sym::u8(), sym::u8()]);
    } else {
        let id = sym::u32();
        sym::assume(id > 0 && id < 1 << 29);
        for k in &ids {
            sym::assume(id != *k);
        }
        let mark = sym::below(5);
        sym::wire::varint(id as u128 * 8 + mark as u128, &mut extra);
        payload(mark, &mut extra);
        if n > 1 {
            let (i, j) = (sym::below(n as u8) as usize, sym::below(n as u8) as usize);
            sym::assume(i <= j);
            p.fields.swap(i, j);
        }
        at = sym::below(n as u8 + 1) as usize;
    }
    p.fields.insert(at, Part { id: 0, name: None, optional: true, slack: 0, bytes: extra });
    let mut w = Vec::new();
    p.wire(&mut w);
    sym::settle(&mut w);
    sym::observe(w.len() as u64);
    w.push(sym::u8());
    let mut r = &w[..];
    let d = T::decode(&mut r);
    sym::cover("disturbed");
    sym::check(d.is_ok(), "decodes");
    let Ok(d) = d else { return };
    sym::check(d.same(&v), "known fields undisturbed");
    sym::check(r.len() == 1, "consumes exactly the encoding");
}

/// G04: some fields left out.
#[inline(never)]
fn missing<T: Sym + Composite + Decode>() {
    // One element, as the order of more of them in maps is not fixed.
    sym::set_narrow(true);
    let v = T::sym();
    let mut p = v.parts();
    if p.fields.is_empty() {
        return;
    }
    let n = p.fields.len();
    let mut first: Option<(u32, Option<&'static str>)> = None;
    // Each of up to three fields on its own, of more fields any two neighbours.
    let at = if n > 3 { sym::below(n as u8) as usize } else { n };
    for i in 0..n {
        let keep = if n > 3 && i != at && i != at + 1 { true } else { sym::bool() };
        if !keep {
            let f = &mut p.fields[i];
            f.bytes.clear();
            if !f.optional && first.is_none() {
                first = Some((f.id, f.name));
            }
        }
    }
    let mut w = Vec::new();
    p.wire(&mut w);
    sym::settle(&mut w);
    let mut r = &w[..];
    match (T::decode(&mut r), first) {
        (Err(Error::MissingField { id, name }), Some((i, m))) => {
            sym::cover("missing");
            sym::check(id == i, "the first absent required field is named by its number");
            sym::check(name == m, "the first absent required field is named by its name");
        }
        (Err(_), Some(_)) => sym::check(false, "an absent required field is called missing"),
        (Ok(_), Some(_)) => sym::check(false, "an absent required field is an error"),
        (Err(_), None) => sym::check(false, "absent optional fields are no error"),
        (Ok(d), None) => {
            sym::cover("complete");
            let q = d.parts();
            sym::check(q.variant == p.variant && q.fields.len() == n, "same shape");
            if q.fields.len() == n {
                for i in 0..n {
                    sym::check(q.fields[i].bytes == p.fields[i].bytes, "present fields are kept, absent ones stay absent");
                }
            }
        }
    }
}

/// G04: any variant number.
#[inline(never)]
fn variant<T: Composite + Decode>() {
    let n = sym::u32();
    let known = T::variants().contains(&n);
    let mut w = Vec::new();
    sym::wire::varint(n as u128, &mut w);
    w.push(0);
    match T::decode(&mut &w[..]) {
        Err(Error::UnknownVariant(m)) => {
            sym::cover("unknown");
            sym::check(!known, "known variants are accepted");
            sym::check(m == n, "the error carries the number");
        }
        Ok(v) => {
            sym::cover("known");
            sym::check(known, "unknown variants are rejected");
            sym::check(v.parts().variant == Some(n), "the variant of that number");
        }
        Err(_) => sym::check(known, "an unknown variant is called unknown"),
    }
}

/// G05
#[inline(never)]
fn hostile<T: Decode, const N: usize>() {
    let mut buf = [0; N];
    let s = sym::slice(&mut buf);
    let h = sym::heap();
    let mut r = s;
    match T::decode(&mut r) {
        Ok(_) => sym::cover("value"),
        Err(_) => sym::cover("error"),
    }
    sym::observe(r.len() as u64);
    sym::check(r.len() <= s.len(), "never moves backwards");
    sym::check(sym::heap() - h <= 2048 + 512 * s.len() as u64, "memory in proportion to the input");
}

macro_rules! types {
    ($($t:ty, $n:literal: $g01:ident $g02:ident $g03:ident $g04:ident $g05:ident, $t1:ident $t2:ident $t3:ident $t5:ident;)*) => {sym::harness! {$(
        fn $g01() { round::<$t>() }
        fn $g02() { layout::<$t>() }
        fn $g03() { disturbed::<$t>() }
        fn $g04() { missing::<$t>() }
        fn $g05() { hostile::<$t, $n>() }
        fn $t1() { sym::set_wide(); round::<$t>() }
        fn $t2() { sym::set_wide(); layout::<$t>() }
        fn $t3() { sym::set_wide(); disturbed::<$t>() }
        fn $t5() { hostile::<$t, {$n + 1}>() }
    )*}};
}

mod all {
    use super::*;
    types! {
        s::Named, 7: g01_named g02_named g03_named g04_named g05_named, t_g01_named t_g02_named t_g03_named t_g05_named;
        s::Tuple, 7: g01_tuple g02_tuple g03_tuple g04_tuple g05_tuple, t_g01_tuple t_g02_tuple t_g03_tuple t_g05_tuple;
        s::Unit, 3: g01_unit g02_unit g03_unit g04_unit g05_unit, t_g01_unit t_g02_unit t_g03_unit t_g05_unit;
        s::Small, 6: g01_small g02_small g03_small g04_small g05_small, t_g01_small t_g02_small t_g03_small t_g05_small;
        s::Large, 6: g01_large g02_large g03_large g04_large g05_large, t_g01_large t_g02_large t_g03_large t_g05_large;
        s::Texts, 6: g01_texts g02_texts g03_texts g04_texts g05_texts, t_g01_texts t_g02_texts t_g03_texts t_g05_texts;
        s::Containers, 6: g01_containers g02_containers g03_containers g04_containers g05_containers, t_g01_containers t_g02_containers t_g03_containers t_g05_containers;
        s::NonZeros, 6: g01_nonzeros g02_nonzeros g03_nonzeros g04_nonzeros g05_nonzeros, t_g01_nonzeros t_g02_nonzeros t_g03_nonzeros t_g05_nonzeros;
        s::NonEmpty, 6: g01_nonempty g02_nonempty g03_nonempty g04_nonempty g05_nonempty, t_g01_nonempty t_g02_nonempty t_g03_nonempty t_g05_nonempty;
        s::Nested, 7: g01_nested g02_nested g03_nested g04_nested g05_nested, t_g01_nested t_g02_nested t_g03_nested t_g05_nested;
        s::Optionals, 6: g01_optionals g02_optionals g03_optionals g04_optionals g05_optionals, t_g01_optionals t_g02_optionals t_g03_optionals t_g05_optionals;
        s::Tuples, 6: g01_tuples g02_tuples g03_tuples g04_tuples g05_tuples, t_g01_tuples t_g02_tuples t_g03_tuples t_g05_tuples;
        s::InnerTuples, 6: g01_inner_tuples g02_inner_tuples g03_inner_tuples g04_inner_tuples g05_inner_tuples, t_g01_inner_tuples t_g02_inner_tuples t_g03_inner_tuples t_g05_inner_tuples;
        s::KeyValue<u32, bool>, 7: g01_kv_ints g02_kv_ints g03_kv_ints g04_kv_ints g05_kv_ints, t_g01_kv_ints t_g02_kv_ints t_g03_kv_ints t_g05_kv_ints;
        s::KeyValue<String, s::Kind>, 6: g01_kv_kind g02_kv_kind g03_kv_kind g04_kv_kind g05_kv_kind, t_g01_kv_kind t_g02_kv_kind t_g03_kv_kind t_g05_kv_kind;
        s::Either<u8, u64>, 6: g01_either g02_either g03_either g04_either g05_either, t_g01_either t_g02_either t_g03_either t_g05_either;
        s::Either<s::Named, Vec<u8>>, 6: g01_either_rec g02_either_rec g03_either_rec g04_either_rec g05_either_rec, t_g01_either_rec t_g02_either_rec t_g03_either_rec t_g05_either_rec;
        s::Kind, 7: g01_kind g02_kind g03_kind g04_kind g05_kind, t_g01_kind t_g02_kind t_g03_kind t_g05_kind;
        s::UseRef, 6: g01_use_ref g02_use_ref g03_use_ref g04_use_ref g05_use_ref, t_g01_use_ref t_g02_use_ref t_g03_use_ref t_g05_use_ref;
        s::Derived, 7: g01_derived g02_derived g03_derived g04_derived g05_derived, t_g01_derived t_g02_derived t_g03_derived t_g05_derived;
        s::DerivedTuple, 7: g01_derived_tuple g02_derived_tuple g03_derived_tuple g04_derived_tuple g05_derived_tuple, t_g01_derived_tuple t_g02_derived_tuple t_g03_derived_tuple t_g05_derived_tuple;
        s::DerivedEnum, 7: g01_derived_enum g02_derived_enum g03_derived_enum g04_derived_enum g05_derived_enum, t_g01_derived_enum t_g02_derived_enum t_g03_derived_enum t_g05_derived_enum;
        s::Numbers, 7: g01_numbers g02_numbers g03_numbers g04_numbers g05_numbers, t_g01_numbers t_g02_numbers t_g03_numbers t_g05_numbers;
        s::Numbered, 7: g01_numbered g02_numbered g03_numbered g04_numbered g05_numbered, t_g01_numbered t_g02_numbered t_g03_numbered t_g05_numbered;
        s::UseInner, 7: g01_use_inner g02_use_inner g03_use_inner g04_use_inner g05_use_inner, t_g01_use_inner t_g02_use_inner t_g03_use_inner t_g05_use_inner;
        s::UseImport, 7: g01_use_import g02_use_import g03_use_import g04_use_import g05_use_import, t_g01_use_import t_g02_use_import t_g03_use_import t_g05_use_import;
        b::Texts, 6: g01_b_texts g02_b_texts g03_b_texts g04_b_texts g05_b_texts, t_g01_b_texts t_g02_b_texts t_g03_b_texts t_g05_b_texts;
        b::Containers, 6: g01_b_containers g02_b_containers g03_b_containers g04_b_containers g05_b_containers, t_g01_b_containers t_g02_b_containers t_g03_b_containers t_g05_b_containers;
        b::NonEmpty, 6: g01_b_nonempty g02_b_nonempty g03_b_nonempty g04_b_nonempty g05_b_nonempty, t_g01_b_nonempty t_g02_b_nonempty t_g03_b_nonempty t_g05_b_nonempty;
        b::Optionals, 6: g01_b_optionals g02_b_optionals g03_b_optionals g04_b_optionals g05_b_optionals, t_g01_b_optionals t_g02_b_optionals t_g03_b_optionals t_g05_b_optionals;
    }
}

mod variants {
    use super::*;
    sym::harness! {
        fn g04_variant_either() { variant::<s::Either<u8, u8>>() }
        fn g04_variant_kind() { variant::<s::Kind>() }
        fn g04_variant_derived() { variant::<s::DerivedEnum>() }
        fn g04_variant_numbered() { variant::<s::Numbered>() }
        fn g04_variant_deeper() { variant::<s::inner::more::Deeper>() }
        fn g04_variant_kind_bytes() { variant::<b::Kind>() }
    }
}

mod special {
    use super::*;
    sym::harness! {
        fn g01_long() { round::<s::Long>() }
        fn g02_long() { layout::<s::Long>() }
        /// What generated code writes and counts for a field of any number.
        fn g02_any_key() {
            let id = sym::u32();
            sym::assume(id < 1 << 29);
            let some = sym::bool();
            let x = sym::u8();
            for (m, e) in [FieldEncoding::Varint, FieldEncoding::LengthPrefixed, FieldEncoding::Fixed1, FieldEncoding::Fixed4, FieldEncoding::Fixed8].into_iter().enumerate() {
                let mut spec = Vec::new();
                sym::wire::varint(id as u128 * 8 + m as u128, &mut spec);
                spec.push(x);
                let mut w = Vec::new();
                mabo::buf::encode_field(&mut w, FieldId::new(id, e), |w: &mut Vec<u8>| mabo::buf::encode_u8(w, x));
                sym::check(w == spec, "documented bytes of a field");
                sym::check(mabo::buf::size_field(id, || 1) == w.len(), "computed size of a field");
                let v = some.then_some(x);
                let mut w = Vec::new();
                mabo::buf::encode_field_option(&mut w, FieldId::new(id, e), &v, |w: &mut Vec<u8>, x| mabo::buf::encode_u8(w, *x));
                sym::check(if some { w == spec } else { w.is_empty() }, "documented bytes of an optional field");
                sym::check(mabo::buf::size_field_option(id, v.as_ref(), |_| 1) == w.len(), "computed size of an optional field");
            }
        }
        fn g02_any_variant() {
            let id = sym::u32();
            let mut spec = Vec::new();
            sym::wire::varint(id as u128, &mut spec);
            let mut w = Vec::new();
            mabo::buf::encode_variant_id(&mut w, mabo::VariantId::new(id));
            sym::check(w == spec, "documented bytes of a variant number");
            sym::check(mabo::buf::size_variant_id(id) == w.len(), "computed size of a variant number");
        }
        fn g05_units() { hostile::<s::Units, 5>() }
        fn g01_units() { round::<s::Units>() }
        fn g02_units() { layout::<s::Units>() }
    }
}

pub const TABLES: [&[(&str, extern "C" fn())]; 3] = [all::TABLE, variants::TABLE, special::TABLE];
