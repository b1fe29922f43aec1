//! W05, W08, W09: arbitrary bytes.

use std::collections::{HashMap, HashSet};

use bytes::{Buf, Bytes};
use mabo::buf::*;
use mabo::NonZero;
use sym::{Same, Sym};

/// Decoding needs no more than a constant plus a multiple of what is there.
#[inline(never)]
fn bounded(n: usize, f: impl FnOnce()) {
    let h = sym::heap();
    f();
    sym::check(sym::heap() - h <= 1024 + 256 * n as u64, "memory in proportion to the input");
}

#[inline(never)]
fn total<T, const N: usize>(dec: impl Fn(&mut &[u8]) -> Result<T>) {
    let mut b = [0; N];
    let s = sym::slice(&mut b);
    bounded(s.len(), || {
        let mut r = s;
        match dec(&mut r) {
            Ok(_) => {
                sym::cover("value");
                sym::observe(r.len() as u64);
            }
            Err(_) => sym::cover("error"),
        }
        sym::check(r.len() <= s.len(), "never moves backwards");
    });
}

/// Non-zero decoding is plain decoding plus the test.
#[inline(never)]
fn nonzero<T: Same, const N: usize>(plain: impl Fn(&mut &[u8]) -> Result<T>, nz: impl Fn(&mut &[u8]) -> Result<T>, zero: impl Fn(&T) -> bool) {
    let mut b = [0; N];
    let s = sym::slice(&mut b);
    let mut r1 = s;
    let mut r2 = s;
    match (plain(&mut r1), nz(&mut r2)) {
        (Ok(a), y) if zero(&a) => {
            sym::cover("zero");
            sym::check(matches!(y, Err(Error::Zero)), "zero is rejected as zero");
        }
        (Ok(a), Ok(c)) => {
            sym::cover("value");
            sym::check(a.same(&c), "same value as the plain decoder");
            sym::check(r1.len() == r2.len(), "same length as the plain decoder");
        }
        (Ok(_), Err(_)) => sym::check(false, "non-zero value accepted"),
        (Err(_), y) => {
            sym::cover("error");
            sym::check(y.is_err(), "malformed input is rejected");
            sym::check(!matches!(y, Err(Error::Zero)), "malformed input is not called zero");
        }
    }
}

/// One buffer or two chunks.
#[inline(never)]
fn split<T: Same, const N: usize>(one: impl Fn(&mut &[u8]) -> Result<T>, two: impl Fn(&mut bytes::buf::Chain<&[u8], &[u8]>) -> Result<T>) {
    let mut b = [0; N];
    let s = sym::slice(&mut b);
    let k = sym::below(N as u8 + 1) as usize;
    sym::assume(k <= s.len());
    let mut r1 = s;
    let mut r2 = s[..k].chain(&s[k..]);
    match (one(&mut r1), two(&mut r2)) {
        (Ok(a), Ok(c)) => {
            sym::cover("value");
            sym::check(a.same(&c), "same value from two chunks");
            sym::check(r1.remaining() == r2.remaining(), "same length from two chunks");
        }
        (Err(a), Err(c)) => {
            sym::cover("error");
            sym::check(std::mem::discriminant(&a) == std::mem::discriminant(&c), "same error from two chunks");
        }
        (Ok(_), Err(_)) => sym::check(false, "accepted in one chunk, rejected in two"),
        (Err(_), Ok(_)) => sym::check(false, "rejected in one chunk, accepted in two"),
    }
}

#[derive(Debug)]
struct By(Bytes);
impl Same for By {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

macro_rules! total {
    ($($name:ident $n:literal $t:ty;)*) => {sym::harness! {$( fn $name() { total::<$t, $n>(|r| <$t as mabo::Decode>::decode(r)) } )*}};
}
mod t {
    use super::*;
    total! {
        w05_bool 2 bool; w05_u8 2 u8; w05_i8 2 i8;
        w05_u16 4 u16; w05_u32 6 u32; w05_u64 11 u64; w05_u128 20 u128;
        w05_i16 4 i16; w05_i32 6 i32; w05_i64 11 i64; w05_i128 20 i128;
        w05_f32 5 f32; w05_f64 9 f64;
        w05_string 7 String; w05_box_str 6 Box<str>; w05_box_bytes 12 Box<[u8]>;
        w05_vec_u8 12 Vec<u8>; w05_vec_u32 7 Vec<u32>; w05_vec_f32 10 Vec<f32>; w05_vec_string 5 Vec<String>; w05_vec_vec 6 Vec<Vec<u16>>; w05_vec_option 6 Vec<Option<u8>>;
        w05_map 6 HashMap<u8, u16>; w05_map_string 5 HashMap<String, bool>; w05_set 6 HashSet<u16>; w05_set_bool 7 HashSet<bool>;
        w05_option 7 Option<u32>; w05_option_vec 6 Option<Vec<bool>>; w05_option_option 4 Option<Option<u8>>;
        w05_array_full 6 [bool; 0];
        w05_array 6 [u8; 2]; w05_array_u16 6 [u16; 1]; w05_vec_array 6 Vec<[u8; 1]>; w05_array_vec 6 [Vec<u8>; 2];
        w05_rc 4 std::rc::Rc<u16>; w05_arc 4 std::sync::Arc<Vec<u8>>; w05_cow 4 std::borrow::Cow<'static, u16>;
        t_w05_string 10 String; t_w05_vec_u32 10 Vec<u32>; t_w05_vec_string 8 Vec<String>; t_w05_vec_vec 9 Vec<Vec<u16>>;
        t_w05_map 9 HashMap<u8, u16>; t_w05_set 8 HashSet<u16>; t_w05_array_vec 9 [Vec<u8>; 2]; t_w05_option_vec 10 Option<Vec<bool>>;
    }
}

macro_rules! split {
    ($($name:ident $n:literal $t:ty;)*) => {sym::harness! {$( fn $name() { split::<$t, $n>(|r| <$t as mabo::Decode>::decode(r), |r| <$t as mabo::Decode>::decode(r)) } )*}};
}
mod s {
    use super::*;
    split! {
        w09_bool 2 bool; w09_u8 2 u8; w09_i8 2 i8;
        w09_u16 4 u16; w09_u32 6 u32; w09_u64 11 u64; w09_u128 20 u128;
        w09_i16 4 i16; w09_i32 6 i32; w09_i64 11 i64; w09_i128 20 i128;
        w09_f32 5 f32; w09_f64 9 f64;
        w09_string 5 String; w09_box_str 4 Box<str>; w09_box_bytes 6 Box<[u8]>;
        w09_vec_u8 6 Vec<u8>; w09_vec_u32 6 Vec<u32>; w09_vec_vec 5 Vec<Vec<u16>>; w09_vec_option 5 Vec<Option<u16>>;
        w09_map 5 HashMap<u8, u16>; w09_set 5 HashSet<u16>; w09_option 6 Option<u32>;
        t_w09_string 9 String; t_w09_vec_u32 9 Vec<u32>; t_w09_map 8 HashMap<u8, u16>; t_w09_vec_vec 8 Vec<Vec<u16>>;
    }
}

macro_rules! nzints {
    ($($n:ident $c:ident $t:ident $len:literal $dec:ident $nz:ident $std:ident;)*) => {sym::harness! {$(
        fn $n() { nonzero::<$t, $len>(|r| $dec(r), |r| $nz(r).map(|v| v.get()), |v| *v == 0) }
        fn $c() { total::<_, $len>(|r| $nz(r)) }
    )*}};
}
mod ni {
    use super::*;
    nzints! {
        w08_u8 w05_nz_u8 u8 2 decode_u8 decode_non_zero_u8 NonZeroU8; w08_i8 w05_nz_i8 i8 2 decode_i8 decode_non_zero_i8 NonZeroI8;
        w08_u16 w05_nz_u16 u16 4 decode_u16 decode_non_zero_u16 NonZeroU16; w08_i16 w05_nz_i16 i16 4 decode_i16 decode_non_zero_i16 NonZeroI16;
        w08_u32 w05_nz_u32 u32 6 decode_u32 decode_non_zero_u32 NonZeroU32; w08_i32 w05_nz_i32 i32 6 decode_i32 decode_non_zero_i32 NonZeroI32;
        w08_u64 w05_nz_u64 u64 11 decode_u64 decode_non_zero_u64 NonZeroU64; w08_i64 w05_nz_i64 i64 11 decode_i64 decode_non_zero_i64 NonZeroI64;
        w08_u128 w05_nz_u128 u128 20 decode_u128 decode_non_zero_u128 NonZeroU128; w08_i128 w05_nz_i128 i128 20 decode_i128 decode_non_zero_i128 NonZeroI128;
    }
}

#[inline(never)]
fn constructor<T: Same + Clone>(v: T, empty: bool, new: impl Fn(T) -> Option<NonZero<T>>) {
    let keep = v.clone();
    match new(v) {
        Some(x) => {
            sym::cover("some");
            sym::check(!empty, "an empty value is not accepted");
            sym::check(x.get().same(&keep), "holds the value (get)");
            sym::check((*x).same(&keep), "holds the value (deref)");
            sym::check(x.into_inner().same(&keep), "holds the value (into_inner)");
        }
        None => {
            sym::cover("none");
            sym::check(empty, "a non-empty value is accepted");
        }
    }
}
impl Clone for By {
    fn clone(&self) -> Self {
        By(self.0.clone())
    }
}

sym::harness! {
    fn w05_bytes_std() { total::<_, 12>(|r| decode_bytes_std(r)) }
    fn w05_bytes_bytes() { total::<_, 12>(|r| decode_bytes_bytes(r)) }
    fn w05_nz_string() { total::<_, 6>(|r| decode_non_zero_string(r)) }
    fn w05_nz_bytes_std() { total::<_, 12>(|r| decode_non_zero_bytes_std(r)) }
    fn w05_nz_bytes_bytes() { total::<_, 12>(|r| decode_non_zero_bytes_bytes(r)) }
    fn w05_nz_vec() { total::<_, 6>(|r| decode_non_zero_vec(r, |r| decode_u16(r))) }
    fn w05_nz_map() { total::<_, 6>(|r| decode_non_zero_hash_map(r, |r| decode_u8(r), |r| decode_u16(r))) }
    fn w05_nz_set() { total::<_, 6>(|r| decode_non_zero_hash_set(r, |r| decode_u16(r))) }
    fn w05_id() { total::<_, 6>(|r| decode_id(r)) }
    fn w05_variant_id() { total::<_, 6>(|r| decode_variant_id(r)) }

    fn w08_string() { nonzero::<String, 5>(|r| decode_string(r), |r| decode_non_zero_string(r).map(|v| v.into_inner()), |v| v.is_empty()) }
    fn w08_bytes_std() { nonzero::<Vec<u8>, 6>(|r| decode_bytes_std(r), |r| decode_non_zero_bytes_std(r).map(|v| v.into_inner()), |v| v.is_empty()) }
    fn w08_bytes_bytes() { nonzero::<By, 6>(|r| decode_bytes_bytes(r).map(By), |r| decode_non_zero_bytes_bytes(r).map(|v| By(v.into_inner())), |v| v.0.is_empty()) }
    fn w08_vec() { nonzero::<Vec<u16>, 5>(|r| decode_vec(r, |r| decode_u16(r)), |r| decode_non_zero_vec(r, |r| decode_u16(r)).map(|v| v.into_inner()), |v| v.is_empty()) }
    fn w08_map() { nonzero::<HashMap<u8, u16>, 5>(|r| decode_hash_map(r, |r| decode_u8(r), |r| decode_u16(r)), |r| decode_non_zero_hash_map(r, |r| decode_u8(r), |r| decode_u16(r)).map(|v| v.into_inner()), |v| v.is_empty()) }
    fn w08_set() { nonzero::<HashSet<u16>, 5>(|r| decode_hash_set(r, |r| decode_u16(r)), |r| decode_non_zero_hash_set(r, |r| decode_u16(r)).map(|v| v.into_inner()), |v| v.is_empty()) }
    fn w08_new_string() { let v = String::sym(); let e = v.len() == 0; constructor(v, e, NonZero::<String>::new) }
    fn w08_new_vec() { let v = Vec::<u32>::sym(); let e = v.len() == 0; constructor(v, e, NonZero::<Vec<u32>>::new) }
    fn w08_new_bytes() {
        let v = Bytes::from(Vec::<u8>::sym());
        match NonZero::<Bytes>::new(v.clone()) {
            Some(x) => { sym::cover("some"); sym::check(v.len() > 0 && *x.get() == v && *x == v, "holds the value") }
            None => { sym::cover("none"); sym::check(v.len() == 0, "a non-empty value is accepted") }
        }
    }
    fn w08_new_map() { let v = HashMap::<u8, u32>::sym(); let e = v.len() == 0; constructor(v, e, NonZero::<HashMap<u8, u32>>::new) }
    fn w08_new_set() { let v = HashSet::<u16>::sym(); let e = v.len() == 0; constructor(v, e, NonZero::<HashSet<u16>>::new) }

    fn w09_bytes_std() { split::<Vec<u8>, 6>(|r| decode_bytes_std(r), |r| decode_bytes_std(r)) }
    fn w09_bytes_bytes() { split::<By, 6>(|r| decode_bytes_bytes(r).map(By), |r| decode_bytes_bytes(r).map(By)) }
    fn w09_array() { split::<[u16; 1], 5>(|r| decode_array_ok(r), |r| decode_array_ok(r)) }
    fn w09_nz_string() { split::<String, 4>(|r| decode_non_zero_string(r).map(|v| v.into_inner()), |r| decode_non_zero_string(r).map(|v| v.into_inner())) }
    fn w09_nz_vec() { split::<Vec<u16>, 5>(|r| decode_non_zero_vec(r, |r| decode_u16(r)).map(|v| v.into_inner()), |r| decode_non_zero_vec(r, |r| decode_u16(r)).map(|v| v.into_inner())) }
    fn w09_nz_map() { split::<HashMap<u8, u16>, 5>(|r| decode_non_zero_hash_map(r, |r| decode_u8(r), |r| decode_u16(r)).map(|v| v.into_inner()), |r| decode_non_zero_hash_map(r, |r| decode_u8(r), |r| decode_u16(r)).map(|v| v.into_inner())) }
    fn w09_nz_set() { split::<HashSet<u16>, 5>(|r| decode_non_zero_hash_set(r, |r| decode_u16(r)).map(|v| v.into_inner()), |r| decode_non_zero_hash_set(r, |r| decode_u16(r)).map(|v| v.into_inner())) }
    fn w09_nz_u32() { split::<u32, 6>(|r| decode_non_zero_u32(r).map(|v| v.get()), |r| decode_non_zero_u32(r).map(|v| v.get())) }
    fn w09_id() { split::<(u32, u32), 6>(|r| decode_id(r).map(|i| (i.value, i.encoding as u32)), |r| decode_id(r).map(|i| (i.value, i.encoding as u32))) }
    fn w09_variant_id() { split::<u32, 6>(|r| decode_variant_id(r).map(|i| i.value), |r| decode_variant_id(r).map(|i| i.value)) }
    fn w09_skip() {
        let e = crate::keys::encoding(sym::below(5));
        split::<(), 6>(|r| decode_skip(r, e), |r| decode_skip(r, e))
    }
}

fn decode_array_ok<R: Buf>(r: &mut R) -> Result<[u16; 1]> {
    <[u16; 1] as mabo::Decode>::decode(r)
}

pub const TABLES: [&[(&str, extern "C" fn())]; 4] = [t::TABLE, s::TABLE, ni::TABLE, TABLE];
