//! W03, W04, W06, W10: whole values.

use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

use bytes::Bytes;
use mabo::buf::*;
use sym::wire::{self, Wire};
use sym::{Same, Sym};

/// Encode, append arbitrary bytes, decode.
#[inline(never)]
fn round<T: Same>(v: &T, enc: impl Fn(&mut Vec<u8>, &T), dec: impl Fn(&mut &[u8]) -> Result<T>) {
    let mut w = Vec::new();
    enc(&mut w, v);
    let n = w.len();
    sym::observe(n as u64);
    let tail: [u8; 2] = sym::bytes();
    w.extend_from_slice(&tail);
    let mut r = &w[..];
    let d = dec(&mut r);
    sym::check(d.is_ok(), "decodes");
    let Ok(d) = d else { return };
    sym::check(d.same(v), "same value");
    sym::check(r.len() == 2 && r[0] == tail[0] && r[1] == tail[1], "consumes exactly the encoding");
}

/// Encode, cut, decode.
#[inline(never)]
fn cut<T>(v: &T, enc: impl Fn(&mut Vec<u8>, &T), dec: impl Fn(&mut &[u8]) -> Result<T>) {
    let mut w = Vec::new();
    enc(&mut w, v);
    let k = sym::u8() as usize;
    sym::assume(k < w.len());
    let k = sym::pin(k as u64) as usize;
    let mut r = &w[..k];
    let d = dec(&mut r);
    sym::cover("cut");
    sym::check(d.is_err(), "a truncated encoding is an error");
}

#[inline(never)]
fn sized<T>(v: &T, enc: impl Fn(&mut Vec<u8>, &T), size: impl Fn(&T) -> usize) {
    let mut w = Vec::new();
    enc(&mut w, v);
    sym::observe(w.len() as u64);
    sym::check(size(v) == w.len(), "computed size is the encoded length");
}

#[inline(never)]
fn layout<T: Wire + ?Sized>(v: &T, enc: impl Fn(&mut Vec<u8>, &T)) {
    let mut w = Vec::new();
    enc(&mut w, v);
    sym::observe(w.len() as u64);
    sym::check(w == v.to_wire(), "documented bytes");
}

fn e<T: mabo::Encode>(w: &mut Vec<u8>, v: &T) {
    v.encode(w);
}
fn d<T: mabo::Decode>(r: &mut &[u8]) -> Result<T> {
    T::decode(r)
}
fn s<T: mabo::buf::Size>(v: &T) -> usize {
    v.size()
}

// Types for which there is no trait implementation, through the functions.
#[derive(Clone)]
struct By(Bytes);
impl Same for By {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Sym for By {
    fn sym() -> Self {
        By(Bytes::from(Vec::<u8>::sym()))
    }
}
impl Wire for By {
    fn wire(&self, out: &mut Vec<u8>) {
        wire::prefixed(&self.0, out);
    }
}
struct Bs(Vec<u8>);
impl Same for Bs {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Sym for Bs {
    fn sym() -> Self {
        Bs(sym::vec(3))
    }
}
impl Wire for Bs {
    fn wire(&self, out: &mut Vec<u8>) {
        wire::prefixed(&self.0, out);
    }
}
fn e_by(w: &mut Vec<u8>, v: &By) {
    encode_bytes_bytes(w, &v.0);
}
fn d_by(r: &mut &[u8]) -> Result<By> {
    decode_bytes_bytes(r).map(By)
}
fn e_bs(w: &mut Vec<u8>, v: &Bs) {
    encode_bytes_std(w, &v.0);
}
fn d_bs(r: &mut &[u8]) -> Result<Bs> {
    decode_bytes_std(r).map(Bs)
}

/// Non-empty, for the non-zero wrappers (which have no `Decode` implementation).
struct Nz<T>(mabo::NonZero<T>);
macro_rules! nz {
    ($($t:ty, $enc:expr, $dec:expr, $size:expr;)*) => {$(
        impl Same for Nz<$t> {
            fn same(&self, o: &Self) -> bool { self.0.get().same(o.0.get()) }
        }
        impl Sym for Nz<$t> {
            fn sym() -> Self {
                let v = <$t>::sym();
                sym::assume(!v.is_empty());
                match mabo::NonZero::<$t>::new(v) { Some(v) => Nz(v), None => { sym::check(false, "non-empty value accepted"); sym::assume(false); unreachable!() } }
            }
        }
        impl Wire for Nz<$t> {
            fn wire(&self, out: &mut Vec<u8>) { self.0.get().wire(out) }
        }
        impl NzCodec for Nz<$t> {
            fn e(w: &mut Vec<u8>, v: &Self) { let f: fn(&mut Vec<u8>, &mabo::NonZero<$t>) = $enc; f(w, &v.0) }
            fn d(r: &mut &[u8]) -> Result<Self> { let f: fn(&mut &[u8]) -> Result<mabo::NonZero<$t>> = $dec; f(r).map(Nz) }
            fn s(v: &Self) -> usize { let f: fn(&mabo::NonZero<$t>) -> usize = $size; f(&v.0) }
        }
    )*};
}
trait NzCodec: Sized {
    fn e(w: &mut Vec<u8>, v: &Self);
    fn d(r: &mut &[u8]) -> Result<Self>;
    fn s(v: &Self) -> usize;
}
nz! {
    String, |w, v| encode_string(w, v.get()), |r| decode_non_zero_string(r), |v| size_string(v.get());
    Vec<u8>, |w, v| encode_bytes_std(w, v.get()), |r| decode_non_zero_bytes_std(r), |v| size_bytes_std(v.get());
    Vec<u32>, |w, v| mabo::Encode::encode(v, w), |r| decode_non_zero_vec(r, |r| decode_u32(r)), |v| mabo::buf::Size::size(v);
    HashMap<u8, u32>, |w, v| mabo::Encode::encode(v, w), |r| decode_non_zero_hash_map(r, |r| decode_u8(r), |r| decode_u32(r)), |v| mabo::buf::Size::size(v);
    HashSet<u32>, |w, v| mabo::Encode::encode(v, w), |r| decode_non_zero_hash_set(r, |r| decode_u32(r)), |v| mabo::buf::Size::size(v);
}
fn nzc<T: NzCodec + Same + Wire>(v: T, what: u8) {
    match what {
        3 => round(&v, T::e, T::d),
        4 => sized(&v, T::e, T::s),
        6 => cut(&v, T::e, T::d),
        _ => layout(&v, T::e),
    }
}

macro_rules! all {
    ($($t:ty, $w03:ident $w04:ident $w06:ident $w10:ident;)*) => {sym::harness! {$(
        fn $w03() { round(&<$t>::sym(), e::<$t>, d::<$t>) }
        fn $w04() { sized(&<$t>::sym(), e::<$t>, s::<$t>) }
        fn $w06() { cut(&<$t>::sym(), e::<$t>, d::<$t>) }
        fn $w10() { layout(&<$t>::sym(), e::<$t>) }
    )*}};
}

mod by_trait {
    use super::*;
    all! {
        bool, w03_bool w04_bool w06_bool w10_bool;
        u8, w03_u8 w04_u8 w06_u8 w10_u8;
        i8, w03_i8 w04_i8 w06_i8 w10_i8;
        u16, w03_u16 w04_u16 w06_u16 w10_u16;
        u32, w03_u32 w04_u32 w06_u32 w10_u32;
        u64, w03_u64 w04_u64 w06_u64 w10_u64;
        u128, w03_u128 w04_u128 w06_u128 w10_u128;
        i16, w03_i16 w04_i16 w06_i16 w10_i16;
        i32, w03_i32 w04_i32 w06_i32 w10_i32;
        i64, w03_i64 w04_i64 w06_i64 w10_i64;
        i128, w03_i128 w04_i128 w06_i128 w10_i128;
        f32, w03_f32 w04_f32 w06_f32 w10_f32;
        f64, w03_f64 w04_f64 w06_f64 w10_f64;
        String, w03_string w04_string w06_string w10_string;
        Box<str>, w03_box_str w04_box_str w06_box_str w10_box_str;
        Box<[u8]>, w03_box_bytes w04_box_bytes w06_box_bytes w10_box_bytes;
        Vec<u8>, w03_vec_u8 w04_vec_u8 w06_vec_u8 w10_vec_u8;
        Vec<bool>, w03_vec_bool w04_vec_bool w06_vec_bool w10_vec_bool;
        Vec<u32>, w03_vec_u32 w04_vec_u32 w06_vec_u32 w10_vec_u32;
        Vec<i16>, w03_vec_i16 w04_vec_i16 w06_vec_i16 w10_vec_i16;
        Vec<f64>, w03_vec_f64 w04_vec_f64 w06_vec_f64 w10_vec_f64;
        Vec<Box<[u8]>>, w03_vec_bytes w04_vec_bytes w06_vec_bytes w10_vec_bytes;
        Vec<Vec<u16>>, w03_vec_vec w04_vec_vec w06_vec_vec w10_vec_vec;
        Vec<Option<u16>>, w03_vec_option w04_vec_option w06_vec_option w10_vec_option;
        HashMap<u8, u32>, w03_map w04_map w06_map w10_map;
        HashMap<u32, Vec<u8>>, w03_map_vec w04_map_vec w06_map_vec w10_map_vec;
        HashMap<Box<[u8]>, bool>, w03_map_bytes w04_map_bytes w06_map_bytes w10_map_bytes;
        HashSet<u16>, w03_set w04_set w06_set w10_set;
        HashSet<bool>, w03_set_bool w04_set_bool w06_set_bool w10_set_bool;
        Option<u32>, w03_option w04_option w06_option w10_option;
        Option<Vec<u16>>, w03_option_vec w04_option_vec w06_option_vec w10_option_vec;
        Option<Option<u8>>, w03_option_option w04_option_option w06_option_option w10_option_option;
        [u16; 2], w03_array w04_array w06_array w10_array;
        [Vec<u8>; 2], w03_array_vec w04_array_vec w06_array_vec w10_array_vec;
        [bool; 0], w03_array_empty w04_array_empty w06_array_empty w10_array_empty;
        Vec<[i32; 1]>, w03_vec_array w04_vec_array w06_vec_array w10_vec_array;
        Rc<u32>, w03_rc w04_rc w06_rc w10_rc;
        Arc<Vec<u8>>, w03_arc w04_arc w06_arc w10_arc;
        Cow<'static, u64>, w03_cow w04_cow w06_cow w10_cow;
    }
}

sym::harness! {
    fn w03_bytes() { round(&By::sym(), e_by, d_by) }
    fn w04_bytes() { sized(&By::sym(), e_by, |v| size_bytes_bytes(&v.0)) }
    fn w06_bytes() { cut(&By::sym(), e_by, d_by) }
    fn w10_bytes() { layout(&By::sym(), e_by) }
    fn w03_bytes_std() { round(&Bs::sym(), e_bs, d_bs) }
    fn w04_bytes_std() { sized(&Bs::sym(), e_bs, |v| size_bytes_std(&v.0)) }
    fn w06_bytes_std() { cut(&Bs::sym(), e_bs, d_bs) }
    fn w10_bytes_std() { layout(&Bs::sym(), e_bs) }

    fn w03_nz_string() { nzc(Nz::<String>::sym(), 3) }
    fn w04_nz_string() { nzc(Nz::<String>::sym(), 4) }
    fn w06_nz_string() { nzc(Nz::<String>::sym(), 6) }
    fn w10_nz_string() { nzc(Nz::<String>::sym(), 10) }
    fn w03_nz_bytes() { nzc(Nz::<Vec<u8>>::sym(), 3) }
    fn w04_nz_bytes() { nzc(Nz::<Vec<u8>>::sym(), 4) }
    fn w06_nz_bytes() { nzc(Nz::<Vec<u8>>::sym(), 6) }
    fn w10_nz_bytes() { nzc(Nz::<Vec<u8>>::sym(), 10) }
    fn w03_nz_vec() { nzc(Nz::<Vec<u32>>::sym(), 3) }
    fn w04_nz_vec() { nzc(Nz::<Vec<u32>>::sym(), 4) }
    fn w06_nz_vec() { nzc(Nz::<Vec<u32>>::sym(), 6) }
    fn w10_nz_vec() { nzc(Nz::<Vec<u32>>::sym(), 10) }
    fn w03_nz_map() { nzc(Nz::<HashMap<u8, u32>>::sym(), 3) }
    fn w04_nz_map() { nzc(Nz::<HashMap<u8, u32>>::sym(), 4) }
    fn w06_nz_map() { nzc(Nz::<HashMap<u8, u32>>::sym(), 6) }
    fn w10_nz_map() { nzc(Nz::<HashMap<u8, u32>>::sym(), 10) }
    fn w03_nz_set() { nzc(Nz::<HashSet<u32>>::sym(), 3) }
    fn w04_nz_set() { nzc(Nz::<HashSet<u32>>::sym(), 4) }
    fn w06_nz_set() { nzc(Nz::<HashSet<u32>>::sym(), 6) }
    fn w10_nz_set() { nzc(Nz::<HashSet<u32>>::sym(), 10) }

    /// Borrowed slices encode like vectors.
    fn w10_slice() { let v = Vec::<u32>::sym(); layout(&&v[..], |w, v| mabo::Encode::encode(v, w)) }
    fn w04_slice() { let v = Vec::<u32>::sym(); sized(&&v[..], |w, v| mabo::Encode::encode(v, w), |v| mabo::buf::Size::size(v)) }

    // Lengths on both sides of the one-byte prefix, and of the two-byte one, with few elements.
    fn w03_long_bytes() { round(&Bs(long()), e_bs, d_bs) }
    fn w04_long_bytes() { sized(&Bs(long()), e_bs, |v| size_bytes_std(&v.0)) }
    fn w10_long_bytes() { layout(&Bs(long()), e_bs) }
    fn w06_long_bytes() {
        let mut w = Vec::new();
        encode_bytes_std(&mut w, &long());
        let k = sym::below(4) as usize + 1;
        let mut r = &w[..w.len() - k.min(w.len())];
        sym::check(decode_bytes_std(&mut r).is_err(), "a truncated encoding is an error");
    }
    fn w03_long_string() { round(&long_string(), e::<String>, d::<String>) }
    fn w04_long_string() { sized(&long_string(), e::<String>, s::<String>) }
    fn w10_long_string() { layout(&long_string(), e::<String>) }
    fn w03_long_vec() { round(&vec![Box::<[u8]>::from(long())], e, d) }
    fn w04_long_vec() { sized(&vec![Box::<[u8]>::from(long())], e, s) }
    fn w10_long_vec() { layout(&vec![Box::<[u8]>::from(long())], e) }
    fn w03_long_f64() { round(&long_f64(), e, d) }
    fn w04_long_f64() { sized(&long_f64(), e, s) }
    fn w10_long_f64() { layout(&long_f64(), e) }
    fn w03_long_map() { round(&HashMap::from([(sym::u8(), Box::<[u8]>::from(long()))]), e, d) }
    fn w04_long_map() { sized(&HashMap::from([(sym::u8(), Box::<[u8]>::from(long()))]), e, s) }
    fn w10_long_map() { layout(&HashMap::from([(sym::u8(), Box::<[u8]>::from(long()))]), e) }
    fn w03_long_set() { round(&HashSet::from([Box::<[u8]>::from(long())]), e, d) }
    fn w04_long_set() { sized(&HashSet::from([Box::<[u8]>::from(long())]), e, s) }
    fn w10_long_set() { layout(&HashSet::from([Box::<[u8]>::from(long())]), e) }
    fn w03_long_array() { round(&[Box::<[u8]>::from(long()), Box::from([])], e, d) }
    fn w04_long_array() { sized(&[Box::<[u8]>::from(long()), Box::from([])], e, s) }
    fn w10_long_array() { layout(&[Box::<[u8]>::from(long()), Box::from([])], e) }
    fn w03_wide_array() { round(&wide_array(), e, d) }
    fn w04_wide_array() { sized(&wide_array(), e, s) }
    fn w10_wide_array() { layout(&wide_array(), e) }
    fn w03_long_nested() { round(&vec![vec![Box::<[u8]>::from(long())], vec![]], e, d) }
    fn w04_long_nested() { sized(&vec![vec![Box::<[u8]>::from(long())], vec![]], e, s) }
    fn w10_long_nested() { layout(&vec![vec![Box::<[u8]>::from(long())], vec![]], e) }
}

/// Byte strings around the lengths where a length prefix grows, with a free first byte.
fn long() -> Vec<u8> {
    let n = match sym::below(8) {
        0 => 0,
        1 => 1,
        2 => 125,
        3 => 126,
        4 => 127,
        5 => 128,
        6 => 129,
        _ => 16383,
    };
    let mut v = vec![0x55; n];
    if n > 0 {
        v[0] = sym::u8();
    }
    v
}
fn long_string() -> String {
    let n = 124 + sym::below(6) as usize;
    let mut s = "x".repeat(n);
    s.push(char::sym());
    s
}
fn long_f64() -> Vec<f64> {
    let n = 15 + sym::below(3) as usize;
    let mut v = vec![1.5; n];
    v[0] = f64::sym();
    v
}
fn wide_array() -> [u64; 20] {
    let mut a = [1; 20];
    a[0] = u64::sym();
    let k = [1, 11, 12, 13][sym::below(4) as usize];
    for x in &mut a[1..k] {
        *x = u64::MAX;
    }
    a
}

pub const TABLES: [&[(&str, extern "C" fn())]; 2] = [by_trait::TABLE, TABLE];
