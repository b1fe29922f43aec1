//! What is told about the wire size of types, against the code generated for them.

use mabo::Encode;
use mabo_compiler::simplify::{Definition, Type};
use sym::Sym;

#[allow(clippy::all, unused)]
mod sizes {
    include!(concat!(env!("OUT_DIR"), "/mabo/sizes.rs"));
}

const SCHEMA: &str = include_str!("../schemas/sizes.mabo");

/// The smallest and largest size in what is printed about the type.
fn bounds(ty: &Type) -> (u128, Option<u128>) {
    let Some(size) = mabo_meta::wire_size(ty) else { return (0, None) };
    let mut text = String::new();
    size.print(&mut text, 0);
    sym::check(text.starts_with("**"), "the size starts with the label of the type");
    let line = text.lines().next().unwrap();
    let mut parts = line.split('`');
    let range = parts.nth(1);
    sym::check(range.is_some() && parts.next() == Some(""), "the size ends with the range");
    let number = |s: &str| {
        let n = s.parse::<u128>();
        sym::check(n.is_ok(), "the range consists of numbers");
        n.unwrap()
    };
    match range.unwrap().split_once("..") {
        Some((min, "")) => (number(min), None),
        Some((min, max)) => (number(min), Some(number(max))),
        None => (number(range.unwrap()), Some(number(range.unwrap()))),
    }
}

/// What is told about the only field of the struct.
fn told(name: &str) -> (u128, Option<u128>) {
    let s = mabo_parser::Schema::parse(SCHEMA, None).unwrap();
    let s = mabo_compiler::simplify_schema(&s);
    for d in &s.definitions {
        if let Definition::Struct(s) = d
            && s.name == name
        {
            return bounds(&s.fields.fields[0].ty);
        }
    }
    unreachable!()
}

/// The encoded size of the only field: the rest is its key, unless it is absent, and the end marker.
fn takes(v: &impl Encode) -> u128 {
    let mut out = Vec::new();
    v.encode(&mut out);
    sym::check(out.last() == Some(&0), "a struct ends with the end marker");
    let n = out.len();
    if n == 1 { 0 } else { n as u128 - 2 }
}

/// Tuples have a length in front, which is not counted but shown to the user in existing snapshots.
fn within(name: &str, v: impl Encode, tuple: bool) {
    let (min, max) = told(name);
    let n = takes(&v);
    sym::check(min <= n, "no value is smaller than the reported minimum");
    if let Some(max) = max {
        sym::cover("bounded");
        let prefix = if tuple { 1 + (n > 128) as u128 } else { 0 };
        sym::check(n <= max + prefix, "no value is larger than the reported maximum");
        sym::check(n <= max, "no value of a tuple is larger than the reported maximum");
        if n == max {
            sym::cover("largest");
        }
    }
    if n == min {
        sym::cover("smallest");
    }
}

/// The same value all over.
fn fill<T: Sym + Copy, const N: usize>() -> [T; N] {
    [T::sym(); N]
}

/// One value of `T` at any position, another one at the others.
fn mixed<T: Sym + Copy, const N: usize>() -> [T; N] {
    let mut a = fill();
    a[N - 1] = T::sym();
    a
}

macro_rules! size {
    (tuple $t:ident $v:expr) => { within(stringify!($t), sizes::$t($v), true) };
    ($t:ident $v:expr) => { within(stringify!($t), sizes::$t($v), false) };
}

/// The encoded size of a length.
fn length(n: u128) -> u128 {
    let mut k = 1;
    while n >> (7 * k) > 0 {
        k += 1;
    }
    k
}

/// Sizes around the ones where something changes.
fn count() -> u32 {
    let base = [0, 11, 62, 126, 1637, 5460, 16382, 2_097_150, 268_435_454, 536_870_910, u32::MAX - 3][sym::below(11) as usize];
    base + sym::below(4) as u32
}

sym::harness! {
    fn m02_scalars() {
        match sym::below(13) {
            0 => size!(Bool Sym::sym()),
            1 => size!(U8 Sym::sym()),
            2 => size!(U16 Sym::sym()),
            3 => size!(U32 Sym::sym()),
            4 => size!(U64 Sym::sym()),
            5 => size!(U128 Sym::sym()),
            6 => size!(I8 Sym::sym()),
            7 => size!(I16 Sym::sym()),
            8 => size!(I32 Sym::sym()),
            9 => size!(I64 Sym::sym()),
            10 => size!(I128 Sym::sym()),
            11 => size!(F32 Sym::sym()),
            _ => size!(F64 Sym::sym()),
        }
    }
    fn m02_text() {
        match sym::below(6) {
            0 => size!(Text Sym::sym()),
            1 => size!(TextRef Sym::sym()),
            2 => size!(Data Sym::sym()),
            3 => size!(DataRef Sym::sym()),
            4 => size!(BoxText Sym::sym()),
            _ => size!(BoxData Sym::sym()),
        }
    }
    fn m02_collections() {
        match sym::below(6) {
            0 => size!(VecU16 Sym::sym()),
            1 => size!(VecText Sym::sym()),
            2 => size!(VecOption Sym::sym()),
            3 => size!(Map Sym::sym()),
            4 => size!(MapText Sym::sym()),
            _ => size!(Set Sym::sym()),
        }
    }
    fn m02_options() {
        match sym::below(4) {
            0 => size!(OptionU32 Sym::sym()),
            1 => size!(OptionText Sym::sym()),
            2 => size!(OptionArray Sym::sym()),
            _ => size!(OptionOption Sym::sym()),
        }
    }
    fn m02_non_zero() {
        match sym::below(4) {
            0 => size!(NonZeroU32 Sym::sym()),
            1 => size!(NonZeroI128 Sym::sym()),
            2 => size!(NonZeroText Sym::sym()),
            _ => size!(NonZeroVec Sym::sym()),
        }
    }
    fn m02_arrays() {
        match sym::below(10) {
            0 => size!(Array3 Sym::sym()),
            1 => size!(Array20 mixed()),
            2 => size!(Array42 mixed()),
            3 => size!(Array43 mixed()),
            4 => size!(Array127 mixed()),
            5 => size!(Array128 mixed()),
            6 => size!(ArrayText Sym::sym()),
            7 => size!(ArrayOption Sym::sym()),
            8 => size!(ArrayArray [mixed(), fill()]),
            _ => size!(ArrayVec Sym::sym()),
        }
    }
    fn m02_externals() {
        let o = || sizes::Other(Sym::sym());
        match sym::below(4) {
            0 => size!(External o()),
            1 => size!(ArrayExternal [o(), o()]),
            2 => size!(VecExternal vec![o()]),
            _ => size!(OptionExternal if sym::bool() { Some(o()) } else { None }),
        }
    }
    fn m02_tuples() {
        match sym::below(7) {
            0 => size!(tuple Pair Sym::sym()),
            1 => size!(tuple PairText Sym::sym()),
            2 => size!(tuple PairOption Sym::sym()),
            3 => size!(tuple PairExternal (sizes::Other(Sym::sym()), Sym::sym())),
            4 => {
                let (a, b) = (u128::sym(), i128::sym());
                size!(tuple Wide (a, b, a, b, a, b, a))
            }
            5 => size!(tuple PairPair Sym::sym()),
            _ => size!(VecPair Sym::sym()),
        }
    }
    fn m02_tuples_inside() {
        match sym::below(2) {
            0 => size!(ArrayPair mixed()),
            _ => size!(OptionPair Sym::sym()),
        }
    }
    // Arrays too large to encode: from the sizes of the elements.
    fn m02_counts() {
        let n = count();
        let (ty, low, high) = match sym::below(7) {
            0 => (Type::Bool, 1, Some(1)),
            1 => (Type::U16, 1, Some(3)),
            2 => (Type::I64, 1, Some(10)),
            3 => (Type::F64, 8, Some(8)),
            4 => (Type::U128, 1, Some(19)),
            5 => (Type::String, 1, None),
            _ => (Type::Array(Box::new(Type::F32), 2), 9, Some(9)),
        };
        let (min, max) = bounds(&Type::Array(Box::new(ty), n));
        let n = n as u128;
        sym::check(min <= n * low + length(n * low), "the smallest array is not smaller than the reported minimum");
        if let Some(max) = max {
            sym::check(high.is_some_and(|high| n * high + length(n * high) <= max), "the largest array is not larger than the reported maximum");
        }
    }
    fn m02_deep() {
        let n: [u32; 3] = std::array::from_fn(|_| [0, 1, 3, 1 << 16, 1 << 29, u32::MAX][sym::below(6) as usize]);
        let kind = sym::below(3);
        let ty = || {
            let leaf = [Type::Bool, Type::U128, Type::String].into_iter().nth(kind as usize).unwrap();
            n.into_iter().fold(leaf, |ty, n| Type::Array(Box::new(ty), n))
        };
        let (min, max) = bounds(&ty());
        sym::check(max.is_none_or(|max| min <= max), "the minimum is not larger than the maximum");
        let (_, all) = bounds(&Type::Tuple(vec![Type::U8, ty(), ty()].into()));
        sym::check(all.is_none_or(|all| max.is_some_and(|max| all >= 2 * max)), "the maximum of a tuple contains that of the elements");
    }
    // Any number of elements, as the parser accepts it, including products beyond any memory.
    fn m02_total() {
        let a = sym::u32();
        let b = [0, 3, 1 << 16, u32::MAX][sym::below(4) as usize];
        let c = [1, 1 << 29, u32::MAX][sym::below(3) as usize];
        let ty = match sym::below(4) {
            0 => Type::U128,
            1 => Type::String,
            2 => Type::Option(Box::new(Type::F64)),
            _ => Type::Bool,
        };
        let ty = Type::Array(Box::new(ty), a);
        let ty = match sym::below(3) {
            0 => ty,
            1 => Type::Tuple(vec![Type::U8, ty, Type::Array(Box::new(Type::F64), c)].into()),
            _ => Type::Option(Box::new(ty)),
        };
        let ty = Type::Array(Box::new(ty), b);
        sym::check(mabo_meta::wire_size(&ty).is_some(), "the size of an array is known");
    }
}

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    TABLE.to_vec()
}
