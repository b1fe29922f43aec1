//! The variable-length integers that are kept for comparison.

#[path = "/repo/crates/mabo-benches/src/varint.rs"]
#[allow(clippy::all, dead_code, unfulfilled_lint_expectations)]
mod varint;

use varint::{bincode, postcard, vu128};

/// Arbitrary previous content of the buffer, or nothing but zeros.
fn buffer<const N: usize>() -> [u8; N] {
    if sym::bool() { sym::bytes() } else { [0; N] }
}

/// Replaces everything behind the encoding, as if another one followed it.
fn follow<const N: usize>(buf: &mut [u8; N], len: usize) {
    sym::check(len <= N, "the encoding fits into the buffer");
    let after: [u8; N] = sym::bytes();
    for i in 0..N {
        buf[i] = if i < len { buf[i] } else { after[i] };
    }
}

fn len_postcard(b: &[u8]) -> usize {
    let mut n = 0;
    while n < b.len() && b[n] & 0x80 != 0 {
        n += 1;
    }
    n + 1
}

fn len_bincode(b: &[u8]) -> usize {
    match b[0] {
        0..=250 => 1,
        251 => 3,
        252 => 5,
        253 => 9,
        254 => 17,
        255 => {
            sym::check(false, "the first byte is one of the format");
            1
        }
    }
}

fn len_vu128(b: &[u8]) -> usize {
    if b[0] < 0xf0 { 1 } else { 2 + usize::from(b[0] & 0xf) }
}

macro_rules! round {
    ($value:expr, $n:literal, $len:ident, $enc:path, $dec:path $(, $bits:ident)?) => {{
        let value = $value;
        let mut buf: [u8; $n] = buffer();
        $enc(value, &mut buf);
        let len = $len(&buf);
        follow(&mut buf, len);
        sym::observe_bytes(&buf[..len.min($n)]);
        let back = $dec(&buf);
        sym::check(back $(.$bits())? == value $(.$bits())?, "what was encoded comes back");
    }};
}

sym::harness! {
    fn b01_postcard() {
        match sym::below(2) {
            0 => round!(sym::u128(), 19, len_postcard, postcard::encode, postcard::decode),
            _ => round!(sym::u128() as i128, 19, len_postcard, postcard::encode_i128, postcard::decode_i128),
        }
    }
    fn b01_zigzag() {
        let v = sym::u128() as i128;
        sym::check(postcard::decode_zigzag(postcard::encode_zigzag(v)) == v, "what was encoded comes back");
        let u = sym::u128();
        sym::check(postcard::encode_zigzag(postcard::decode_zigzag(u)) == u, "what was decoded goes back");
    }
    fn b01_bincode() {
        match sym::below(8) {
            0 => round!(sym::u16(), 17, len_bincode, bincode::encode_u16, bincode::decode_u16),
            1 => round!(sym::u32(), 17, len_bincode, bincode::encode_u32, bincode::decode_u32),
            2 => round!(sym::u64(), 17, len_bincode, bincode::encode_u64, bincode::decode_u64),
            3 => round!(sym::u128(), 17, len_bincode, bincode::encode_u128, bincode::decode_u128),
            4 => round!(sym::u16() as i16, 17, len_bincode, bincode::encode_i16, bincode::decode_i16),
            5 => round!(sym::u32() as i32, 17, len_bincode, bincode::encode_i32, bincode::decode_i32),
            6 => round!(sym::u64() as i64, 17, len_bincode, bincode::encode_i64, bincode::decode_i64),
            _ => round!(sym::u128() as i128, 17, len_bincode, bincode::encode_i128, bincode::decode_i128),
        }
    }
    fn b01_vu128_unsigned() {
        match sym::below(5) {
            0 => round!(sym::u8(), 17, len_vu128, vu128::encode_u8, vu128::decode_u8),
            1 => round!(sym::u16(), 17, len_vu128, vu128::encode_u16, vu128::decode_u16),
            2 => round!(sym::u32(), 17, len_vu128, vu128::encode_u32, vu128::decode_u32),
            3 => round!(sym::u64(), 17, len_vu128, vu128::encode_u64, vu128::decode_u64),
            _ => round!(sym::u128(), 17, len_vu128, vu128::encode_u128, vu128::decode_u128),
        }
    }
    fn b01_vu128_signed() {
        match sym::below(5) {
            0 => round!(sym::u8() as i8, 17, len_vu128, vu128::encode_i8, vu128::decode_i8),
            1 => round!(sym::u16() as i16, 17, len_vu128, vu128::encode_i16, vu128::decode_i16),
            2 => round!(sym::u32() as i32, 17, len_vu128, vu128::encode_i32, vu128::decode_i32),
            3 => round!(sym::u64() as i64, 17, len_vu128, vu128::encode_i64, vu128::decode_i64),
            _ => round!(sym::u128() as i128, 17, len_vu128, vu128::encode_i128, vu128::decode_i128),
        }
    }
    fn b01_vu128_floats() {
        match sym::below(2) {
            0 => round!(f32::from_bits(sym::u32()), 5, len_vu128, vu128::encode_f32, vu128::decode_f32, to_bits),
            _ => round!(f64::from_bits(sym::u64()), 9, len_vu128, vu128::encode_f64, vu128::decode_f64, to_bits),
        }
    }
}

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    TABLE.to_vec()
}
