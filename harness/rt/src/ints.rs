//! W01, W02.

use bytes::Buf;
use sym::wire::{self, Wire};

macro_rules! ints {
    ($($t:ident $rt:ident $enc:ident $dec:ident $bits:literal $max:literal;)*) => {
        mabo_ints! {$($t $rt $enc $dec $bits $max;)*}
    };
}

macro_rules! mabo_ints {
    ($($t:ident $rt:ident $enc:ident $dec:ident $bits:literal $max:literal;)*) => {sym::harness! {$(
        /// W01: round trip, exact size, nothing else consumed.
        fn $rt() {
            let v = <$t as sym::Sym>::sym();
            let (buf, n) = paste_call!(encode $t)(v);
            sym::observe(n as u64);
            sym::check(n >= 1 && n <= $max && n <= buf.len(), "encoded length within the documented maximum");
            sym::check(paste_call!(size $t)(v) == n, "size is the encoded length");
            let mut all = buf[..n].to_vec();
            let tail: [u8; 2] = sym::bytes();
            all.extend_from_slice(&tail);
            let r = paste_call!(decode $t)(&all);
            sym::check(matches!(r, Ok((w, k)) if w == v && k == n), "decodes to the same value and length");
            // The same through the buffer interface.
            let mut w = Vec::new();
            paste_buf!(encode $t)(&mut w, v);
            sym::observe_bytes(&w);
            sym::check(w[..] == buf[..n], "buffer encoder writes the same bytes");
            sym::check(paste_buf!(size $t)(v) == w.len(), "buffer size is the encoded length");
            w.extend_from_slice(&tail);
            let mut r = &w[..];
            let d = paste_buf!(decode $t)(&mut r);
            sym::check(matches!(d, Ok(x) if x == v), "buffer decoder gives the same value");
            sym::check(r.len() == 2 && r[0] == tail[0] && r[1] == tail[1], "buffer decoder leaves what follows");
            let mut w = Vec::new();
            mabo::Encode::encode(&v, &mut w);
            sym::check(w[..] == buf[..n] && mabo::buf::Size::size(&v) == n, "trait encoder agrees");
            let mut r = &w[..];
            let d = <$t as mabo::Decode>::decode(&mut r);
            sym::check(matches!(d, Ok(x) if x == v) && r.is_empty(), "trait decoder agrees");
            if n == $max { sym::cover("longest") }
            if n == 1 { sym::cover("shortest") }
        }

        /// W02: the bytes are the documented ones.
        fn $enc() {
            let v = <$t as sym::Sym>::sym();
            let (buf, n) = paste_call!(encode $t)(v);
            let spec = v.to_wire();
            sym::observe_bytes(&buf[..n]);
            sym::check(buf[..n] == spec[..], "canonical bytes");
            let mut w = Vec::new();
            paste_buf!(encode $t)(&mut w, v);
            sym::check(w == spec, "canonical bytes from the buffer encoder");
            if n == $max { sym::cover("longest") }
        }

        /// W02: arbitrary bytes.
        fn $dec() {
            let mut b = [0; $max + 1];
            let s = sym::slice(&mut b);
            let r = paste_call!(decode $t)(s);
            let mut rest = s;
            let rb = paste_buf!(decode $t)(&mut rest);
            match wire::varint_end(s, $max) {
                None => {
                    sym::cover("no end");
                    sym::check(r.is_err(), "no terminator is an error");
                    sym::check(matches!(rb, Err(_)), "no terminator is an error in the buffer decoder");
                }
                Some(n) => {
                    if let Some(x) = wire::varint_value(&s[..n], $bits) {
                        sym::cover("value");
                        let want = unzig!($t, x);
                        sym::observe(want as u64);
                        sym::check(matches!(r, Ok((v, k)) if v == want && k == n), "denoted value and length");
                        sym::check(matches!(rb, Ok(v) if v == want) && rest.remaining() == s.len() - n, "denoted value from the buffer decoder");
                    } else {
                        sym::cover("too large");
                        sym::check(!matches!(r, Ok((_, k)) if k != n), "length of an oversized value");
                    }
                }
            }
        }
    )*}};
}

macro_rules! paste_call {
    (encode u16) => { mabo::varint::encode_u16 }; (encode u32) => { mabo::varint::encode_u32 }; (encode u64) => { mabo::varint::encode_u64 }; (encode u128) => { mabo::varint::encode_u128 };
    (encode i16) => { mabo::varint::encode_i16 }; (encode i32) => { mabo::varint::encode_i32 }; (encode i64) => { mabo::varint::encode_i64 }; (encode i128) => { mabo::varint::encode_i128 };
    (decode u16) => { mabo::varint::decode_u16 }; (decode u32) => { mabo::varint::decode_u32 }; (decode u64) => { mabo::varint::decode_u64 }; (decode u128) => { mabo::varint::decode_u128 };
    (decode i16) => { mabo::varint::decode_i16 }; (decode i32) => { mabo::varint::decode_i32 }; (decode i64) => { mabo::varint::decode_i64 }; (decode i128) => { mabo::varint::decode_i128 };
    (size u16) => { mabo::varint::size_u16 }; (size u32) => { mabo::varint::size_u32 }; (size u64) => { mabo::varint::size_u64 }; (size u128) => { mabo::varint::size_u128 };
    (size i16) => { mabo::varint::size_i16 }; (size i32) => { mabo::varint::size_i32 }; (size i64) => { mabo::varint::size_i64 }; (size i128) => { mabo::varint::size_i128 };
}
macro_rules! paste_buf {
    (encode u16) => { mabo::buf::encode_u16 }; (encode u32) => { mabo::buf::encode_u32 }; (encode u64) => { mabo::buf::encode_u64 }; (encode u128) => { mabo::buf::encode_u128 };
    (encode i16) => { mabo::buf::encode_i16 }; (encode i32) => { mabo::buf::encode_i32 }; (encode i64) => { mabo::buf::encode_i64 }; (encode i128) => { mabo::buf::encode_i128 };
    (decode u16) => { mabo::buf::decode_u16 }; (decode u32) => { mabo::buf::decode_u32 }; (decode u64) => { mabo::buf::decode_u64 }; (decode u128) => { mabo::buf::decode_u128 };
    (decode i16) => { mabo::buf::decode_i16 }; (decode i32) => { mabo::buf::decode_i32 }; (decode i64) => { mabo::buf::decode_i64 }; (decode i128) => { mabo::buf::decode_i128 };
    (size u16) => { mabo::buf::size_u16 }; (size u32) => { mabo::buf::size_u32 }; (size u64) => { mabo::buf::size_u64 }; (size u128) => { mabo::buf::size_u128 };
    (size i16) => { mabo::buf::size_i16 }; (size i32) => { mabo::buf::size_i32 }; (size i64) => { mabo::buf::size_i64 }; (size i128) => { mabo::buf::size_i128 };
}
/// Undo the zig-zag mapping by arithmetic on the parity.
macro_rules! unzig {
    (u16, $x:expr) => { $x as u16 }; (u32, $x:expr) => { $x as u32 }; (u64, $x:expr) => { $x as u64 }; (u128, $x:expr) => { $x };
    ($t:ident, $x:expr) => {{ let x: u128 = $x; if x % 2 == 0 { (x / 2) as i128 as $t } else { (-((x / 2) as i128) - 1) as $t } }};
}

ints! {
    u16 w01_u16 w02_enc_u16 w02_dec_u16 16 3;
    u32 w01_u32 w02_enc_u32 w02_dec_u32 32 5;
    u64 w01_u64 w02_enc_u64 w02_dec_u64 64 10;
    u128 w01_u128 w02_enc_u128 w02_dec_u128 128 19;
    i16 w01_i16 w02_enc_i16 w02_dec_i16 16 3;
    i32 w01_i32 w02_enc_i32 w02_dec_i32 32 5;
    i64 w01_i64 w02_enc_i64 w02_dec_i64 64 10;
    i128 w01_i128 w02_enc_i128 w02_dec_i128 128 19;
}
