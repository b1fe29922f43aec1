//! What numbers, literals and names in a schema mean.

use mabo_parser::{DataType, Definition, Fields, LiteralValue, Schema};

/// `N` arbitrary digits.
fn digits<const N: usize>() -> [u8; N] {
    let d: [u8; N] = sym::bytes();
    for c in &d {
        sym::assume(c.is_ascii_digit());
    }
    d
}

fn value(d: &[u8]) -> u64 {
    d.iter().fold(0u64, |a, c| a.saturating_mul(10).saturating_add((c - b'0') as u64))
}

fn with(pre: &str, hole: &[u8], post: &str, f: impl FnOnce(Result<Schema, mabo_parser::error::ParseSchemaError>)) {
    let v = [pre.as_bytes(), hole, post.as_bytes()].concat();
    if let Ok(s) = std::str::from_utf8(&v) {
        f(Schema::parse(s, None))
    }
}

fn first<'a, 'b>(s: &'a Schema<'b>) -> &'a Definition<'b> {
    sym::check(s.definitions.len() == 1, "one definition is parsed");
    &s.definitions[0]
}

/// A number of up to 32 bit: no superfluous zeros, and no wrapping. `?` is any digit.
fn number(mask: &str, pre: &str, post: &str, get: fn(&Schema) -> Option<u64>) {
    let d = fill(mask);
    let want = value(&d);
    with(pre, &d, post, |r| match r {
        Ok(s) => {
            sym::cover("accepted");
            sym::check(want <= u32::MAX as u64, "a number of more than 32 bit is rejected");
            sym::check(get(&s) == Some(want), "the number has the value of its digits");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(want > u32::MAX as u64 || (d.len() > 1 && d[0] == b'0'), "a number of up to 32 bit is accepted");
        }
    })
}

/// The digits with an arbitrary one for each `?`.
fn fill(mask: &str) -> Vec<u8> {
    let d = digits::<4>();
    let mut d = d.iter();
    mask.bytes().map(|c| if c == b'?' { *d.next().unwrap() } else { c }).collect()
}

fn field_id(s: &Schema) -> Option<u64> {
    match first(s) {
        Definition::Struct(s) => match &s.fields {
            Fields::Named(_, f) => f.values().next().unwrap().id.map(|i| i.get() as u64),
            Fields::Unnamed(_, f) => f.values().next().unwrap().id.map(|i| i.get() as u64),
            Fields::Unit => None,
        },
        Definition::Enum(e) => e.variants.values().next().unwrap().id.map(|i| i.get() as u64),
        _ => None,
    }
}

fn array_size(s: &Schema) -> Option<u64> {
    match first(s) {
        Definition::TypeAlias(a) => match &a.target.value {
            DataType::Array { size, .. } => Some(*size as u64),
            _ => None,
        },
        _ => None,
    }
}

fn literal<'a>(s: &'a Schema) -> &'a LiteralValue {
    match first(s) {
        Definition::Const(c) => &c.value.value,
        _ => {
            sym::check(false, "a const is parsed");
            unreachable!()
        }
    }
}

fn integer(mask: &str) {
    let d = fill(mask);
    let sign = ["", "-", "+"][sym::below(3) as usize];
    let want = value(&d) as i128 * if sign == "-" { -1 } else { 1 };
    let hole = [sign.as_bytes(), &d].concat();
    with("const A: i64 = ", &hole, ";", |r| {
        sym::check(r.is_ok(), "an integer is accepted");
        sym::check(*literal(&r.unwrap()) == LiteralValue::Int(want), "an integer has the value of its digits");
    })
}

/// The literal of a byte string: its elements, or none if it is invalid.
fn byte_string(h: &[u8]) -> Option<([u8; 8], usize)> {
    let mut o = [0; 8];
    let (mut n, mut i) = (0, 0);
    let ws = |i: &mut usize| {
        while *i < h.len() && matches!(h[*i], b' ' | b'\t' | b'\r' | b'\n') {
            *i += 1;
        }
    };
    loop {
        ws(&mut i);
        if n > 0 && i == h.len() {
            return Some((o, n));
        }
        let s = i;
        let mut v = 0u32;
        while i < h.len() && h[i].is_ascii_digit() {
            v = v * 10 + (h[i] - b'0') as u32;
            i += 1;
        }
        if i == s || v > 255 || (i - s > 1 && h[s] == b'0') {
            return None;
        }
        o[n] = v as u8;
        n += 1;
        ws(&mut i);
        if i == h.len() {
            return Some((o, n));
        }
        if h[i] != b',' {
            return None;
        }
        i += 1;
    }
}

enum Text {
    Valid([char; 8], usize),
    Invalid,
    /// Ends before the closing quote.
    Short,
}

fn string(h: &str) -> Text {
    let mut o = ['\0'; 8];
    let mut n = 0;
    let mut c = h.chars().peekable();
    while let Some(x) = c.next() {
        o[n] = match x {
            '"' => return Text::Short,
            '\\' => match c.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some('b') => '\u{8}',
                Some('f') => '\u{c}',
                Some('0') => '\0',
                Some(x @ ('\\' | '/' | '"')) => x,
                Some(' ' | '\t' | '\r' | '\n') => {
                    while matches!(c.peek(), Some(' ' | '\t' | '\r' | '\n')) {
                        c.next();
                    }
                    continue;
                }
                Some('u') => {
                    if c.next() != Some('{') {
                        return Text::Invalid;
                    }
                    let mut v = 0;
                    let mut k = 0;
                    loop {
                        match c.next() {
                            Some('}') => break,
                            Some(x) => match x.to_digit(16) {
                                Some(d) if k < 6 => v = v * 16 + d,
                                _ => return Text::Invalid,
                            },
                            None => return Text::Invalid,
                        }
                        k += 1;
                    }
                    match char::from_u32(v) {
                        Some(x) if k > 0 => x,
                        _ => return Text::Invalid,
                    }
                }
                // the closing quote is escaped
                None => return Text::Short,
                Some(_) => return Text::Invalid,
            },
            x => x,
        };
        n += 1;
    }
    Text::Valid(o, n)
}

fn strings<const N: usize>(pre: &str, post: &str) {
    let mut b = [0; N];
    let h = sym::slice(&mut b);
    let text = [pre.as_bytes(), h, post.as_bytes()].concat();
    let Ok(inner) = std::str::from_utf8(&text) else { return };
    let want = string(inner);
    with("const A: string = \"", inner.as_bytes(), "\";", |r| match want {
        Text::Valid(c, n) => {
            sym::cover("valid");
            sym::check(r.is_ok(), "a string is accepted");
            let s = r.unwrap();
            let LiteralValue::String(v) = literal(&s) else { return sym::check(false, "a string literal is a string") };
            sym::check(v.chars().eq(c[..n].iter().copied()), "a string has the characters written");
        }
        Text::Invalid => {
            sym::cover("invalid");
            sym::check(r.is_err(), "an invalid escape is rejected");
        }
        Text::Short => sym::cover("closed"),
    })
}

fn byte_strings<const N: usize>(pre: &str, post: &str) {
    let mut b = [0; N];
    let h = sym::slice(&mut b);
    let inner = [pre.as_bytes(), h, post.as_bytes()].concat();
    sym::assume(!h.contains(&b']') && !h.contains(&b';'));
    let want = byte_string(&inner);
    with("const A: bytes = [", &inner, "];", |r| match want {
        Some((o, n)) => {
            sym::cover("valid");
            sym::check(r.is_ok(), "a byte string is accepted");
            let s = r.unwrap();
            let LiteralValue::Bytes(v) = literal(&s) else { return sym::check(false, "a byte string literal is a byte string") };
            sym::check(v[..] == o[..n], "a byte string has the bytes written");
        }
        None => {
            sym::cover("invalid");
            sym::check(r.is_err(), "an invalid byte string is rejected");
        }
    })
}

macro_rules! numbers {
    ($($f:ident $mask:literal ($pre:literal, $post:literal, $get:ident),)*) => {
        sym::harness! { $(fn $f() { number($mask, $pre, $post, $get) })* }
    };
}

pub mod ids {
    use super::*;
    numbers! {
        s05_field_1 "?" ("struct A { a: u8 @", " }", field_id),
        s05_field_2 "??" ("struct A { a: u8 @", ", b: u8 }", field_id),
        s05_field_4 "????" ("struct A(u8 @", ")", field_id),
        s05_field_9 "??999999?" ("struct A(u8 @", ")", field_id),
        s05_field_limit "4294967???" ("struct A(u8 @", ")", field_id),
        s05_field_high "??94967295" ("struct A { a: u8 @", "}", field_id),
        s05_field_long "1????000000" ("struct A(u8 @", ")", field_id),
        s05_field_longer "1844674407370955??1?" ("struct A(u8 @", ")", field_id),
        s05_variant_1 "?" ("enum A { B @", " }", field_id),
        s05_variant_4 "????" ("enum A { B(u8 @7) @", ", C }", field_id),
        s05_variant_limit "4294967???" ("enum A { B @", "}", field_id),
        s05_variant_high "??94967295" ("enum A { B @", "}", field_id),
        s05_variant_long "??0000000000" ("enum A { B @", "}", field_id),
        s05_array_1 "?" ("type A = [u8; ", "];", array_size),
        s05_array_3 "???" ("type A = [u8;", " ];", array_size),
        s05_array_limit "4294967???" ("type A = [u8; ", "];", array_size),
        s05_array_high "??94967295" ("type A = [u8; ", "];", array_size),
        s05_array_long "??000000000" ("type A = [u8; ", "];", array_size),
    }
}

pub mod literals {
    use super::*;
    sym::harness! {
        fn s05_integer_1() { integer("?") }
        fn s05_integer_3() { integer("???") }
        fn s05_integer_mid() { integer("?12?4?6") }
        fn s05_integer_high() { integer("?8446744073709551?") }
        fn s05_integer_limit() {
            // around the largest and the smallest number of 128 bit
            let d = digits::<2>();
            let minus = sym::bool();
            let mut hole = *b"+1701411834604692317316873037158841057xx";
            if minus {
                hole[0] = b'-';
            }
            hole[38..].copy_from_slice(&d);
            let v = value(&d) as i128;
            let fits = v <= 27 + minus as i128;
            with("const A: i128 = ", &hole[if minus { 0 } else { sym::below(2) as usize }..], ";", |r| match r {
                Ok(s) => {
                    sym::cover("accepted");
                    sym::check(fits, "a number of more than 128 bit is rejected");
                    let want = if minus { i128::MIN + (28 - v) } else { i128::MAX - (27 - v) };
                    sym::check(*literal(&s) == LiteralValue::Int(want), "an integer has the value of its digits");
                }
                Err(_) => {
                    sym::cover("rejected");
                    sym::check(!fits, "a number of up to 128 bit is accepted");
                }
            })
        }
        fn s05_integer_long() {
            // too long, whatever the digits
            let d = digits::<1>();
            sym::assume(d[0] != b'0');
            let hole = [&d[..], b"000000000000000000000000000000000000000"].concat();
            with("const A: i128 = ", &hole, ";", |r| sym::check(r.is_err(), "a number of more than 128 bit is rejected"))
        }
        fn s05_bool() {
            let mut b = [0; 5];
            let h = sym::slice(&mut b);
            for c in h {
                sym::assume(c.is_ascii_lowercase() || matches!(c, b' ' | b'/' | b'\n'));
            }
            with("const A: bool = ", h, ";", |r| {
                let t = h == b"true" || (h.len() == 5 && &h[1..] == b"true" && matches!(h[0], b' ' | b'\t'));
                let f = h == b"false";
                if t || f {
                    sym::cover("valid");
                    sym::check(r.is_ok(), "a boolean is accepted");
                }
                if let Ok(s) = r {
                    if let LiteralValue::Bool(v) = literal(&s) {
                        sym::check(if *v { t } else { f }, "a boolean is the word written");
                    } else {
                        sym::check(!t && !f, "a boolean literal is a boolean");
                    }
                }
            })
        }
        fn s05_float() {
            let d = digits::<2>();
            let minus = sym::bool();
            let mut hole = *b"-x.x";
            hole[1] = d[0];
            hole[3] = d[1];
            with("const A: f64 = ", &hole[!minus as usize..], ";", |r| {
                sym::check(r.is_ok(), "a float is accepted");
                let s = r.unwrap();
                let LiteralValue::Float(v) = literal(&s) else { return sym::check(false, "a float literal is a float") };
                let want = value(&d) as f64 / 10.0 * if minus { -1.0 } else { 1.0 };
                sym::check(v.to_bits() == want.to_bits(), "a float has the value written");
            })
        }
        fn s05_float_exponent() {
            let d = digits::<1>();
            let minus = sym::bool();
            let mut hole = *b"1.5e-x";
            hole[5] = d[0];
            if !minus {
                hole[4] = b'+';
            }
            with("const A: f64 = ", &hole, ";", |r| {
                sym::check(r.is_ok(), "a float is accepted");
                let s = r.unwrap();
                let LiteralValue::Float(v) = literal(&s) else { return sym::check(false, "a float literal is a float") };
                let p = 10u64.pow(value(&d) as u32) as f64;
                let want = if minus { 1.5 / p } else { 1.5 * p };
                sym::check(v.to_bits() == want.to_bits(), "a float has the value written");
            })
        }
        fn s05_string() { strings::<3>("", "") }
        fn s05_string_escape() { strings::<2>("a\\", "b") }
        fn s05_string_unicode() { strings::<2>("\\u{", "}") }
        fn s05_string_unicode_high() { strings::<2>("\\u{D7", "}") }
        fn s05_string_unicode_max() { strings::<2>("\\u{10FF", "}") }
        fn s05_string_blank() { strings::<3>("a\\ ", "b") }
        fn t_s05_string() { strings::<4>("", "") }
        fn t_s05_string_unicode() { strings::<3>("\\u{", "}") }
        fn s05_bytes() { byte_strings::<4>("", "") }
        fn s05_bytes_more() { byte_strings::<3>("1, 2", "3") }
        fn s05_bytes_limit() { byte_strings::<3>("2", "5,") }
        fn t_s05_bytes() { byte_strings::<6>("", "") }
    }
}

// ---- names

/// The three conventions.
#[derive(Clone, Copy)]
enum Style {
    /// Types and variants.
    Upper,
    /// Modules and fields.
    Lower,
    /// Constants.
    Screaming,
}

fn follows(s: Style, h: &[u8]) -> bool {
    !h.is_empty()
        && h.iter().enumerate().all(|(i, c)| match (s, i) {
            (Style::Lower, 0) => c.is_ascii_lowercase(),
            (_, 0) => c.is_ascii_uppercase(),
            (Style::Upper, _) => c.is_ascii_alphanumeric(),
            (Style::Lower, _) => c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'_',
            (Style::Screaming, _) => c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_',
        })
}

/// Nothing that separates or joins tokens.
fn word(h: &[u8]) -> bool {
    !h.is_empty() && h.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c >= 128)
}

fn names<const N: usize>(style: Style, pre: &str, post: &str, get: for<'a> fn(&Schema<'a>) -> Option<&'a str>) {
    let mut b = [0; N];
    let h = sym::slice(&mut b);
    with(pre, h, post, |r| {
        let ok = follows(style, h);
        match r {
            Ok(s) => {
                let n = get(&s);
                if ok {
                    sym::cover("accepted");
                    sym::check(n.map(str::as_bytes) == Some(h), "the name is the word written");
                } else {
                    sym::check(!word(h), "a name against the conventions is rejected");
                }
                if let Some(n) = n {
                    sym::check(follows(style, n.as_bytes()), "every accepted name follows the conventions");
                }
            }
            Err(_) => {
                sym::cover("rejected");
                sym::check(!ok, "a name following the conventions is accepted");
            }
        }
    })
}

/// The name of the last definition.
fn last<'a>(s: &Schema<'a>) -> Option<&'a str> {
    Some(match s.definitions.last()? {
        Definition::Module(m) => name(&m.name),
        Definition::Struct(s) => name(&s.name),
        Definition::Enum(e) => name(&e.name),
        Definition::TypeAlias(a) => name(&a.name),
        Definition::Const(c) => name(&c.name),
        Definition::Import(_) => return None,
    })
}

fn name<'a>(n: &mabo_parser::Name<'a>) -> &'a str {
    // The name borrows from the source, which the accessor does not say.
    unsafe { std::mem::transmute::<&str, &'a str>(n.get()) }
}

fn type_param<'a>(s: &Schema<'a>) -> Option<&'a str> {
    let g = match s.definitions.last()? {
        Definition::Struct(s) => &s.generics,
        Definition::Enum(e) => &e.generics,
        Definition::TypeAlias(a) => &a.generics,
        _ => return None,
    };
    g.as_ref()?.types.values().next().map(name)
}

fn field<'a>(s: &Schema<'a>) -> Option<&'a str> {
    let f = match s.definitions.last()? {
        Definition::Struct(s) => &s.fields,
        Definition::Enum(e) => &e.variants.values().last()?.fields,
        _ => return None,
    };
    match f {
        Fields::Named(_, f) => f.values().last().map(|f| name(&f.name)),
        _ => None,
    }
}

fn variant<'a>(s: &Schema<'a>) -> Option<&'a str> {
    match s.definitions.last()? {
        Definition::Enum(e) => e.variants.values().last().map(|v| name(&v.name)),
        _ => None,
    }
}

fn inner<'a>(s: &Schema<'a>) -> Option<&'a str> {
    match s.definitions.last()? {
        Definition::Module(m) => match m.definitions.last()? {
            Definition::Module(m) => Some(name(&m.name)),
            Definition::Struct(s) => Some(name(&s.name)),
            _ => None,
        },
        _ => None,
    }
}

macro_rules! naming {
    ($($f:ident $t:ident $style:ident ($pre:literal, $post:literal, $get:ident),)*) => {
        sym::harness! {
            $(fn $f() { names::<4>(Style::$style, $pre, $post, $get) }
            fn $t() { names::<6>(Style::$style, $pre, $post, $get) })*
        }
    };
}

pub mod naming {
    use super::*;
    naming! {
        s06_struct t_s06_struct Upper ("struct ", "(u8 @1)", last),
        s06_struct_unit t_s06_struct_unit Upper ("struct ", "\n", last),
        s06_struct_named t_s06_struct_named Upper ("struct ", " { a: u8 @1 }", last),
        s06_enum t_s06_enum Upper ("enum ", " { B @1 }", last),
        s06_variant t_s06_variant Upper ("enum A { ", " @1 }", variant),
        s06_variant_second t_s06_variant_second Upper ("enum A { B @1, ", "(u8 @1) @2 }", variant),
        s06_alias t_s06_alias Upper ("type ", " = u8;", last),
        s06_param_struct t_s06_param_struct Upper ("struct A<", ">(u8 @1)", type_param),
        s06_param_enum t_s06_param_enum Upper ("enum A<", "> { B @1 }", type_param),
        s06_param_alias t_s06_param_alias Upper ("type A<", "> = u8;", type_param),
        s06_module t_s06_module Lower ("mod ", " {}", last),
        s06_module_inner t_s06_module_inner Lower ("mod a { mod ", " {} }", inner),
        s06_struct_inner t_s06_struct_inner Upper ("mod a { struct ", " }", inner),
        s06_field t_s06_field Lower ("struct A { ", ": u8 @1 }", field),
        s06_field_second t_s06_field_second Lower ("struct A { a: u8 @1, ", ": u8 @2 }", field),
        s06_field_enum t_s06_field_enum Lower ("enum A { B { ", ": u8 @1 } @1 }", field),
        s06_const t_s06_const Screaming ("const ", ": u8 = 1;", last),
    }
}
