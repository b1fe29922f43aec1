//! Schemas from the input.

use crate::model::*;
use mabo_compiler::simplify::*;

/// Runs `f` with the simplified form of the text if it is accepted.
pub fn with(text: &[u8], f: impl FnOnce(&mut Schema)) {
    let Ok(text) = std::str::from_utf8(text) else { return };
    let Ok(s) = mabo_parser::Schema::parse(text, None) else { return };
    if mabo_compiler::validate_schema(&s).is_ok() {
        sym::cover("accepted");
        f(&mut mabo_compiler::simplify_schema(&s));
    }
}

/// Any plain or non-zero type, empty ones included.
pub fn any() -> Ty {
    let i = sym::below(PLAIN.len() as u8 * 2) as usize;
    let t = Ty::Plain(PLAIN[i % PLAIN.len()]);
    if i < PLAIN.len() { t } else { one("non_zero", t) }
}

/// A definition with a type of up to `depth` others around it.
pub fn typed(depth: u8) -> Vec<u8> {
    let t = wrapped(depth, any());
    place(sym::below(6), "", &t).0
}

/// Tuples and arrays of many sizes.
pub fn sized(largest: u32) -> Vec<u8> {
    let t = match sym::below(2) {
        0 => Ty::Tuple(vec![Ty::Plain("i32"); sym::below(14) as usize]),
        _ => Ty::Array(Box::new(Ty::Plain("i32")), if largest > 32 { [0, 1, 32, 33, 127, 128, 65535, u32::MAX][sym::below(8) as usize] } else { 1 + sym::below(32) as u32 }),
    };
    place(sym::below(4), "", &t).0
}

/// What has numbers: fields of every kind, some of them optional, and variants.
pub const NUMBERED: [&str; 6] = [
    "struct S { a: u8, b: option<u16> }",
    "struct S(option<string>, vec<u8>)",
    "enum F { A, B }",
    "enum F { A { a: u8 } }",
    "enum F { A(option<u8>), }",
    "mod m { struct S { a: (u8, u8), b: [u8; 3] } }",
];

/// Gives all fields and variants arbitrary valid numbers.
pub fn renumber(d: &mut [Definition]) {
    fn id(limit: u32) -> u32 {
        let i = sym::u32();
        sym::assume(i < limit);
        i
    }
    fn fields(f: &mut Fields) {
        for f in &mut f.fields {
            f.id = id(1 << 29);
            sym::assume(f.id > 0);
        }
        for i in 1..f.fields.len() {
            sym::assume(f.fields[0].id != f.fields[i].id);
        }
    }
    for d in d {
        match d {
            Definition::Module(m) => renumber(&mut m.definitions),
            Definition::Struct(s) => fields(&mut s.fields),
            Definition::Enum(e) => {
                for v in &mut e.variants {
                    v.id = id(u32::MAX);
                    fields(&mut v.fields);
                }
            }
            _ => {}
        }
    }
}

/// Every kind of name: a text with the name left out.
pub const NAMED: [(&str, &str, bool); 9] = [
    ("struct S { ", ": u8, zz: u8 }", false),
    ("struct ", " { zz: u8 }", true),
    ("enum ", " { A, B(u8) }", true),
    ("enum F { ", ", Zz(u8) }", true),
    ("enum F { Zz { ", ": u8 } }", false),
    ("mod ", " { struct S(u8) }", false),
    ("type ", " = u8;", true),
    ("const ", ": u8 = 1;", true),
    ("struct S { zz: option<", "> }", true),
];

pub fn named(n: usize) -> Vec<u8> {
    let (pre, post, upper) = NAMED[sym::below(NAMED.len() as u8) as usize];
    let mut t = pre.as_bytes().to_vec();
    for i in 0..n {
        let c = sym::u8();
        let first = if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() };
        sym::assume(if i == 0 { first } else { c.is_ascii_alphanumeric() | (c == b'_') });
        t.push(c);
    }
    t.extend_from_slice(post.as_bytes());
    t
}

/// Type parameters of arbitrary names, used in different ways.
pub fn parameters() -> Vec<u8> {
    let mut p = vec![];
    for i in 0..2 {
        let c = sym::u8();
        sym::assume(if i == 0 { c.is_ascii_uppercase() } else { c.is_ascii_alphanumeric() | (c == b'_') });
        p.push(c);
    }
    let (pre, post) = [("struct S<", "> { zz: "), ("enum F<", "> { Zz(u8), Yy("), ("enum F<", ", Qq> { Zz { a: Qq }, Yy { b: ")][sym::below(3) as usize];
    let end = if pre.starts_with("struct") { " }" } else if post.contains("b:") { " } }" } else { ") }" };
    let mut t = [pre.as_bytes(), &p, post.as_bytes()].concat();
    wrapped(1, Ty::Named(vec![], p, vec![])).write(&mut t);
    t.extend_from_slice(end.as_bytes());
    t
}

/// A constant of an arbitrary value.
pub fn constant(kind: u8, control: bool, f: impl FnOnce(&mut Schema, &Literal)) {
    let (text, value): (&str, _) = match kind {
        0 => ("const C: bool = true;", Literal::Bool(sym::bool())),
        1 => ("const C: u32 = 1;", Literal::Int(if sym::bool() { i128::from(sym::u8()) } else { u32::MAX.into() })),
        2 => ("const C: i32 = 1;", Literal::Int(if sym::bool() { i128::from(sym::u8() as i8) } else { i32::MIN.into() })),
        3 => ("const C: i64 = 1;", Literal::Int([i64::MIN, -1, 0, i64::MAX][sym::below(4) as usize].into())),
        4 => ("const C: string = \"\";", {
            let mut s = String::new();
            for _ in 0..sym::below(3) {
                match sym::below(3) {
                    0 => {
                        let c = sym::u8();
                        sym::assume(if control { c < 128 } else { ((c >= b' ') & (c < 127)) | (c == b'\n') | (c == b'\t') | (c == b'\r') });
                        s.push(c as char);
                    }
                    1 => s.push('\u{e4}'),
                    _ => s.push('\u{10000}'),
                }
            }
            Literal::String(s.into())
        }),
        5 => ("const C: bytes = [1];", {
            let mut b = [0; 3];
            let b = sym::slice(&mut b);
            sym::assume(!b.is_empty());
            Literal::Bytes(b.into())
        }),
        _ => ("const C: f64 = 1.0;", Literal::Float([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE][sym::below(9) as usize])),
    };
    with(text.as_bytes(), |s| {
        if let Definition::Const(c) = &mut s.definitions[0] {
            c.value = match &value {
                Literal::Bool(b) => Literal::Bool(*b),
                Literal::Int(i) => Literal::Int(*i),
                Literal::Float(f) => Literal::Float(*f),
                Literal::String(s) => Literal::String(s.clone()),
                Literal::Bytes(b) => Literal::Bytes(b.clone()),
            };
        }
        f(s, &value);
    });
}
