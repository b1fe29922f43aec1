//! Types as written in a schema, made from the input.

use mabo_compiler::simplify::{ExternalType, Type};

#[derive(Clone, Debug)]
pub enum Ty {
    Plain(&'static str),
    One(&'static str, Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u32),
    Named(Vec<Vec<u8>>, Vec<u8>, Vec<Ty>),
}

pub const PLAIN: [&str; 19] = [
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "&string", "bytes", "&bytes", "box<string>",
    "box<bytes>",
];

pub fn one(k: &'static str, t: Ty) -> Ty {
    Ty::One(k, Box::new(t))
}
pub fn named(n: &str, g: Vec<Ty>) -> Ty {
    Ty::Named(vec![], n.as_bytes().to_vec(), g)
}
const U8: Ty = Ty::Plain("u8");

/// How many ways there are to put a type in another one.
pub const WAYS: u8 = 15;

pub fn wrap(way: u8, t: Ty) -> Ty {
    match way {
        0 => t,
        1 => one("vec", t),
        2 => one("hash_set", t),
        3 => one("option", t),
        4 => one("non_zero", one("vec", t)),
        5 => Ty::Map(Box::new(t), Box::new(U8)),
        6 => Ty::Map(Box::new(U8), Box::new(t)),
        7 => Ty::Tuple(vec![t, U8]),
        8 => Ty::Tuple(vec![U8, t]),
        9 => Ty::Tuple(vec![U8, t, U8]),
        10 => Ty::Array(Box::new(t), 4),
        11 => named("E", vec![t]),
        12 => named("E", vec![U8, t]),
        13 => Ty::Named(vec![b"m".to_vec()], b"E".to_vec(), vec![t, U8]),
        _ => one("non_zero", Ty::Map(Box::new(U8), Box::new(t))),
    }
}

/// The type inside of up to `depth` others.
pub fn wrapped(depth: u8, mut t: Ty) -> Ty {
    for _ in 0..depth {
        let way = sym::below(WAYS);
        if way == 0 {
            break;
        }
        t = wrap(way, t);
    }
    t
}

impl Ty {
    pub fn write(&self, o: &mut Vec<u8>) {
        let list = |o: &mut Vec<u8>, v: &[Ty]| {
            for (i, t) in v.iter().enumerate() {
                if i > 0 {
                    o.extend_from_slice(b", ");
                }
                t.write(o);
            }
        };
        match self {
            Ty::Plain(n) => o.extend_from_slice(n.as_bytes()),
            Ty::One(n, t) => {
                o.extend_from_slice(n.as_bytes());
                o.push(b'<');
                t.write(o);
                o.push(b'>');
            }
            Ty::Map(k, v) => {
                o.extend_from_slice(b"hash_map<");
                k.write(o);
                o.extend_from_slice(b", ");
                v.write(o);
                o.push(b'>');
            }
            Ty::Tuple(v) => {
                o.push(b'(');
                list(o, v);
                o.push(b')');
            }
            Ty::Array(t, n) => {
                o.push(b'[');
                t.write(o);
                o.extend_from_slice(format!("; {n}]").as_bytes());
            }
            Ty::Named(p, n, g) => {
                for p in p {
                    o.extend_from_slice(p);
                    o.extend_from_slice(b"::");
                }
                o.extend_from_slice(n);
                if !g.is_empty() {
                    o.push(b'<');
                    list(o, g);
                    o.push(b'>');
                }
            }
        }
    }

    /// Whether the simplified type is this one.
    pub fn is(&self, t: &Type) -> bool {
        let all = |a: &[Ty], b: &[Type]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.is(b));
        match (self, t) {
            (Ty::Plain(n), t) => {
                *n == match t {
                    Type::Bool => "bool",
                    Type::U8 => "u8",
                    Type::U16 => "u16",
                    Type::U32 => "u32",
                    Type::U64 => "u64",
                    Type::U128 => "u128",
                    Type::I8 => "i8",
                    Type::I16 => "i16",
                    Type::I32 => "i32",
                    Type::I64 => "i64",
                    Type::I128 => "i128",
                    Type::F32 => "f32",
                    Type::F64 => "f64",
                    Type::String => "string",
                    Type::StringRef => "&string",
                    Type::Bytes => "bytes",
                    Type::BytesRef => "&bytes",
                    Type::BoxString => "box<string>",
                    Type::BoxBytes => "box<bytes>",
                    _ => return false,
                }
            }
            (Ty::One("vec", a), Type::Vec(b))
            | (Ty::One("hash_set", a), Type::HashSet(b))
            | (Ty::One("option", a), Type::Option(b))
            | (Ty::One("non_zero", a), Type::NonZero(b)) => a.is(b),
            (Ty::Map(k, v), Type::HashMap(b)) => k.is(&b.0) && v.is(&b.1),
            (Ty::Tuple(a), Type::Tuple(b)) => all(a, b),
            (Ty::Array(a, n), Type::Array(b, m)) => n == m && a.is(b),
            (Ty::Named(p, n, g), Type::External(ExternalType { path, name, generics })) => {
                p.len() == path.len() && p.iter().zip(path).all(|(a, b)| a == b.as_bytes()) && n == name.as_bytes() && all(g, generics)
            }
            _ => false,
        }
    }
}

/// A definition with the type in one of the places a type can be written, and where it is.
pub fn place(at: u8, params: &str, t: &Ty) -> (Vec<u8>, std::ops::Range<usize>) {
    let (pre, post) = [
        ("struct S# { z: u8, a: ", ", b: u16 }"),
        ("struct S#(u8, ", ")"),
        ("enum F# { A, B { b: u8, a: ", " }, C }"),
        ("enum F# { A, B(", ", u8), C(u8) }"),
        ("type T# = ", ";"),
        ("mod mm { mod nn { struct S# { a: ", " } } }"),
        ("const C: ", " = 1;"),
    ][at as usize];
    let mut o = pre.replace('#', params).into_bytes();
    let s = o.len();
    t.write(&mut o);
    let r = s..o.len();
    o.extend_from_slice(post.as_bytes());
    (o, r)
}
