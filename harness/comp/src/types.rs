//! Rules about the types in a schema.

use crate::model::*;
use mabo_compiler::{simplify, validate::*};
use mabo_parser::Schema;
use std::ops::Range;

fn parse(text: &[u8]) -> Schema<'_> {
    let s = Schema::parse(std::str::from_utf8(text).unwrap(), None);
    sym::check(s.is_ok(), "the schema is accepted by the parser");
    s.unwrap()
}

fn contains(out: &Range<usize>, inner: &Range<usize>) -> bool {
    out.start <= inner.start && inner.end <= out.end
}

// ---- type parameters

/// One of three letters, as input.
fn letter() -> Vec<u8> {
    let c = sym::u8();
    sym::assume((c >= b'A') & (c <= b'C'));
    vec![c]
}

/// Parameters, the definition around the fields, and what the fields refer to.
fn params(n: usize, depth: u8, shapes: &[(&str, &str, &str)]) {
    let p: Vec<_> = (0..n).map(|_| letter()).collect();
    let mut uses = vec![];
    let mut leaf = |kind: u8| match kind {
        0 => {
            let l = letter();
            uses.push(l[0]);
            Ty::Named(vec![], l, vec![])
        }
        // not references to a parameter
        1 => Ty::Named(vec![b"m".to_vec()], letter(), vec![]),
        2 => Ty::Named(vec![], letter(), vec![Ty::Plain("u8")]),
        _ => Ty::Plain("u8"),
    };
    let first = leaf(sym::below(4));
    let second = leaf(sym::below(2) * 3);
    let first = wrapped(depth, first);

    let (pre, mid, post) = shapes[sym::below(shapes.len() as u8) as usize];
    let mut text = pre.as_bytes().to_vec();
    let mut at = vec![];
    for (i, p) in p.iter().enumerate() {
        text.extend_from_slice(if i == 0 { b"<" } else { b", " });
        at.push(text.len()..text.len() + 1);
        text.extend_from_slice(p);
    }
    text.push(b'>');
    let (open, sep) = mid.split_once('|').unwrap();
    text.extend_from_slice(open.as_bytes());
    first.write(&mut text);
    text.extend_from_slice(sep.as_bytes());
    second.write(&mut text);
    text.extend_from_slice(post.as_bytes());

    let mut distinct = true;
    for i in 0..n {
        for j in 0..i {
            distinct &= p[i] != p[j];
        }
    }
    let is_used = |p: u8| uses.iter().any(|u| *u == p);
    let schema = parse(&text);
    match mabo_compiler::validate_schema(&schema) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(distinct, "equal type parameters are rejected");
            for p in &p {
                sym::check(is_used(p[0]), "an unused type parameter is rejected");
            }
        }
        Err(Error::InvalidGeneric(InvalidGenericType::Duplicate(e))) => {
            sym::cover("duplicate");
            let (a, b) = (at.iter().position(|r| *r == e.first), at.iter().position(|r| *r == e.second));
            sym::check(a.is_some() && b.is_some() && a < b, "the locations are those of two parameters");
            sym::check(p[a.unwrap()] == p[b.unwrap()] && e.name.as_bytes() == p[a.unwrap()], "the two parameters have the same name");
        }
        Err(Error::InvalidGeneric(InvalidGenericType::Unused(e))) => {
            sym::cover("unused");
            sym::check(distinct, "equal type parameters are reported first");
            let a = at.iter().position(|r| *r == e.declared);
            sym::check(a.is_some(), "the location is that of a parameter");
            let p = &p[a.unwrap()];
            sym::check(e.name.as_bytes() == p && !is_used(p[0]), "the parameter is not used");
        }
        Err(_) => sym::check(false, "the type parameters are what is rejected"),
    }
}

const SHAPES: [(&str, &str, &str); 5] = [
    ("struct S", " { a: |, b: ", " }"),
    ("struct S", "(|, ", ")"),
    ("enum F", " { V { a: |, b: ", " } }"),
    ("enum F", " { V(|), W(", "), X }"),
    ("enum F", " { U, V { a: u8, b: | }, W(", ") }"),
];

pub mod generics {
    use super::*;
    sym::harness! {
        fn c03_one() { params(1, 2, &SHAPES) }
        fn c03_two() { params(2, 1, &SHAPES) }
        fn c03_three() { params(3, 0, &SHAPES) }
        fn t_c03_two() { params(2, 2, &SHAPES) }
        fn c03_none() {
            // Without fields nothing uses a parameter.
            let l = letter();
            for (pre, post) in [("struct S<", ">\n"), ("enum F<", "> { A }")] {
                let text = [pre.as_bytes(), &l, post.as_bytes()].concat();
                let e = mabo_compiler::validate_schema(&parse(&text));
                sym::check(matches!(e, Err(Error::InvalidGeneric(InvalidGenericType::Unused(_)))), "an unused type parameter is rejected");
            }
        }
    }
}

// ---- tuples

fn tuple(n: u8, at: u8, inner: Ty) -> Ty {
    let mut v = vec![Ty::Plain("u8"); n as usize];
    let at = if at == 0 { 0 } else { n as usize - 1 };
    v[at] = inner;
    Ty::Tuple(v)
}

fn tuples(depth: u8) {
    let n = 1 + sym::below(14);
    let t = wrapped(depth, tuple(n, 0, Ty::Plain("string")));
    judge(&t, n == 1, n > 12)
}

fn judge(t: &Ty, single: bool, large: bool) {
    let at = sym::below(7);
    let (text, r) = place(at, "", t);
    match mabo_compiler::validate_schema(&parse(&text)) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(!single && !large, "a tuple of one or more than twelve elements is rejected");
        }
        Err(Error::TupleSize(e)) => {
            sym::cover("rejected");
            match e.amount {
                InvalidTupleAmount::Single => sym::check(single, "a tuple with a single element is rejected"),
                InvalidTupleAmount::TooLarge => sym::check(large, "a tuple with more than twelve elements is rejected"),
                InvalidTupleAmount::Empty => sym::check(false, "there is no empty tuple"),
            }
            sym::check(contains(&r, &e.declared) && !e.declared.is_empty(), "the location is that of the type");
        }
        Err(Error::InvalidConstType(_)) => {
            sym::check(at == 6 && !single && !large, "a tuple of two to twelve elements is accepted");
        }
        Err(_) => sym::check(false, "a tuple of two to twelve elements is accepted"),
    }
}

pub mod sizes {
    use super::*;
    sym::harness! {
        fn c04_plain() { tuples(0) }
        fn c04_wrapped() { tuples(1) }
        fn c04_twice() { tuples(2) }
        fn c04_nested() {
            // A tuple inside of a tuple, behind up to one other type.
            let (n, m) = (1 + sym::below(13), 1 + sym::below(13));
            sym::assume(n < 4 || m < 4 || n > 11 && m > 11);
            let t = tuple(n, sym::below(2), wrapped(1, tuple(m, 1, Ty::Plain("u16"))));
            judge(&t, n == 1 || m == 1, n > 12 || m > 12)
        }
        fn t_c04_deep() { tuples(3) }
    }
}

// ---- constants and non-zero types

/// A type of any kind.
fn any() -> Ty {
    let k = sym::below(19 + WAYS - 1 + 1);
    match k {
        0..19 => Ty::Plain(PLAIN[k as usize]),
        19 => named("E", vec![]),
        k => wrap(k - 19, Ty::Plain("u32")),
    }
}

/// What can be tested for being zero.
fn can_be_zero(t: &Ty) -> bool {
    match t {
        Ty::Plain(n) => !matches!(*n, "bool" | "f32" | "f64" | "box<string>" | "box<bytes>"),
        Ty::One(n, _) => matches!(*n, "vec" | "hash_set"),
        Ty::Map(..) => true,
        _ => false,
    }
}

fn non_zero(depth: u8) {
    let inner = any();
    let good = can_be_zero(&inner);
    let mut shown = vec![];
    inner.write(&mut shown);
    let t = wrapped(depth, one("non_zero", inner));
    let at = sym::below(6);
    let (text, r) = place(at, "", &t);
    match mabo_compiler::validate_schema(&parse(&text)) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(good, "a type that cannot be zero is rejected as non-zero");
        }
        Err(Error::InvalidNonZero(e)) => {
            sym::cover("rejected");
            sym::check(!good, "a type that can be zero is accepted as non-zero");
            sym::check(contains(&r, &e.used), "the location is that of the type");
            sym::check(text[e.used.clone()] == shown[..] && e.ty.as_bytes() == shown, "the location and the name are those of the inner type");
        }
        Err(_) => sym::check(false, "the non-zero type is what is rejected"),
    }
}

pub mod rules {
    use super::*;
    sym::harness! {
        fn c08_non_zero() { non_zero(0) }
        fn c08_non_zero_wrapped() { non_zero(1) }
        fn t_c08_non_zero_twice() { non_zero(2) }
        fn c08_const() {
            let t = any();
            let good = matches!(&t, Ty::Plain(n) if !n.starts_with("box"));
            let (text, r) = place(6, "", &t);
            match mabo_compiler::validate_schema(&parse(&text)) {
                Ok(()) => {
                    sym::cover("accepted");
                    sym::check(good, "a constant of a type without literals is rejected");
                }
                Err(Error::InvalidConstType(e)) => {
                    sym::cover("rejected");
                    sym::check(!good, "a constant of a basic type is accepted");
                    sym::check(e.used == r && e.ty.as_bytes() == &text[r], "the location and the name are those of the type");
                }
                Err(_) => sym::check(false, "the type of the constant is what is rejected"),
            }
        }
    }
}

// ---- simplification

fn simplified(depth: u8) {
    let t = wrapped(depth, any());
    let at = sym::below(7);
    let (text, _) = place(at, "", &t);
    let s = parse(&text);
    let s = mabo_compiler::simplify_schema(&s);
    use simplify::{Definition::*, FieldKind};
    sym::check(s.definitions.len() == 1, "one definition stays one");
    let f = |f: &simplify::Fields, i: usize, n: usize, name: &str, kind: FieldKind| {
        f.fields.len() == n && f.kind == kind && f.fields[i].name == name && f.fields[i].id as usize == i + 1 && t.is(&f.fields[i].ty)
    };
    let ok = match (at, &s.definitions[0]) {
        (0, Struct(s)) => s.name == "S" && f(&s.fields, 1, 3, "a", FieldKind::Named),
        (1, Struct(s)) => s.name == "S" && f(&s.fields, 1, 2, "n1", FieldKind::Unnamed),
        (2, Enum(e)) => e.name == "F" && e.variants.len() == 3 && e.variants[1].name == "B" && f(&e.variants[1].fields, 1, 2, "a", FieldKind::Named),
        (3, Enum(e)) => e.name == "F" && e.variants.len() == 3 && e.variants[1].id == 2 && f(&e.variants[1].fields, 0, 2, "n0", FieldKind::Unnamed),
        (4, TypeAlias(a)) => a.name == "T" && t.is(&a.target),
        (5, Module(m)) => match &m.definitions[..] {
            [Module(n)] => match &n.definitions[..] {
                [Struct(s)] => m.name == "mm" && n.name == "nn" && f(&s.fields, 0, 1, "a", FieldKind::Named),
                _ => false,
            },
            _ => false,
        },
        (6, Const(c)) => c.name == "C" && t.is(&c.ty) && matches!(c.value, simplify::Literal::Int(1)),
        _ => false,
    };
    sym::check(ok, "the type keeps its meaning and its place");
}

pub mod meaning {
    use super::*;
    sym::harness! {
        fn c06_type() { simplified(0) }
        fn c06_wrapped() { simplified(1) }
        fn t_c06_twice() { simplified(2) }
    }
}
