//! Field and variant numbers, given and derived.

use mabo_compiler::{simplify, validate::*};
use mabo_parser::{punctuated::Punctuated, Definition, Fields, Id, Schema, Spanned};
use std::ops::Range;

/// Up to `N` numbers, each left out or arbitrary.
#[derive(Clone)]
pub struct Numbers {
    given: Vec<Option<u32>>,
}

/// Where the `i`-th given number is said to be written.
fn place(i: usize) -> Range<usize> {
    1000 + 10 * i..1001 + 10 * i
}

impl Numbers {
    pub fn any(n: usize) -> Self {
        Numbers { given: (0..n).map(|_| if sym::bool() { Some(sym::u32()) } else { None }).collect() }
    }

    /// What the numbers are supposed to be.
    pub fn all(&self) -> Vec<u64> {
        let mut next = 1;
        self.given
            .iter()
            .map(|g| {
                let v = g.map_or(next, |g| g as u64);
                next = v + 1;
                v
            })
            .collect()
    }

    fn id(&self, i: usize) -> Option<Id> {
        self.given[i].map(|v| (v, place(i)).into())
    }

    fn distinct(&self) -> bool {
        let a = self.all();
        let mut ok = true;
        for i in 0..a.len() {
            for j in 0..i {
                ok &= a[i] != a[j];
            }
        }
        ok
    }

    fn fields_ok(&self) -> bool {
        self.distinct() && self.all().iter().all(|v| (*v >= 1) & (*v < 1 << 29))
    }
    fn variants_ok(&self) -> bool {
        self.distinct() && self.all().iter().all(|v| *v <= u32::MAX as u64)
    }

    /// Whether the given number collides, as said.
    fn collide(&self, i: usize, j: usize, id: &Id, spans: &[Range<usize>], first: &Range<usize>, second: &Range<usize>) {
        let a = self.all();
        sym::check(i < j && j < a.len(), "the earlier of two colliding numbers is named first");
        let cap = |v: u64| v.min(u32::MAX as u64);
        sym::check((cap(a[i]) == cap(a[j])) & (cap(a[i]) == id.get() as u64), "the two named numbers collide");
        let at = |i: usize| if self.given[i].is_some() { place(i) } else { spans[i].clone() };
        sym::check(at(i) == *first && at(j) == *second, "both locations of a collision are those of the numbers");
    }
}

fn renumber_fields(f: &mut Fields, n: &Numbers) {
    match f {
        Fields::Named(_, p) => rebuild(p, |f, i| f.id = n.id(i)),
        Fields::Unnamed(_, p) => rebuild(p, |f, i| f.id = n.id(i)),
        Fields::Unit => {}
    }
}

/// The elements are not `Clone`: they move to a new list, and the storage of the old one leaks.
fn rebuild<T>(p: &mut Punctuated<T>, mut f: impl FnMut(&mut T, usize)) {
    let mut v: Vec<_> = p.iter().map(|(t, p)| (unsafe { std::ptr::read(t) }, p)).collect();
    for (i, (t, _)) in v.iter_mut().enumerate() {
        f(t, i);
    }
    let last = v.pop().unwrap();
    let new = Punctuated::new(v.into_iter().map(|(t, p)| (t, p.unwrap())).collect(), last);
    unsafe { std::ptr::write(p, new) }
}

fn spans(f: &Fields) -> Vec<Range<usize>> {
    match f {
        Fields::Named(_, p) => p.values().map(|f| f.span().into()).collect(),
        Fields::Unnamed(_, p) => p.values().map(|f| f.span().into()).collect(),
        Fields::Unit => vec![],
    }
}

const STRUCTS_5: [&str; 2] = ["struct S { a: u8, b: u16, c: u32, d: u64, e: i8 }", "struct S(u8, u16, u32, u64, i8)"];
const STRUCTS_4: [&str; 2] = ["struct S { a: u8, b: u16, c: u32, d: u64 }", "struct S(u8, u16, u32, u64)"];
const STRUCTS_3: [&str; 2] = ["struct S { a: u8, b: u16, c: u32 }", "struct S(u8, u16, u32)"];

fn one_struct(schema: &mut Schema, n: &Numbers) -> Vec<Range<usize>> {
    let Definition::Struct(s) = &mut schema.definitions[0] else { unreachable!() };
    renumber_fields(&mut s.fields, n);
    spans(&s.fields)
}

fn position(name: &str) -> usize {
    (name.as_bytes()[0].to_ascii_lowercase() - b'a') as usize
}

fn field_error(e: &Error, n: &Numbers, spans: &[Range<usize>]) {
    match e {
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Named(d))) => {
            n.collide(position(&d.other_name), position(&d.name), &d.id, spans, &d.first, &d.second)
        }
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Unnamed(d))) => {
            n.collide(d.other_position - 1, d.position - 1, &d.id, spans, &d.first, &d.second)
        }
        Error::InvalidFieldId(e) => {
            let a = n.all();
            let mut found = false;
            for i in 0..a.len() {
                let at = if n.given[i].is_some() { place(i) } else { spans[i].clone() };
                found |= (a[i].min(u32::MAX as u64) == e.id.get() as u64) & (at == e.used);
            }
            sym::check(found, "a number out of range is one of those given, where it is");
            sym::check(e.id.get() == 0 || e.id.get() >= 1 << 29, "a number said to be out of range is");
        }
        _ => sym::check(false, "the numbers are what is rejected"),
    }
}

fn same_fields(f: &simplify::Fields, n: &Numbers) {
    let a = n.all();
    sym::check(f.fields.len() == a.len(), "every field is there");
    for (f, v) in f.fields.iter().zip(a) {
        sym::check(f.id as u64 == v, "a field has the number given or the following one");
    }
}

fn structs(text: &str, count: usize) {
    let mut s = Schema::parse(text, None).unwrap();
    let n = Numbers::any(count);
    let spans = one_struct(&mut s, &n);
    match mabo_compiler::validate_schema(&s) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(n.fields_ok(), "numbers that collide or cannot be encoded are rejected");
            let s = mabo_compiler::simplify_schema(&s);
            let simplify::Definition::Struct(s) = &s.definitions[0] else { unreachable!() };
            same_fields(&s.fields, &n);
        }
        Err(e) => {
            sym::cover("rejected");
            sym::check(!n.fields_ok(), "distinct numbers that can be encoded are accepted");
            field_error(&e, &n, &spans);
        }
    }
}

fn variants(text: &str, count: usize) {
    let mut s = Schema::parse(text, None).unwrap();
    let n = Numbers::any(count);
    let Definition::Enum(e) = &mut s.definitions[0] else { unreachable!() };
    rebuild(&mut e.variants, |v, i| v.id = n.id(i));
    let spans: Vec<_> = e.variants.values().map(|v| v.span().into()).collect();
    match mabo_compiler::validate_schema(&s) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(n.variants_ok(), "variant numbers that collide are rejected");
            let s = mabo_compiler::simplify_schema(&s);
            let simplify::Definition::Enum(e) = &s.definitions[0] else { unreachable!() };
            sym::check(e.variants.len() == count, "every variant is there");
            for (f, v) in e.variants.iter().zip(n.all()) {
                sym::check(f.id as u64 == v, "a variant has the number given or the following one");
            }
        }
        Err(Error::DuplicateId(DuplicateId::EnumVariant(d))) => {
            sym::cover("rejected");
            sym::check(!n.variants_ok(), "distinct variant numbers are accepted");
            n.collide(position(&d.other_name), position(&d.name), &d.id, &spans, &d.first, &d.second)
        }
        Err(_) => sym::check(false, "the variant numbers are what is rejected"),
    }
}

/// Fields of two variants, and the variants themselves: three scopes.
fn nested(text: &str) {
    let mut s = Schema::parse(text, None).unwrap();
    let (n, a, b) = (Numbers::any(2), Numbers::any(2), Numbers::any(2));
    let Definition::Enum(e) = &mut s.definitions[0] else { unreachable!() };
    rebuild(&mut e.variants, |v, i| {
        v.id = n.id(i);
        renumber_fields(&mut v.fields, [&a, &b][i]);
    });
    let ok = n.variants_ok() && a.fields_ok() && b.fields_ok();
    match mabo_compiler::validate_schema(&s) {
        Ok(()) => {
            sym::cover("accepted");
            sym::check(ok, "numbers that collide or cannot be encoded are rejected");
            let s = mabo_compiler::simplify_schema(&s);
            let simplify::Definition::Enum(e) = &s.definitions[0] else { unreachable!() };
            for (f, v) in e.variants.iter().zip(n.all()) {
                sym::check(f.id as u64 == v, "a variant has the number given or the following one");
            }
            same_fields(&e.variants[0].fields, &a);
            same_fields(&e.variants[1].fields, &b);
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(!ok, "equal numbers in different scopes are accepted");
        }
    }
}

sym::harness! {
    fn c01_struct() { structs(STRUCTS_4[sym::below(2) as usize], 4) }
    fn c01_variants() { variants("enum E { A, B(u8), C { a: u8 }, D }", 4) }
    fn c01_nested() {
        nested(["enum E { A(u8, u8), B { a: u8, b: u8 } }", "enum E { A { a: u8, b: u8 }, B(u8, u8) }"][sym::below(2) as usize])
    }
    fn t_c01_struct() { structs(STRUCTS_5[sym::below(2) as usize], 5) }
    fn t_c01_variants() { variants("enum E { A, B(u8), C { a: u8 }, D, E }", 5) }
    fn m01_fields() {
        let text = STRUCTS_3[sym::below(2) as usize];
        let mut s = Schema::parse(text, None).unwrap();
        let n = Numbers::any(3);
        one_struct(&mut s, &n);
        sym::assume(n.fields_ok());
        let s = mabo_compiler::simplify_schema(&s);
        let simplify::Definition::Struct(s) = &s.definitions[0] else { unreachable!() };
        free(mabo_meta::next_field_id(&s.fields).map(|v| v as u64), &n.all(), (1 << 29) - 1);
    }
    fn t_m01_fields() {
        let mut s = Schema::parse(STRUCTS_4[sym::below(2) as usize], None).unwrap();
        let n = Numbers::any(4);
        one_struct(&mut s, &n);
        sym::assume(n.fields_ok());
        let s = mabo_compiler::simplify_schema(&s);
        let simplify::Definition::Struct(s) = &s.definitions[0] else { unreachable!() };
        free(mabo_meta::next_field_id(&s.fields).map(|v| v as u64), &n.all(), (1 << 29) - 1);
    }
    fn m01_variants() {
        let mut s = Schema::parse("enum E { A, B(u8), C { a: u8 } }", None).unwrap();
        let n = Numbers::any(3);
        let Definition::Enum(e) = &mut s.definitions[0] else { unreachable!() };
        rebuild(&mut e.variants, |v, i| v.id = n.id(i));
        sym::assume(n.variants_ok());
        let s = mabo_compiler::simplify_schema(&s);
        let simplify::Definition::Enum(e) = &s.definitions[0] else { unreachable!() };
        free(Some(mabo_meta::next_variant_id(&e.variants) as u64), &n.all(), u32::MAX as u64);
        // The single field of the last variant, the unit variant.
        free(mabo_meta::next_field_id(&e.variants[2].fields).map(|v| v as u64), &[1], (1 << 29) - 1);
        sym::check(mabo_meta::next_field_id(&e.variants[0].fields).is_none(), "without fields there is no next number");
    }
    fn m01_unit() {
        let s = Schema::parse("struct A\nstruct B(u8 @536870911)\nstruct C(u8 @536870911, u8 @1)", None).unwrap();
        let s = mabo_compiler::simplify_schema(&s);
        for (d, want) in s.definitions.iter().zip([None, Some(1), Some(2)]) {
            let simplify::Definition::Struct(s) = d else { unreachable!() };
            sym::check(mabo_meta::next_field_id(&s.fields) == want, "the lowest free number follows the largest possible one");
        }
    }
}

fn free(next: Option<u64>, used: &[u64], max: u64) {
    sym::check(next.is_some(), "there is a next number");
    let next = next.unwrap();
    let mut top = 0;
    let mut full = false;
    for u in used {
        sym::check(next != *u, "the next number is free");
        if *u > top {
            top = *u;
        }
        full |= *u == max;
    }
    sym::check((next >= 1) & (next <= max), "the next number can be used");
    if full {
        sym::cover("full");
        let mut lower = 0;
        for u in used {
            lower += (*u < next) as u64 & (*u > 0) as u64;
        }
        sym::check(lower == next - 1, "the lowest free number follows the largest possible one");
    } else {
        sym::cover("next");
        sym::check(next > top, "the next number is larger than all others");
    }
}
