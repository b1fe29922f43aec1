//! Everything that is computed from an accepted schema, whatever it says.

use crate::texts::*;
use mabo_compiler::simplify;
use mabo_parser::{
    Comment, DataType, Definition, Diagnostic, Fields, Generics, LiteralValue, Schema, Type,
};

/// Messages and locations of a diagnostic.
fn shown(d: &dyn Diagnostic, text: &str) {
    sym::observe(d.to_string().len() as u64);
    if let Some(h) = d.help() {
        sym::observe(h.to_string().len() as u64);
    }
    for l in d.labels().into_iter().flatten() {
        let (s, e) = (l.offset(), l.offset() + l.len());
        sym::check(e <= text.len() && text.is_char_boundary(s) && text.is_char_boundary(e), "a location lies inside of the text");
    }
    if let Some(d) = d.diagnostic_source() {
        shown(d, text);
    }
    let mut s = d.source();
    while let Some(e) = s {
        sym::observe(e.to_string().len() as u64);
        s = e.source();
    }
}

fn sizes(t: &simplify::Type) {
    if let Some(s) = mabo_meta::wire_size(t) {
        let mut o = String::new();
        s.print(&mut o, 0);
        sym::observe(o.len() as u64);
    }
}

fn meta(d: &[simplify::Definition]) {
    let fields = |f: &simplify::Fields| {
        sym::observe(mabo_meta::next_field_id(f).unwrap_or(0) as u64);
        f.fields.iter().for_each(|f| sizes(&f.ty));
    };
    for d in d {
        match d {
            simplify::Definition::Module(m) => meta(&m.definitions),
            simplify::Definition::Struct(s) => fields(&s.fields),
            simplify::Definition::Enum(e) => {
                sym::observe(mabo_meta::next_variant_id(&e.variants) as u64);
                e.variants.iter().for_each(|v| fields(&v.fields));
            }
            simplify::Definition::TypeAlias(a) => sizes(&a.target),
            simplify::Definition::Const(c) => sizes(&c.ty),
            simplify::Definition::Import(_) => {}
        }
    }
}

fn total(text: &str) {
    let Ok(s) = Schema::parse(text, None) else { return };
    match mabo_compiler::validate_schema(&s) {
        Ok(()) => sym::cover("valid"),
        Err(e) => {
            sym::cover("invalid");
            shown(&e, text);
        }
    }
    match mabo_compiler::resolve_schemas(&[("b", &s), ("a", &s)]) {
        Ok(()) => sym::cover("resolved"),
        Err(e) => {
            sym::cover("unresolved");
            shown(&e, text);
        }
    }
    meta(&mabo_compiler::simplify_schema(&s).definitions);
}

// ---- the simplified form against the syntax tree

fn all<A, B>(a: impl ExactSizeIterator<Item = A>, b: &[B], f: impl Fn(A, &B) -> bool) -> bool {
    a.len() == b.len() && a.zip(b).all(|(a, b)| f(a, b))
}
fn words(a: Option<&Generics>, b: &[&str]) -> bool {
    let a: Vec<_> = a.iter().flat_map(|g| g.types.values()).collect();
    all(a.iter(), b, |a, b| a.get() == *b)
}
fn comment(a: &Comment, b: &[&str]) -> bool {
    all(a.0.iter(), b, |a, b| a.get() == *b)
}
fn ty(a: &Type, b: &simplify::Type) -> bool {
    use simplify::Type as T;
    match (&a.value, b) {
        (DataType::Bool, T::Bool)
        | (DataType::U8, T::U8)
        | (DataType::U16, T::U16)
        | (DataType::U32, T::U32)
        | (DataType::U64, T::U64)
        | (DataType::U128, T::U128)
        | (DataType::I8, T::I8)
        | (DataType::I16, T::I16)
        | (DataType::I32, T::I32)
        | (DataType::I64, T::I64)
        | (DataType::I128, T::I128)
        | (DataType::F32, T::F32)
        | (DataType::F64, T::F64)
        | (DataType::String, T::String)
        | (DataType::StringRef, T::StringRef)
        | (DataType::Bytes, T::Bytes)
        | (DataType::BytesRef, T::BytesRef)
        | (DataType::BoxString, T::BoxString)
        | (DataType::BoxBytes, T::BoxBytes) => true,
        (DataType::Vec { ty: a, .. }, T::Vec(b))
        | (DataType::HashSet { ty: a, .. }, T::HashSet(b))
        | (DataType::Option { ty: a, .. }, T::Option(b))
        | (DataType::NonZero { ty: a, .. }, T::NonZero(b)) => ty(a, b),
        (DataType::HashMap { key, value, .. }, T::HashMap(b)) => ty(key, &b.0) && ty(value, &b.1),
        (DataType::Tuple { types, .. }, T::Tuple(b)) => types.len() == b.len() && types.values().zip(b).all(|(a, b)| ty(a, b)),
        (DataType::Array { ty: a, size, .. }, T::Array(b, n)) => size == n && ty(a, b),
        (DataType::External(a), T::External(b)) => {
            all(a.path.iter(), &b.path, |a, b| a.0.get() == *b)
                && a.name.get() == b.name
                && match &a.generics {
                    Some(g) => g.len() == b.generics.len() && g.values().zip(&b.generics).all(|(a, b)| ty(a, b)),
                    None => b.generics.is_empty(),
                }
        }
        _ => false,
    }
}
fn fields(a: &Fields, b: &simplify::Fields) -> bool {
    let mut next = 1u32;
    let mut number = |g: Option<u32>, b: u32| {
        let v = g.unwrap_or(next);
        next = v.saturating_add(1);
        v == b
    };
    match a {
        Fields::Named(_, a) => {
            b.kind == simplify::FieldKind::Named
                && a.len() == b.fields.len()
                && a.values().zip(&b.fields).all(|(a, b)| {
                    comment(&a.comment, &b.comment) && a.name.get() == b.name && ty(&a.ty, &b.ty) && number(a.id.as_ref().map(|i| i.get()), b.id)
                })
        }
        Fields::Unnamed(_, a) => {
            b.kind == simplify::FieldKind::Unnamed
                && a.len() == b.fields.len()
                && a.values().zip(&b.fields).enumerate().all(|(i, (a, b))| {
                    b.comment.is_empty() && b.name == format!("n{i}") && ty(&a.ty, &b.ty) && number(a.id.as_ref().map(|i| i.get()), b.id)
                })
        }
        Fields::Unit => b.kind == simplify::FieldKind::Unit && b.fields.is_empty(),
    }
}
fn literal(a: &LiteralValue, b: &simplify::Literal) -> bool {
    use simplify::Literal as L;
    match (a, b) {
        (LiteralValue::Bool(a), L::Bool(b)) => a == b,
        (LiteralValue::Int(a), L::Int(b)) => a == b,
        (LiteralValue::Float(a), L::Float(b)) => a.to_bits() == b.to_bits(),
        (LiteralValue::String(a), L::String(b)) => a.as_str() == &**b,
        (LiteralValue::Bytes(a), L::Bytes(b)) => a[..] == b[..],
        _ => false,
    }
}
fn definition(a: &Definition, b: &simplify::Definition) -> bool {
    use simplify::Definition as D;
    match (a, b) {
        (Definition::Module(a), D::Module(b)) => comment(&a.comment, &b.comment) && a.name.get() == b.name && all(a.definitions.iter(), &b.definitions, definition),
        (Definition::Struct(a), D::Struct(b)) => {
            comment(&a.comment, &b.comment) && a.name.get() == b.name && words(a.generics.as_ref(), &b.generics) && fields(&a.fields, &b.fields)
        }
        (Definition::Enum(a), D::Enum(b)) => {
            let mut next = 1u32;
            comment(&a.comment, &b.comment)
                && a.name.get() == b.name
                && words(a.generics.as_ref(), &b.generics)
                && a.variants.len() == b.variants.len()
                && a.variants.values().zip(&b.variants).all(|(a, b)| {
                    let v = a.id.as_ref().map_or(next, |i| i.get());
                    next = v.saturating_add(1);
                    v == b.id && comment(&a.comment, &b.comment) && a.name.get() == b.name && fields(&a.fields, &b.fields)
                })
        }
        (Definition::TypeAlias(a), D::TypeAlias(b)) => {
            comment(&a.comment, &b.comment) && a.name.get() == b.name && words(a.generics.as_ref(), &b.generics) && ty(&a.target, &b.target)
        }
        (Definition::Const(a), D::Const(b)) => {
            comment(&a.comment, &b.comment) && a.name.get() == b.name && ty(&a.ty, &b.ty) && literal(&a.value.value, &b.value)
        }
        (Definition::Import(a), D::Import(b)) => {
            all(a.segments.iter(), &b.segments, |a, b| a.get() == *b) && a.element.as_ref().map(|e| e.1.get()) == b.element.as_deref()
        }
        _ => false,
    }
}

fn same(text: &str) {
    let Ok(a) = Schema::parse(text, None) else { return };
    sym::cover("accepted");
    let b = mabo_compiler::simplify_schema(&a);
    sym::check(comment(&a.comment, &b.comment) && all(a.definitions.iter(), &b.definitions, definition), "the simplified schema says the same");
}

macro_rules! groups {
    ($f:ident, $($name:ident $n:literal $long:ident $m:literal $t:ident,)*) => {
        sym::harness! {
            $(fn $name() { fill_upto::<$n>("", $t, $f) }
            fn $long() { fill_upto::<$m>("", $t, $f) })*
        }
    };
}

pub mod never_fails {
    use super::*;
    groups! { total,
        c07_top 3 t_c07_top 5 TOP,
        c07_structs 3 t_c07_structs 4 STRUCTS,
        c07_generics 3 t_c07_generics 5 GENERICS,
        c07_enums 3 t_c07_enums 4 ENUMS,
        c07_modules 3 t_c07_modules 4 MODULES,
        c07_consts 3 t_c07_consts 4 CONSTS,
        c07_literals 3 t_c07_literals 4 LITERALS,
        c07_aliases 3 t_c07_aliases 4 ALIASES,
        c07_imports 4 t_c07_imports 5 IMPORTS,
        c07_comments 3 t_c07_comments 4 COMMENTS,
        c07_types 3 t_c07_types 4 TYPES,
        c07_compound 3 t_c07_compound 4 COMPOUND,
    }
}
pub mod says_the_same {
    use super::*;
    groups! { same,
        c06_top 4 t_c06_top 5 TOP,
        c06_structs 4 t_c06_structs 5 STRUCTS,
        c06_generics 4 t_c06_generics 5 GENERICS,
        c06_enums 4 t_c06_enums 5 ENUMS,
        c06_modules 4 t_c06_modules 5 MODULES,
        c06_consts 3 t_c06_consts 4 CONSTS,
        c06_literals 3 t_c06_literals 4 LITERALS,
        c06_aliases 4 t_c06_aliases 5 ALIASES,
        c06_imports 4 t_c06_imports 5 IMPORTS,
        c06_comments 4 t_c06_comments 5 COMMENTS,
        c06_attributes 3 t_c06_attributes 4 ATTRIBUTES,
        c06_types 4 t_c06_types 5 TYPES,
        c06_compound 4 t_c06_compound 5 COMPOUND,
    }
}
