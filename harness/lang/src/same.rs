//! Whether two syntax trees are the same up to locations.

use mabo_parser::{punctuated::Punctuated, Attribute, AttributeValue, Comment, DataType, Definition, Fields, Generics, Literal, LiteralValue, Name, Schema, Type};

pub fn schema(a: &Schema, b: &Schema) -> bool {
    comment(&a.comment, &b.comment) && all(&a.definitions, &b.definitions, definition)
}

fn all<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| f(a, b))
}

fn opt<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => f(a, b),
        (None, None) => true,
        _ => false,
    }
}

fn list<T>(a: &Punctuated<T>, b: &Punctuated<T>, f: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.values().zip(b.values()).all(|(a, b)| f(a, b))
}

fn comment(a: &Comment, b: &Comment) -> bool {
    all(&a.0, &b.0, |a, b| a.get() == b.get())
}

fn name(a: &Name, b: &Name) -> bool {
    a.get() == b.get()
}

fn generics(a: &Option<Generics>, b: &Option<Generics>) -> bool {
    opt(a, b, |a, b| list(&a.types, &b.types, name))
}

fn attribute(a: &Attribute, b: &Attribute) -> bool {
    a.name == b.name
        && match (&a.value, &b.value) {
            (AttributeValue::Unit, AttributeValue::Unit) => true,
            (AttributeValue::Single(a), AttributeValue::Single(b)) => literal(a, b),
            (AttributeValue::Multi(a), AttributeValue::Multi(b)) => all(a, b, attribute),
            _ => false,
        }
}

fn literal(a: &Literal, b: &Literal) -> bool {
    match (&a.value, &b.value) {
        (LiteralValue::Bool(a), LiteralValue::Bool(b)) => a == b,
        (LiteralValue::Int(a), LiteralValue::Int(b)) => a == b,
        (LiteralValue::Float(a), LiteralValue::Float(b)) => a.to_bits() == b.to_bits(),
        (LiteralValue::String(a), LiteralValue::String(b)) => a == b,
        (LiteralValue::Bytes(a), LiteralValue::Bytes(b)) => a == b,
        _ => false,
    }
}

pub fn ty(a: &Type, b: &Type) -> bool {
    use DataType::*;
    match (&a.value, &b.value) {
        (Vec { ty: a, .. }, Vec { ty: b, .. })
        | (HashSet { ty: a, .. }, HashSet { ty: b, .. })
        | (Option { ty: a, .. }, Option { ty: b, .. })
        | (NonZero { ty: a, .. }, NonZero { ty: b, .. }) => ty(a, b),
        (HashMap { key: a, value: x, .. }, HashMap { key: b, value: y, .. }) => ty(a, b) && ty(x, y),
        (Tuple { types: a, .. }, Tuple { types: b, .. }) => list(a, b, ty),
        (Array { ty: a, size: n, .. }, Array { ty: b, size: m, .. }) => ty(a, b) && n == m,
        (External(a), External(b)) => {
            all(&a.path, &b.path, |a, b| name(&a.0, &b.0)) && name(&a.name, &b.name) && opt(&a.generics, &b.generics, |a, b| list(a, b, ty))
        }
        (Vec { .. } | HashSet { .. } | Option { .. } | NonZero { .. } | HashMap { .. } | Tuple { .. } | Array { .. } | External(_), _) => false,
        (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

fn fields(a: &Fields, b: &Fields) -> bool {
    match (a, b) {
        (Fields::Named(_, a), Fields::Named(_, b)) => list(a, b, |a, b| {
            comment(&a.comment, &b.comment) && name(&a.name, &b.name) && ty(&a.ty, &b.ty) && opt(&a.id, &b.id, |a, b| a.get() == b.get())
        }),
        (Fields::Unnamed(_, a), Fields::Unnamed(_, b)) => list(a, b, |a, b| ty(&a.ty, &b.ty) && opt(&a.id, &b.id, |a, b| a.get() == b.get())),
        (Fields::Unit, Fields::Unit) => true,
        _ => false,
    }
}

fn definition(a: &Definition, b: &Definition) -> bool {
    match (a, b) {
        (Definition::Module(a), Definition::Module(b)) => comment(&a.comment, &b.comment) && name(&a.name, &b.name) && all(&a.definitions, &b.definitions, definition),
        (Definition::Struct(a), Definition::Struct(b)) => {
            comment(&a.comment, &b.comment)
                && all(&a.attributes.0, &b.attributes.0, attribute)
                && name(&a.name, &b.name)
                && generics(&a.generics, &b.generics)
                && fields(&a.fields, &b.fields)
        }
        (Definition::Enum(a), Definition::Enum(b)) => {
            comment(&a.comment, &b.comment)
                && all(&a.attributes.0, &b.attributes.0, attribute)
                && name(&a.name, &b.name)
                && generics(&a.generics, &b.generics)
                && list(&a.variants, &b.variants, |a, b| {
                    comment(&a.comment, &b.comment) && name(&a.name, &b.name) && fields(&a.fields, &b.fields) && opt(&a.id, &b.id, |a, b| a.get() == b.get())
                })
        }
        (Definition::TypeAlias(a), Definition::TypeAlias(b)) => {
            comment(&a.comment, &b.comment) && name(&a.name, &b.name) && generics(&a.generics, &b.generics) && ty(&a.target, &b.target)
        }
        (Definition::Const(a), Definition::Const(b)) => comment(&a.comment, &b.comment) && name(&a.name, &b.name) && ty(&a.ty, &b.ty) && literal(&a.value, &b.value),
        (Definition::Import(a), Definition::Import(b)) => {
            name(&a.full, &b.full) && all(&a.segments, &b.segments, name) && opt(&a.element, &b.element, |a, b| name(&a.1, &b.1))
        }
        _ => false,
    }
}
