//! Generated Rust code.

use crate::{output::*, schemas::*};
use mabo_build::{compile_schema, Opts};
use mabo_compiler::simplify::*;

/// How a field of the type is encoded.
fn encoding(t: &Type) -> &'static str {
    match t {
        Type::Bool | Type::U8 | Type::I8 => "Fixed1",
        Type::F32 => "Fixed4",
        Type::F64 => "Fixed8",
        Type::U16 | Type::U32 | Type::U64 | Type::U128 | Type::I16 | Type::I32 | Type::I64 | Type::I128 => "Varint",
        Type::NonZero(t) => encoding(t),
        _ => "LengthPrefixed",
    }
}

/// The Rust type.
fn rust(t: &Type) -> String {
    let list = |t: &[Type]| t.iter().map(|t| rust(t) + ",").collect::<String>();
    let plain = |t: &Type| format!("{t:?}");
    match t {
        Type::String | Type::StringRef => "String".into(),
        Type::Bytes | Type::BytesRef => "Vec<u8>".into(),
        Type::Vec(t) => format!("Vec<{}>", rust(t)),
        Type::HashMap(t) => format!("::std::collections::HashMap<{}, {}>", rust(&t.0), rust(&t.1)),
        Type::HashSet(t) => format!("::std::collections::HashSet<{}>", rust(t)),
        Type::Option(t) => format!("Option<{}>", rust(t)),
        Type::BoxString => "Box<str>".into(),
        Type::BoxBytes => "Box<[u8]>".into(),
        Type::Tuple(t) => format!("({})", list(t)),
        Type::Array(t, n) => format!("[{}; {n}]", rust(t)),
        Type::External(e) => {
            let path = e.path.iter().map(|p| format!("{p}::")).collect::<String>();
            let generics = if e.generics.is_empty() { String::new() } else { format!("<{}>", list(&e.generics)) };
            format!("{path}{}{generics}", e.name)
        }
        Type::NonZero(t) => match &**t {
            Type::String | Type::StringRef => "::mabo::NonZeroString".into(),
            Type::Bytes | Type::BytesRef => "::mabo::NonZeroBytes".into(),
            Type::Vec(t) => format!("::mabo::NonZeroVec<{}>", rust(t)),
            Type::HashMap(t) => format!("::mabo::NonZeroHashMap<{}, {}>", rust(&t.0), rust(&t.1)),
            Type::HashSet(t) => format!("::mabo::NonZeroHashSet<{}>", rust(t)),
            t => format!("::std::num::NonZero{}", plain(t)),
        },
        t => plain(t).to_lowercase(),
    }
}

/// The functions a value goes through, outermost first.
fn calls(t: &Type, kind: &str, o: &mut Vec<String>) {
    let mut add = |n: &str| o.push(format!("{kind}_{n}"));
    match t {
        Type::String | Type::StringRef => add("string"),
        Type::Bytes | Type::BytesRef => add("bytes_std"),
        Type::BoxString | Type::BoxBytes if kind == "decode" => o.push("decode".into()),
        Type::BoxString => add("string"),
        Type::BoxBytes => add("bytes_std"),
        Type::External(_) => o.push(kind.into()),
        Type::Tuple(t) => t.iter().for_each(|t| calls(t, kind, o)),
        Type::Vec(t) => {
            add("vec");
            calls(t, kind, o)
        }
        Type::HashSet(t) => {
            add("hash_set");
            calls(t, kind, o)
        }
        Type::Option(t) => {
            add("option");
            calls(t, kind, o)
        }
        Type::Array(t, _) => {
            add("array");
            calls(t, kind, o)
        }
        Type::HashMap(t) => {
            add("hash_map");
            calls(&t.0, kind, o);
            calls(&t.1, kind, o)
        }
        Type::NonZero(t) if kind == "decode" => {
            let i = o.len();
            calls(t, kind, o);
            o[i].insert_str(kind.len(), "_non_zero");
        }
        Type::NonZero(t) => calls(t, kind, o),
        t => add(&format!("{t:?}").to_lowercase()),
    }
}

fn in_field(t: &Type, kind: &str) -> Vec<String> {
    let mut o = vec![];
    // Optional fields are left out of what is encoded if there is nothing in them.
    let t = if let Type::Option(t) = t { t } else { t };
    if let (Type::Tuple(_), true) = (t, kind != "size") {
        // The length in front of it.
        o.push(if kind == "encode" { "encode_tuple" } else { "decode_u64" }.into());
    }
    calls(t, kind, &mut o);
    o
}

fn uses(code: &Code, kind: &str, t: &Type, msg: &'static str) {
    let prefix = format!("{kind}_");
    let other = |w: &[u8]| w == b"decode_id" || w == b"decode_skip";
    let got = code.calls(|w| (w.starts_with(prefix.as_bytes()) && !other(w)) || w == kind.as_bytes());
    let want = in_field(t, kind);
    sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| *a == b.as_bytes()), msg);
}

const ORDER: &str = "the fields and variants are written in order with their names and numbers";

fn written(code: &mut Code, f: &Fields) {
    sym::check(code.count("::mabo::FieldId::new(") == f.fields.len(), "each field is written once");
    for f in &f.fields {
        let option = matches!(f.ty, Type::Option(_));
        let t = if let Type::Option(t) = &f.ty { t } else { &f.ty };
        let id = format!("::mabo::FieldId::new({}, ::mabo::FieldEncoding::{})", f.id, encoding(t));
        let call = if option { format!("::mabo::buf::encode_field_option(w, {id}, {},", f.name) } else { format!("::mabo::buf::encode_field(w, {id},") };
        sym::check(code.find(&call), ORDER);
        uses(&code.until("; });"), "encode", &f.ty, "a field is written with the functions of its type");
    }
    if f.kind != FieldKind::Unit {
        sym::check(code.find("::mabo::buf::encode_u32(w, ::mabo::buf::END_MARKER);"), "the end of the fields is written");
    }
}

const READ: &str = "fields and variants are read by the numbers they are written with";

fn read(code: &mut Code, f: &Fields) {
    for f in &f.fields {
        let t = rust(&f.ty);
        sym::check(code.find(&if matches!(f.ty, Type::Option(_)) { format!("let mut {}: {t} = None;", f.name) } else { format!("let mut {}: Option<{t}> = None;", f.name) }), "there is a place for each field that is read");
    }
    if f.kind == FieldKind::Unit {
        return;
    }
    sym::check(code.find("match id.value { ::mabo::buf::END_MARKER => break,"), "reading stops at the end of the fields");
    for f in &f.fields {
        sym::check(code.next(&format!("{} => {} = Some(", f.id, f.name)), READ);
        let value = code.until("?),");
        // Inside of tuples there are question marks as well.
        let value = if matches!(&f.ty, Type::Tuple(_)) || matches!(&f.ty, Type::Option(t) if matches!(**t, Type::Tuple(_))) { code.until("} ?),") } else { value };
        uses(&value, "decode", &f.ty, "a field is read with the functions of its type");
        code.at = value.words.len();
        sym::check(code.find("?),"), READ);
    }
    sym::check(code.next("_ => ::mabo::buf::decode_skip(r, id.encoding)?,"), "no other fields are read");
    for d in &f.fields {
        if matches!(d.ty, Type::Option(_)) {
            continue;
        }
        let name = if f.kind == FieldKind::Named { format!("Some(\"{}\")", d.name) } else { "None".into() };
        sym::check(code.find(&format!("{}.ok_or(::mabo::buf::Error::MissingField {{ id: {}, name: {name},", d.name, d.id)), "a missing field is reported with its name and number");
    }
}

fn measured(code: &mut Code, f: &Fields) {
    sym::check(code.count("size_field(") + code.count("size_field_option(") == f.fields.len(), "each field is measured once");
    for f in &f.fields {
        let call = if matches!(f.ty, Type::Option(_)) { format!("::mabo::buf::size_field_option({}, {}.as_ref(), |v|", f.id, f.name) } else { format!("::mabo::buf::size_field({}, ||", f.id) };
        sym::check(code.find(&call), "fields are measured with the numbers they are written with");
        uses(&code.until("+ ::mabo::buf::END_MARKER_SIZE").until("+ ::mabo::buf::size_field(").until("+ ::mabo::buf::size_field_option("), "size", &f.ty, "a field is measured with the functions of its type");
    }
    sym::check(f.kind == FieldKind::Unit || code.find("::mabo::buf::END_MARKER_SIZE"), "the end of the fields is measured");
}

/// The code up to the next implementation.
fn part<'a>(code: &mut Code<'a>, which: &str, name: &str) -> Code<'a> {
    sym::check(code.find(which) && code.find(&format!("for {name}")), "there is code to write, read and measure each type");
    let p = code.until("#[automatically_derived]");
    let m = code.until("pub ");
    // A struct that follows.
    let p = if which.contains("Size") { m } else { p };
    code.at = p.words.len();
    p
}

fn declared(code: &mut Code, f: &Fields) {
    for d in &f.fields {
        let t = rust(&d.ty);
        sym::check(code.find(&if f.kind == FieldKind::Named { format!("{}: {t},", d.name) } else { format!("{t},") }), "fields are declared in order with their names and types");
    }
}

fn definitions(code: &mut Code, d: &[Definition]) {
    for d in d {
        match d {
            Definition::Module(m) => {
                sym::check(code.find(&format!("pub mod {} {{", m.name)), "modules are declared");
                definitions(code, &m.definitions);
            }
            Definition::Struct(s) => {
                sym::check(code.find(&format!("pub struct {}", s.name)), "structs are declared");
                declared(code, &s.fields);
                written(&mut part(code, "::mabo::Encode", s.name), &s.fields);
                read(&mut part(code, "::mabo::Decode", s.name), &s.fields);
                measured(&mut part(code, "::mabo::buf::Size", s.name), &s.fields);
            }
            Definition::Enum(e) => {
                sym::check(code.find(&format!("pub enum {}", e.name)) && (e.generics.is_empty() || code.next("<")), "enums are declared");
                for v in &e.variants {
                    sym::check(code.find(v.name), "variants are declared");
                    declared(code, &v.fields);
                }
                let variant = |code: &mut Code<'_>, pattern: &str| sym::check(code.find(pattern), ORDER);
                let mut w = part(code, "::mabo::Encode", e.name);
                sym::check(w.count("encode_variant_id(") == e.variants.len(), "each variant is written");
                for v in &e.variants {
                    variant(&mut w, &format!("Self::{}", v.name));
                    variant(&mut w, &format!("::mabo::buf::encode_variant_id(w, ::mabo::VariantId::new({}));", v.id));
                    let mut fields = w.until("encode_variant_id(");
                    written(&mut fields, &v.fields);
                }
                let mut r = part(code, "::mabo::Decode", e.name);
                sym::check(r.find("match ::mabo::buf::decode_variant_id(r)?.value {"), READ);
                for v in &e.variants {
                    let unit = v.fields.kind == FieldKind::Unit;
                    sym::check(if unit { r.next(&format!("{} => Ok(Self::{}),", v.id, v.name)) } else { r.next(&format!("{} => {{", v.id)) }, READ);
                    if unit {
                        continue;
                    }
                    read(&mut r, &v.fields);
                    sym::check(r.find("} ,") || r.find(") }"), READ);
                }
                sym::check(r.find("id => Err(::mabo::buf::Error::UnknownVariant(id)),"), "no other variants are read");
                let mut m = part(code, "::mabo::buf::Size", e.name);
                for v in &e.variants {
                    variant(&mut m, &format!("Self::{}", v.name));
                    sym::check(m.find(&format!("::mabo::buf::size_variant_id({})", v.id)), "variants are measured with the numbers they are written with");
                    let mut fields = m.until("size_variant_id(");
                    measured(&mut fields, &v.fields);
                }
            }
            Definition::TypeAlias(a) => {
                let generics = if a.generics.is_empty() { String::new() } else { format!("<{}>", a.generics.iter().map(|g| format!("{g},")).collect::<String>()) };
                sym::check(code.find(&format!("pub type {}{generics} = {};", a.name, rust(&a.target))), "type aliases are declared");
            }
            Definition::Const(c) => sym::check(code.find(&format!("pub const {}:", c.name)), "constants are declared"),
            Definition::Import(_) => {}
        }
    }
}

fn judge(s: &Schema) {
    let text = compile_schema(&Opts::default(), s).to_string();
    let w = words(&text);
    definitions(&mut Code::new(&w), &s.definitions);
}

fn constants(kind: u8) {
    constant(kind, true, |s, value| {
        let text = compile_schema(&Opts::default(), s).to_string();
        let w = words(&text);
        let mut code = Code::new(&w);
        let t = ["bool", "u32", "i32", "i64", "&str", "&[u8]", "f64"][kind as usize];
        sym::check(code.find(&format!("pub const C: {t} =")), "constants are declared with their types");
        let got = rest(&code);
        let text = std::str::from_utf8(&got).unwrap_or_default();
        let same = match value {
            Literal::Bool(b) => text == if *b { "true" } else { "false" },
            Literal::Int(i) => text == i.to_string(),
            Literal::Float(f) => (text.contains('.') || text.contains('e')) && text.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits()),
            Literal::String(s) => unquote(&got, false).as_deref() == Some(s.as_bytes()),
            Literal::Bytes(b) => got.strip_prefix(b"b").and_then(|g| unquote(g, false)).as_deref() == Some(b),
        };
        sym::check(same, "constants have the value of the schema");
    })
}

sym::harness! {
    fn g06_rust_types() { with(&typed(1), |s| judge(s)) }
    fn g06_rust_sizes() { with(&sized(33), |s| judge(s)) }
    fn g06_rust_numbers() {
        with(NUMBERED[sym::below(NUMBERED.len() as u8) as usize].as_bytes(), |s| {
            renumber(&mut s.definitions);
            judge(s)
        })
    }
    fn g06_rust_names() { with(&named(2), |s| judge(s)) }
    fn g06_rust_constants() { constants(sym::below(7)) }
    fn t_g06_rust_types() { with(&typed(2), |s| judge(s)) }
    fn t_g06_rust_names() { with(&named(3), |s| judge(s)) }
}
