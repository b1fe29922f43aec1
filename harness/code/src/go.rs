//! Generated Go code.

use crate::{output::*, schemas::*};
use mabo_compiler::simplify::*;
use mabo_go::{render_schema, Opts, Output};

/// A name as it is written in Go: for names of at most two words, of which the second has a single letter.
fn camel(name: &str) -> String {
    let b = name.as_bytes();
    let mut o = vec![b[0].to_ascii_uppercase()];
    for c in &b[1..] {
        if *c != b'_' {
            o.push(c.to_ascii_lowercase());
        }
    }
    String::from_utf8(o).unwrap()
}

/// The Go type.
fn go(t: &Type) -> String {
    let list = |t: &[Type]| if t.is_empty() { String::new() } else { format!("[{}]", t.iter().map(go).collect::<Vec<_>>().join(", ")) };
    let plain = |t: &Type| format!("{t:?}");
    match t {
        Type::Bool => "bool".into(),
        Type::U8 | Type::U16 | Type::U32 | Type::U64 => plain(t).replace('U', "uint"),
        Type::I8 | Type::I16 | Type::I32 | Type::I64 => plain(t).replace('I', "int"),
        Type::U128 | Type::I128 => "*big.Int".into(),
        Type::F32 | Type::F64 => plain(t).replace('F', "float"),
        Type::String | Type::StringRef | Type::BoxString => "string".into(),
        Type::Bytes | Type::BytesRef | Type::BoxBytes => "[]byte".into(),
        Type::Vec(t) => format!("[]{}", go(t)),
        Type::HashMap(t) => format!("map[{}]{}", go(&t.0), go(&t.1)),
        Type::HashSet(t) => format!("map[{}]struct{{}}", go(t)),
        Type::Option(t) => format!("*{}", go(t)),
        Type::Tuple(t) => format!("mabo.Tuple{}{}", t.len(), list(t)),
        Type::Array(t, n) => format!("[{n}]{}", go(t)),
        Type::External(e) => format!("{}{}{}", e.path.last().map(|p| format!("{p}.")).unwrap_or_default(), camel(e.name), list(&e.generics)),
        Type::NonZero(t) => {
            "mabo.NonZero".to_owned()
                + &match &**t {
                    Type::String | Type::StringRef => "String".into(),
                    Type::Bytes | Type::BytesRef => "Bytes".into(),
                    Type::Vec(t) => format!("Vec[{}]", go(t)),
                    Type::HashMap(t) => format!("HashMap[{}, {}]", go(&t.0), go(&t.1)),
                    Type::HashSet(t) => format!("HashSet[{}]", go(t)),
                    t => plain(t),
                }
        }
    }
}

/// The functions a value goes through, outermost first.
fn calls(t: &Type, kind: &str, o: &mut Vec<String>) {
    let mut add = |n: &str| o.push(format!("{kind}{n}"));
    match t {
        Type::String | Type::StringRef | Type::BoxString => add("String"),
        Type::Bytes | Type::BytesRef | Type::BoxBytes => add("Bytes"),
        Type::External(_) => add(""),
        Type::Tuple(t) => t.iter().for_each(|t| calls(t, kind, o)),
        Type::Vec(t) => {
            add("Vec");
            calls(t, kind, o)
        }
        Type::HashSet(t) => {
            add("HashSet");
            calls(t, kind, o)
        }
        Type::Option(t) => {
            add("Option");
            calls(t, kind, o)
        }
        Type::Array(t, n) => {
            add(&format!("Array{n}"));
            calls(t, kind, o)
        }
        Type::HashMap(t) => {
            add("HashMap");
            calls(&t.0, kind, o);
            calls(&t.1, kind, o)
        }
        Type::NonZero(t) if kind == "Decode" => {
            let i = o.len();
            calls(t, kind, o);
            o[i].insert_str(kind.len(), "NonZero");
        }
        Type::NonZero(t) => calls(t, kind, o),
        t => add(&format!("{t:?}")),
    }
}

fn uses(code: &Code, kind: &str, t: &Type, msg: &'static str) {
    let got = code.calls(|w| w.starts_with(kind.as_bytes()) && !w.starts_with(b"EncodeField") && !w.starts_with(b"SizeField") && w != b"DecodeID");
    let mut want = vec![];
    calls(t, kind, &mut want);
    sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| *a == b.as_bytes()), msg);
}

fn inner<'a, 'b>(t: &'a Type<'b>) -> (bool, &'a Type<'b>) {
    if let Type::Option(t) = t { (true, t) } else { (false, t) }
}

/// The body of a method of the type.
fn method<'a>(code: &mut Code<'a>, name: &str, params: &str, signature: &str) -> Code<'a> {
    sym::check(code.find(&format!("func (v *{name}{params}) {signature} {{")), "there is code to write, read and measure each type");
    code.until("var _ buf.")
}

fn fields(code: &mut Code, name: &str, params: [&str; 2], f: &Fields) {
    sym::check(code.find(&format!("type {name}{} struct {{", params[0])), "types are declared");
    for d in &f.fields {
        sym::check(code.next(&format!("{} {}", camel(&d.name), go(&d.ty))), "fields are declared in order with their names and types");
    }
    sym::check(code.next("}"), "no other fields are declared");
    sym::check(code.find(&format!("func New{name}{}(", params[0])), "there is a constructor");
    for d in &f.fields {
        sym::check(code.next(&format!("{} {},", lower(&d.name), go(&d.ty))), "the constructor takes the fields");
    }
    sym::check(code.next(&format!(") {name}{} {{ return {name}{}{{", params[1], params[1])), "the constructor returns the type");
    for d in &f.fields {
        sym::check(code.next(&format!("{}: {},", camel(&d.name), lower(&d.name))), "the constructor sets the fields");
    }

    let mut w = method(code, name, params[1], "Encode(w []byte) []byte");
    sym::check(w.count("EncodeField(") + w.count("EncodeFieldOption[") == f.fields.len(), "each field is written once");
    for d in &f.fields {
        let (option, t) = inner(&d.ty);
        let call = if option { format!("w = buf.EncodeFieldOption[{}](w, {}, &v.{},", go(t), d.id, camel(&d.name)) } else { format!("w = buf.EncodeField(w, {},", d.id) };
        sym::check(w.find(&call), "fields are written with their numbers");
        uses(&w.until("buf.EncodeField").until("buf.EncodeFieldOption").until("w = buf.EncodeU32(w, buf.EndMarker)"), "Encode", t, "a field is written with the functions of its type");
    }
    sym::check(f.kind == FieldKind::Unit || w.find("w = buf.EncodeU32(w, buf.EndMarker)"), "the end of the fields is written");

    let mut r = method(code, name, params[1], "Decode(r []byte) ([]byte, error)");
    sym::check(r.find("switch id {"), "fields are read by their numbers");
    for d in &f.fields {
        sym::check(r.next(&format!("case {}: r2, value, err :=", d.id)), "fields are read by the numbers they are written with");
        let set = format!("r = r2 v.{} = value found{} = true", camel(&d.name), camel(&d.name));
        uses(&r.until(&set), "Decode", &d.ty, "a field is read with the functions of its type");
        sym::check(r.find(&set), "a field that is read is set");
    }
    sym::check(r.next("case buf.EndMarker: break }"), "no other fields are read");
    for d in &f.fields {
        let shown = if f.kind == FieldKind::Named { &d.name } else { "" };
        sym::check(r.find(&format!("if !found{} {{ return nil, buf.MissingFieldError{{ ID: {}, Field: \"{shown}\",", camel(&d.name), d.id)), "a missing field is reported with its name and number");
    }

    let mut m = method(code, name, params[1], "Size() int");
    sym::check(m.count("SizeField(") + m.count("SizeFieldOption[") == f.fields.len(), "each field is measured once");
    for d in &f.fields {
        let (option, t) = inner(&d.ty);
        let call = if option { format!("size += buf.SizeFieldOption[{}]({}, &v.{},", go(t), d.id, camel(&d.name)) } else { format!("size += buf.SizeField({},", d.id) };
        sym::check(m.find(&call), "fields are measured with the numbers they are written with");
        uses(&m.until("buf.SizeField").until("buf.SizeFieldOption").until("size += buf.EndMarkerSize"), "Size", t, "a field is measured with the functions of its type");
    }
    sym::check(f.kind == FieldKind::Unit || m.find("size += buf.EndMarkerSize"), "the end of the fields is measured");
}

fn lower(name: &str) -> String {
    let mut c = camel(name).into_bytes();
    c[0] = c[0].to_ascii_lowercase();
    String::from_utf8(c).unwrap()
}

/// Declared type parameters, and their use.
fn params(p: &[&str], used: impl Fn(&str) -> bool) -> [String; 2] {
    let p: Vec<_> = p.iter().filter(|p| used(p)).map(|p| camel(p)).collect();
    if p.is_empty() {
        return Default::default();
    }
    [format!("[{}]", p.iter().map(|p| format!("{p} any")).collect::<Vec<_>>().join(", ")), format!("[{}]", p.join(", "))]
}

fn mentions(t: &Type, p: &str) -> bool {
    match t {
        Type::External(e) => e.path.is_empty() && e.generics.is_empty() && e.name == p || e.generics.iter().any(|t| mentions(t, p)),
        Type::Vec(t) | Type::HashSet(t) | Type::Option(t) | Type::NonZero(t) | Type::Array(t, _) => mentions(t, p),
        Type::HashMap(t) => mentions(&t.0, p) || mentions(&t.1, p),
        Type::Tuple(t) => t.iter().any(|t| mentions(t, p)),
        _ => false,
    }
}

fn definitions(o: &Output, package: &str, d: &[Definition], numbers: bool) {
    let w = words(&o.content);
    let mut code = Code::new(&w);
    sym::check(code.next("package"), "the code is that of a package");
    sym::check(code.words[code.at] == camel(package).to_ascii_lowercase().as_bytes(), "the package has the name of the module");
    let mut modules = o.modules.iter();
    for d in d {
        match d {
            Definition::Module(m) => {
                let o = modules.next();
                sym::check(o.is_some_and(|o| o.name == m.name), "there is code for each module");
                definitions(o.unwrap(), m.name, &m.definitions, numbers);
            }
            Definition::Struct(s) => {
                let [a, b] = params(&s.generics, |_| true);
                fields(&mut code, &camel(s.name), [&a, &b], &s.fields)
            }
            Definition::Enum(e) => {
                let name = camel(e.name);
                sym::check(code.find(&format!("type {name}Variant interface {{ sealed() }} type {name} {name}Variant")), "enums are declared");
                for v in &e.variants {
                    let [a, b] = params(&e.generics, |g| v.fields.fields.iter().any(|f| mentions(&f.ty, g)));
                    let start = code.at;
                    fields(&mut code, &format!("{name}_{}", camel(v.name)), [&a, &b], &v.fields);
                    let mut all = Code { words: &code.words[..code.at], at: start };
                    sym::check(!numbers || all.find(&format!("{}", v.id)), "variants are written with their numbers");
                }
            }
            Definition::TypeAlias(a) => sym::check(code.find(&format!("type {} {}", camel(a.name), go(&a.target))), "type aliases are declared"),
            Definition::Const(c) => {
                let word = match c.ty {
                    Type::U128 | Type::I128 | Type::Bytes | Type::BytesRef => "var",
                    _ => "const",
                };
                sym::check(code.find(&format!("{word} {} {} =", camel(c.name), go(&c.ty))), "constants are declared")
            }
            Definition::Import(_) => {}
        }
    }
    sym::check(modules.next().is_none(), "there is no code for other modules");
}

fn judge(s: &Schema) {
    definitions(&render_schema(&Opts { package: "p" }, s), "p", &s.definitions, false);
}

fn constants(kind: u8, control: bool) {
    constant(kind, control, |s, value| {
        let o = render_schema(&Opts { package: "p" }, s);
        let (word, t) = [("const", "bool"), ("const", "uint32"), ("const", "int32"), ("const", "int64"), ("const", "string"), ("var", "[]byte"), ("const", "float64")][kind as usize];
        let w = words(&o.content);
        let mut code = Code::new(&w);
        sym::check(code.find(&format!("{word} C {t} =")), "constants are declared with their types");
        let got = rest(&code);
        let text = std::str::from_utf8(&got).unwrap_or_default();
        let same = match value {
            Literal::Bool(b) => text == if *b { "true" } else { "false" },
            Literal::Int(i) => text == i.to_string(),
            // There are no constants of negative zero in Go.
            Literal::Float(f) => text.parse::<f64>().is_ok_and(|g| g == *f),
            Literal::String(s) => unquote(&got, true).as_deref() == Some(s.as_bytes()),
            Literal::Bytes(b) => text == format!("[]byte{{{}}}", b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")),
        };
        sym::check(same, "constants have the value of the schema");
    })
}

sym::harness! {
    fn g06_go_types() { with(&typed(1), |s| judge(s)) }
    fn g06_go_sizes() { with(&sized(32), |s| judge(s)) }
    fn g06_go_large() { with(&sized(33), |s| judge(s)) }
    fn g06_go_numbers() {
        with(NUMBERED[sym::below(NUMBERED.len() as u8) as usize].as_bytes(), |s| {
            renumber(&mut s.definitions);
            judge(s)
        })
    }
    fn g06_go_variants() {
        with(b"enum F { A, B(u8) }", |s| {
            renumber(&mut s.definitions);
            definitions(&render_schema(&Opts { package: "p" }, s), "p", &s.definitions, true);
        })
    }
    fn g06_go_names() { with(&named(2), |s| judge(s)) }
    fn g06_go_parameters() { with(&parameters(), |s| judge(s)) }
    fn g06_go_constants() { constants(sym::below(7), false) }
    fn g06_go_control() { constants(4, true) }
    fn t_g06_go_types() { with(&typed(2), |s| judge(s)) }
}
