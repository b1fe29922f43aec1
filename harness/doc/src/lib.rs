//! The rendered documentation, read back.

#[path = "../../comp/src/model.rs"]
#[allow(dead_code)]
mod model;
mod page;
#[path = "../../code/src/schemas.rs"]
#[allow(dead_code)]
mod schemas;

use mabo_compiler::simplify::*;
use mabo_doc::{render_schema, Opts, Output};
use page::*;
use schemas::*;
use sym::check;

fn name<'a>(d: &'a Definition) -> (&'static str, &'a str) {
    match d {
        Definition::Module(d) => ("module", d.name),
        Definition::Struct(d) => ("struct", d.name),
        Definition::Enum(d) => ("enum", d.name),
        Definition::TypeAlias(d) => ("alias", d.name),
        Definition::Const(d) => ("constant", d.name),
        Definition::Import(_) => ("", ""),
    }
}

fn file(d: &Definition) -> String {
    match name(d) {
        ("module", n) => format!("{n}/index.html"),
        (k, n) => format!("{k}.{n}.html"),
    }
}

fn same_path(o: &Output, path: &[&str]) -> bool {
    o.path.len() == path.len() && o.path.iter().zip(path).all(|(a, b)| **a == **b)
}

/// Everything behind the links to the style and the parents.
fn links(o: &Output, path: &[&str], page: bool) -> Vec<Vec<u8>> {
    let l = attributes(&o.content, "href=\"");
    let up = path.len() - usize::from(!page);
    check(l.len() > up, "pages have links to their parents");
    check(l[0] == [b"../".repeat(path.len()), b"assets/style.css".to_vec()].concat(), "the style is found in the root");
    for i in 0..up {
        check(l[i + 1] == [b"../".repeat(path.len() - i - 1), b"index.html".to_vec()].concat(), "links to parents go up as far as needed");
    }
    l[up + 1..].to_vec()
}

fn overview(o: &Output, path: &[&str], definitions: &[Definition]) {
    check(same_path(o, path), "pages have the path of their module");
    let mut want = vec![];
    for k in ["module", "struct", "enum", "alias", "constant"] {
        want.extend(definitions.iter().filter(|d| name(d).0 == k).map(|d| file(d).into_bytes()));
    }
    check(links(o, path, false) == want, "the overview links to the page of each definition");
    check(headline(&o.content).ends_with(o.name.as_bytes()), "pages have the name as headline");
    let pages: Vec<_> = definitions.iter().filter(|d| !matches!(d, Definition::Import(_))).collect();
    check(o.modules.len() == pages.len(), "there is one page for each definition");
    for (o, d) in o.modules.iter().zip(pages) {
        let (_, name) = name(d);
        check(o.name == name, "pages have the name of their definition");
        check(o.file == file(d), "files are named after the kind and the name");
        if let Definition::Module(m) = d {
            overview(o, &[path, &[name]].concat(), &m.definitions);
        } else {
            check(same_path(o, path), "pages have the path of their module");
            check(o.modules.is_empty(), "only modules have pages inside of them");
            check(links(o, path, true).is_empty(), "there are links to the parents alone");
            check(headline(&o.content).ends_with(name.as_bytes()), "pages have the name as headline");
            detail(&o.content, d);
        }
    }
    for i in 0..o.modules.len() {
        for j in 0..i {
            check(o.modules[i].file != o.modules[j].file, "no two pages have the same file name");
        }
    }
}

fn number(b: &[u8]) -> Option<u32> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

/// The list of fields as shown.
fn listed(content: &str, fields: &[Field]) -> bool {
    let names = elements(content, "<span class=\"field-name\">");
    let types = elements(content, "<span class=\"field-type\">");
    let ids = elements(content, "<span class=\"field-id\">@");
    names.len() == fields.len()
        && types.len() == fields.len()
        && ids.len() == fields.len()
        && fields.iter().enumerate().all(|(i, f)| names[i] == f.name.as_bytes() && number(&ids[i]) == Some(f.id) && shown_type(&types[i], &f.ty))
}

fn reparsed<R>(text: &str, f: impl FnOnce(&Definition) -> R) -> Option<R> {
    let s = mabo_parser::Schema::parse(text, None).ok()?;
    let s = mabo_compiler::simplify_schema(&s);
    (s.definitions.len() == 1).then(|| f(&s.definitions[0]))
}

fn shown_type(text: &[u8], ty: &Type) -> bool {
    let text = ["type T = ", std::str::from_utf8(text).unwrap(), ";"].concat();
    reparsed(&text, |d| matches!(d, Definition::TypeAlias(t) if t.target == *ty)).unwrap_or(false)
}

fn same_fields(a: &Fields, b: &Fields) -> bool {
    a.kind == b.kind && a.fields.len() == b.fields.len() && a.fields.iter().zip(&b.fields).all(|(a, b)| a.name == b.name && a.ty == b.ty && a.id == b.id)
}

fn same_value(a: &Literal, b: &Literal) -> bool {
    match (a, b) {
        (Literal::Bool(a), Literal::Bool(b)) => a == b,
        (Literal::Int(a), Literal::Int(b)) => a == b,
        (Literal::Float(a), Literal::Float(b)) => a == b,
        // Whole numbers are shown without a fraction.
        (Literal::Int(a), Literal::Float(b)) => *a as f64 == *b,
        (Literal::String(a), Literal::String(b)) => a == b,
        (Literal::Bytes(a), Literal::Bytes(b)) => a == b,
        _ => false,
    }
}

fn detail(content: &str, d: &Definition) {
    let shown = elements(content, "<pre class=\"item-definition my-2\">");
    check(shown.len() == 1, "pages show the definition");
    let same = reparsed(std::str::from_utf8(&shown[0]).unwrap(), |s| match (s, d) {
        (Definition::Struct(a), Definition::Struct(b)) => a.name == b.name && a.generics == b.generics && same_fields(&a.fields, &b.fields),
        (Definition::Enum(a), Definition::Enum(b)) => {
            a.name == b.name
                && a.generics == b.generics
                && a.variants.len() == b.variants.len()
                && a.variants.iter().zip(&b.variants).all(|(a, b)| a.name == b.name && a.id == b.id && same_fields(&a.fields, &b.fields))
        }
        (Definition::TypeAlias(a), Definition::TypeAlias(b)) => a.name == b.name && a.generics == b.generics && a.target == b.target,
        (Definition::Const(a), Definition::Const(b)) => a.name == b.name && a.ty == b.ty && same_value(&a.value, &b.value),
        _ => false,
    });
    check(same.is_some(), "the shown definition can be parsed");
    check(same.unwrap(), "the shown definition is that of the schema");
    match d {
        Definition::Struct(s) => {
            check(listed(content, &s.fields.fields), "the fields are listed with their types and numbers");
            let next = elements(content, "<code class=\"font-bold\">");
            match mabo_meta::next_field_id(&s.fields) {
                None => check(next.is_empty(), "there is no next number of unit structs"),
                Some(id) => check(next.len() == 1 && number(&next[0]) == Some(id), "the next number is shown"),
            }
        }
        Definition::Enum(e) => {
            let names = elements(content, "<span class=\"variant-name\">");
            let ids = elements(content, "<span class=\"variant-id\">@");
            check(
                names.len() == e.variants.len() && ids.len() == names.len() && e.variants.iter().enumerate().all(|(i, v)| names[i] == v.name.as_bytes() && number(&ids[i]) == Some(v.id)),
                "the variants are listed with their numbers",
            );
            let parts = parts(content, "<span class=\"variant-name\">");
            check(
                parts.len() == names.len() && e.variants.iter().zip(parts).all(|(v, p)| listed(p, &v.fields.fields)),
                "the fields of variants are listed with their types and numbers",
            );
        }
        _ => {}
    }
}

fn judge(s: &Schema) {
    let opts = Opts {};
    let o = render_schema(&opts, s);
    check(o.is_ok(), "the documentation is rendered");
    let o = o.unwrap();
    check(o.name == "root" && o.file == "root/index.html", "the root has a fixed name");
    overview(&o, &["root"], &s.definitions);
}

/// A comment of arbitrary characters at some place, on its own or next to another line.
fn commented(n: usize, all: bool) -> Vec<u8> {
    let (pre, post) = COMMENTED[if all { sym::below(COMMENTED.len() as u8) } else { 0 } as usize];
    let (before, after) = [("/// ", ""), ("/// Text\n/// ", ""), ("/// ", "\n///\n/// Text")][if all { sym::below(3) } else { 0 } as usize];
    let mut t = [pre.as_bytes(), before.as_bytes()].concat();
    for i in 0..n {
        // In the quick check the first of two characters is one with a meaning.
        let c = if i == 0 && n == 2 && !all { b"#*<&[`|_"[sym::below(8) as usize] } else { sym::u8() };
        sym::assume(c != b'\n');
        t.push(c);
    }
    [&t, after.as_bytes(), b"\n", post.as_bytes()].concat()
}

const COMMENTED: [(&str, &str); 8] = [
    ("", "struct S { a: u8 }"),
    ("struct S { a: u8,\n", "b: u8 }"),
    ("enum F { A {\n", "b: u8 } }"),
    ("", "enum F { A }"),
    ("enum F { A,\n", "B(u8) }"),
    ("", "mod m { }"),
    ("", "type T = u8;"),
    ("", "const C: u8 = 1;"),
];

/// The largest numbers and those of up to two digits.
fn small(d: &Definition) {
    let fields = |f: &Fields| {
        for f in &f.fields {
            sym::assume((f.id < 100) | (f.id == (1 << 29) - 1));
        }
    };
    match d {
        Definition::Module(m) => m.definitions.iter().for_each(small),
        Definition::Struct(s) => fields(&s.fields),
        Definition::Enum(e) => {
            for v in &e.variants {
                sym::assume((v.id < 100) | (v.id == u32::MAX - 1));
                fields(&v.fields);
            }
        }
        _ => {}
    }
}

sym::harness! {
    fn d01_comments() { with(&commented(1, true), |s| judge(s)) }
    fn d01_comment() { with(&commented(2, false), |s| judge(s)) }
    fn t_d01_comments() { with(&commented(2, true), |s| judge(s)) }
    fn t_d01_comment() { with(&commented(3, false), |s| judge(s)) }
    fn t_d01_types() { with(&typed(2), |s| judge(s)) }
    fn t_d01_names() { with(&named(3), |s| judge(s)) }
    fn d01_types() { with(&typed(1), |s| judge(s)) }
    fn d01_sizes() { with(&sized(33), |s| judge(s)) }
    fn d01_numbers() {
        with(NUMBERED[sym::below(NUMBERED.len() as u8) as usize].as_bytes(), |s| {
            renumber(&mut s.definitions);
            for d in &s.definitions {
                small(d);
            }
            judge(s)
        })
    }
    fn d01_names() { with(&named(2), |s| judge(s)) }
    fn d01_parameters() { with(&parameters(), |s| judge(s)) }
    fn d01_constants() { constant(sym::below(7), false, |s, _| judge(s)) }
    fn d01_control() { constant(4, true, |s, _| judge(s)) }
}

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    TABLE.to_vec()
}
