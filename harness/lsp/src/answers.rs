//! Diagnostics, symbols and hover texts.

use crate::{doc::*, texts::*};
use lsp_types as lsp;
use mabo_compiler::simplify::{self, ParserField};
use mabo_parser::{Diagnostic, Schema, Spanned};
use std::ops::Range;

/// All locations of an error.
fn locations(d: &dyn Diagnostic, to: &mut Vec<usize>) {
    to.extend(d.labels().into_iter().flatten().map(|l| l.offset()));
    if let Some(d) = d.diagnostic_source() {
        locations(d, to);
    }
    for d in d.related().into_iter().flatten() {
        locations(d, to);
    }
}

/// The part of the text a range covers.
fn part(unit: Unit, text: &str, r: lsp::Range) -> Range<usize> {
    let (Place::At(s), Place::At(e)) = (unit.offset(text, r.start), unit.offset(text, r.end)) else {
        sym::check(false, "a range lies inside of the document");
        unreachable!()
    };
    sym::check(s <= e, "a range does not end before its start");
    s..e
}

/// A name in the document, and what is told about it.
struct Item {
    at: Range<usize>,
    comment: Vec<String>,
    next: Option<u32>,
}

/// The expected symbols.
#[derive(PartialEq)]
struct Symbol {
    name: String,
    at: Range<usize>,
    kind: lsp::SymbolKind,
    children: Vec<Symbol>,
}

fn span(s: &impl Spanned) -> Range<usize> {
    s.span().into()
}

fn expect(defs: &[simplify::Definition], text: &str, items: &mut Vec<Item>) -> Vec<Symbol> {
    let comment = |c: &[&str]| c.iter().map(|c| c.to_string()).collect::<Vec<_>>();
    let fields = |f: &simplify::Fields, items: &mut Vec<Item>| {
        f.fields
            .iter()
            .enumerate()
            .map(|(i, f)| match f.source {
                ParserField::Named(n) => {
                    items.push(Item { at: span(&n.name), comment: comment(&f.comment), next: None });
                    Symbol { name: f.name.to_string(), at: span(&n.name), kind: lsp::SymbolKind::PROPERTY, children: vec![] }
                }
                ParserField::Unnamed(n) => Symbol { name: i.to_string(), at: span(n), kind: lsp::SymbolKind::PROPERTY, children: vec![] },
            })
            .collect::<Vec<_>>()
    };
    let mut symbols = vec![];
    for d in defs {
        symbols.push(match d {
            simplify::Definition::Module(m) => {
                items.push(Item { at: span(&m.source.name), comment: comment(&m.comment), next: None });
                Symbol { name: m.name.to_owned(), at: span(&m.source.name), kind: lsp::SymbolKind::MODULE, children: expect(&m.definitions, text, items) }
            }
            simplify::Definition::Struct(s) => {
                items.push(Item { at: span(&s.source.name), comment: comment(&s.comment), next: mabo_meta::next_field_id(&s.fields) });
                Symbol { name: s.name.to_owned(), at: span(&s.source.name), kind: lsp::SymbolKind::STRUCT, children: fields(&s.fields, items) }
            }
            simplify::Definition::Enum(e) => {
                items.push(Item { at: span(&e.source.name), comment: comment(&e.comment), next: Some(mabo_meta::next_variant_id(&e.variants)) });
                let children = e
                    .variants
                    .iter()
                    .map(|v| {
                        items.push(Item { at: span(&v.source.name), comment: comment(&v.comment), next: mabo_meta::next_field_id(&v.fields) });
                        Symbol { name: v.name.to_owned(), at: span(&v.source.name), kind: lsp::SymbolKind::ENUM_MEMBER, children: fields(&v.fields, items) }
                    })
                    .collect();
                Symbol { name: e.name.to_owned(), at: span(&e.source.name), kind: lsp::SymbolKind::ENUM, children }
            }
            simplify::Definition::TypeAlias(a) => {
                items.push(Item { at: span(&a.source.name), comment: comment(&a.comment), next: None });
                Symbol { name: a.name.to_owned(), at: span(&a.source.name), kind: lsp::SymbolKind::VARIABLE, children: vec![] }
            }
            simplify::Definition::Const(c) => {
                items.push(Item { at: span(&c.source.name), comment: comment(&c.comment), next: None });
                Symbol { name: c.name.to_owned(), at: span(&c.source.name), kind: lsp::SymbolKind::CONSTANT, children: vec![] }
            }
            simplify::Definition::Import(i) => {
                let at = span(&i.source.full);
                Symbol { name: text[at.clone()].to_owned(), at, kind: lsp::SymbolKind::FILE, children: vec![] }
            }
        });
    }
    symbols
}

fn symbols(unit: Unit, text: &str, s: &[lsp::DocumentSymbol]) -> Vec<Symbol> {
    s.iter()
        .map(|s| {
            let (whole, name) = (part(unit, text, s.range), part(unit, text, s.selection_range));
            sym::check(whole.start <= name.start && name.end <= whole.end, "the selected range is inside of that of the symbol");
            let children = symbols(unit, text, s.children.as_deref().unwrap_or_default());
            Symbol { name: s.name.clone(), at: name, kind: s.kind, children }
        })
        .collect()
}

fn hover(server: &mut Server, unit: Unit, text: &str, items: &[Item]) {
    for i in items {
        for at in [i.at.start, i.at.end - 1, i.at.end] {
            let h = server.hover(unit.position(text, at));
            sym::check(h.is_ok(), "a request for hover information is answered");
            let item = items.iter().find(|i| i.at.contains(&at));
            let h = h.unwrap();
            sym::check(h.is_some() == item.is_some(), "there is hover information for names and only for them");
            let (Some(h), Some(item)) = (h, item) else { continue };
            let r = h.range.map(|r| part(unit, text, r));
            sym::check(r == Some(item.at.clone()), "hover information belongs to the name under the cursor");
            let lsp::HoverContents::Markup(m) = h.contents else { continue };
            let mut rest = &m.value[..];
            for c in &item.comment {
                let r = rest.strip_prefix(&c[..]).and_then(|r| r.strip_prefix('\n'));
                sym::check(r.is_some(), "hover information contains the comment");
                rest = r.unwrap();
            }
            if let Some(n) = item.next {
                sym::check(rest.is_empty() || rest.contains(&format!("`{n}`")), "hover information contains the next free number");
            }
        }
    }
}

fn answers(text: &str, unit: Unit) {
    let mut server = Server::new(unit, text);
    let problems = server.problems();
    let parsed = Schema::parse(text, None);
    let mut places = vec![];
    // Where an unspecific problem occurred is not part of what is shown for it.
    let mut stopped = None;
    let valid = match &parsed {
        Err(e) => {
            locations(e, &mut places);
            let e = format!("{e:?}");
            stopped = e.rsplit_once("Parser(").and_then(|(_, e)| e.split_once(')')?.0.parse().ok());
            sym::cover("not parsed");
            None
        }
        Ok(s) => match mabo_compiler::validate_schema(s) {
            Err(e) => {
                locations(&e, &mut places);
                sym::cover("not valid");
                None
            }
            Ok(()) => Some(s),
        },
    };
    let Some(schema) = valid else {
        sym::check(problems.len() == 1, "a problem is reported");
        let p = part(unit, text, problems[0].range);
        sym::check(stopped.map_or(places.contains(&p.start), |s: usize| s == p.start), "the problem is where the compiler reports it");
        sym::check(!problems[0].message.is_empty(), "the problem has a message");
        for r in problems[0].related_information.iter().flatten() {
            let p = part(unit, text, r.location.range);
            sym::check(places.contains(&p.start), "the related place is one where the compiler reports the problem");
        }
        sym::check(server.symbols().is_none(), "there are no symbols without a valid document");
        sym::check(matches!(server.hover(lsp::Position::new(0, 0)), Ok(None)), "there is no hover information without a valid document");
        return;
    };
    sym::cover("valid");
    sym::check(problems.is_empty(), "no problem is reported for a valid document");
    let mut items = vec![];
    let want = expect(&mabo_compiler::simplify_schema(schema).definitions, text, &mut items);
    let got = server.symbols();
    sym::check(got.is_some(), "there are symbols for every valid document");
    sym::check(symbols(unit, text, &got.unwrap()) == want, "the symbols are the definitions with their fields and variants");
    hover(&mut server, unit, text, &items);
    // Outside of everything.
    let o = sym::below(text.len() as u8 + 1) as usize;
    if text.is_char_boundary(o) {
        let h = server.hover(unit.position(text, o));
        let on = items.iter().any(|i| i.at.contains(&o));
        sym::check(h.is_ok_and(|h| h.is_some() == on), "there is hover information for names and only for them");
    }
}

/// An edited document is answered for like one that has just been opened.
fn edited() {
    let unit = any_unit();
    const FROM: [&str; 3] = ["struct A { a: u8 }\n/// c\nenum B { C }", "", "mod a {\nstruct B(u8) }\nconst A: u8 = 1;"];
    const PARTS: [&str; 5] = ["\n", "/// \u{e4}\n", "const D: string = \"\u{10000}\"; ", "A", " "];
    let old = FROM[sym::below(3) as usize];
    let mut text = old.to_owned();
    let new = PARTS[sym::below(5) as usize];
    let at = sym::below(old.len() as u8 + 1) as usize;
    let until = (at + sym::below(2) as usize).min(old.len());
    let r = lsp::Range::new(unit.position(&text, at), unit.position(&text, until));
    text.replace_range(at..until, new);
    let mut server = Server::new(unit, old);
    server.problems();
    server.change(&[(Some(r), new)]);
    let a = server.problems();
    let mut fresh = Server::new(unit, &text);
    let b = fresh.problems();
    sym::cover(if a.is_empty() { "valid" } else { "invalid" });
    sym::check(a == b, "an edited document has the problems of a new one");
    sym::check(server.tokens() == fresh.tokens(), "an edited document has the tokens of a new one");
    sym::check(server.symbols() == fresh.symbols(), "an edited document has the symbols of a new one");
    let p = lsp::Position::new(sym::below(2) as u32, 7);
    sym::check(server.hover(p).ok() == fresh.hover(p).ok(), "an edited document has the hover information of a new one");
}

const WIDE: &[Text] = &[
    ("const A: string = \"", "\"; const B: u8 = x;"),
    ("const A: string = \"", "\"; struct B<T>(u8)"),
    ("/// ", "\nstruct A { a: u8, a: u8 }"),
    ("const A: string = \"", "\"; enum B { /// c\nC @1, D @1 }"),
    ("const A: string = \"", "\"; /// d\nenum B { /// c\nC { /// e\n f: u8 }, D }"),
];

fn wide(n: usize) {
    let unit = any_unit();
    let (pre, post) = WIDE[sym::below(WIDE.len() as u8) as usize];
    answers(&[pre, &any_text(n), post].concat(), unit)
}

macro_rules! entries {
    ($($name:ident $long:ident $n:literal $m:literal $t:ident;)*) => {
        sym::harness! {
            $(fn $name() { fill_upto::<$n>("", $t, |s| answers(s, UNITS[0])) }
            fn $long() { fill_upto::<$m>("", $t, |s| answers(s, UNITS[0])) })*
            fn l04_wide() { wide(1) }
            fn t_l04_wide() { wide(2) }
            fn l04_edited() { edited() }
        }
    };
}
entries! {
    l04_top t_l04_top 3 4 TOP;
    l04_structs t_l04_structs 3 4 STRUCTS;
    l04_generics t_l04_generics 3 4 GENERICS;
    l04_enums t_l04_enums 3 4 ENUMS;
    l04_modules t_l04_modules 3 4 MODULES;
    l04_consts t_l04_consts 3 4 CONSTS;
    l04_literals t_l04_literals 3 4 LITERALS;
    l04_strings t_l04_strings 3 4 STRINGS;
    l04_aliases t_l04_aliases 3 4 ALIASES;
    l04_imports t_l04_imports 3 4 IMPORTS;
    l04_comments t_l04_comments 3 4 COMMENTS;
    l04_attributes t_l04_attributes 3 4 ATTRIBUTES;
    l04_types t_l04_types 3 4 TYPES;
    l04_compound t_l04_compound 3 4 COMPOUND;
}
