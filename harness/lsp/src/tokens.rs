//! Semantic tokens, read back from their encoded form.

use crate::{doc::*, texts::*};
use lsp_types::*;

const BUILTIN: [&str; 23] = [
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "&string", "bytes", "&bytes",
    "box<string>", "box<bytes>", "vec", "hash_map", "hash_set", "option",
];

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() | (c == b'_')
}

/// The kinds and modifiers the client has been told about.
fn legend() -> (Vec<String>, Vec<String>) {
    let (connection, _) = lsp_server::Connection::memory();
    let mut state = crate::GlobalState::new(&connection);
    let r = crate::handlers::initialize(&mut state, Default::default()).unwrap();
    let Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) = r.capabilities.semantic_tokens_provider else { unreachable!() };
    (
        o.legend.token_types.iter().map(|t| t.as_str().to_owned()).collect(),
        o.legend.token_modifiers.iter().map(|t| t.as_str().to_owned()).collect(),
    )
}

/// What can be between two tokens.
fn gap(text: &str) -> bool {
    let t = text.trim_start_matches([' ', '\t', '\r', '\n']);
    // Attributes, comments in front of the first definition or of imports, strings and bytes, sizes of arrays, the
    // brackets around type parameters, and what separates and ends imports.
    ["#[", "///", "\"", "["].iter().any(|s| t.starts_with(s)) || t.bytes().all(|c| b"<>:; \t\r\n0123456789".contains(&c))
}

pub fn tokens(text: &str, unit: Unit) {
    let mut server = Server::new(unit, text);
    let valid = server.problems().is_empty();
    let Some(list) = server.tokens() else {
        sym::check(!valid, "there are tokens for every valid document");
        return;
    };
    sym::cover("tokens");
    sym::check(valid, "there are tokens only for valid documents");
    let (types, modifiers) = legend();
    let b = text.as_bytes();
    let (mut line, mut character, mut end) = (0u32, 0u32, 0);
    let mut before = "";
    for t in &list {
        if t.delta_line > 0 {
            character = 0;
        }
        let at = line.checked_add(t.delta_line).zip(character.checked_add(t.delta_start));
        sym::check(at.is_some(), "tokens are in increasing order");
        (line, character) = at.unwrap();
        let (Place::At(s), Place::At(e)) = (
            unit.offset(text, Position::new(line, character)),
            unit.offset(text, Position::new(line, character.saturating_add(t.length))),
        ) else {
            sym::check(false, "a token goes from one place in a line to another one in the same line");
            return;
        };
        sym::check(s >= end, "tokens do not overlap");
        sym::check(s < e, "tokens are not empty");
        sym::check(gap(&text[end..s]), "everything that has a kind has a token");
        let w = &text[s..e];
        let kind = types.get(t.token_type as usize).map(|t| &t[..]);
        sym::check(kind.is_some(), "the kind is one of the legend");
        let mut mods: Vec<_> = (0..32).filter(|i| t.token_modifiers_bitset >> i & 1 == 1).map(|i| modifiers.get(i).map_or("", |m| &m[..])).collect();
        mods.sort();
        // No part of a longer token.
        let whole = !(s > 0 && word(b[s - 1]) && word(b[s]) || e < b.len() && word(b[e]) && word(b[e - 1]));
        sym::check(whole, "a token is not a part of a longer one");
        let name = |first: fn(&u8) -> bool| w.bytes().all(word) && first(&b[s]);
        let upper = || name(u8::is_ascii_uppercase);
        let lower = || name(u8::is_ascii_lowercase);
        let after = text[e..].trim_start_matches([' ', '\t', '\r', '\n']);
        let declared = ["declaration"];
        let none: [&str; 0] = [];
        let (right, m): (bool, &[&str]) = match kind.unwrap() {
            "namespace" if before == "mod" => (lower(), &declared),
            "namespace" => (lower(), &none),
            "type" => (upper() && !["struct", "enum", "type", "const", "mod"].contains(&before), &none),
            "enum" => (upper() && before == "enum", &declared),
            "struct" => (upper() && before == "struct", &declared),
            "typeAlias" => (upper() && before == "type", &declared),
            "variable" => (upper() && before == "const", &["constant", "declaration", "static"]),
            "typeParameter" => (upper() && ["<", ","].iter().any(|c| text[..s].trim_end_matches([' ', '\t', '\r', '\n']).ends_with(c)), &declared),
            "property" => (lower() && after.starts_with(':') && !after.starts_with("::"), &declared),
            "enumMember" => (upper() && (["{", ","].contains(&before) || before.starts_with("///")), &declared),
            "keyword" => (["struct", "enum", "type", "const", "mod", "use"].contains(&w), &none),
            "comment" => (w.starts_with("///") && (e == b.len() || b[e] == b'\n' || b[e] == b'\r'), &["documentation"]),
            "number" => (w.parse::<i128>().is_ok() || w.parse::<f64>().is_ok(), &none),
            "boolean" => (w == "true" || w == "false", &none),
            "builtinType" => (BUILTIN.contains(&w) || w == "non_zero", &none),
            "identifier" => (b[s] == b'@' && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()), &none),
            "comma" => (w == ",", &none),
            "colon" => (w == ":", &none),
            "semicolon" => (w == ";", &none),
            "doubleColon" => (w == "::", &none),
            "equal" => (w == "=", &none),
            "brace" => (w == "{" || w == "}", &none),
            "bracket" => (w == "[" || w == "]", &none),
            "parenthesis" => (w == "(" || w == ")", &none),
            "angle" => (w == "<" || w == ">", &none),
            _ => (false, &none),
        };
        sym::check(right, "a token covers exactly what its kind says");
        sym::check(mods == m, "declarations, comments and constants have their modifiers, others have none");
        before = w;
        end = e;
    }
    sym::check(gap(&text[end..]), "everything that has a kind has a token");
}

/// Texts where characters of several units are in front of tokens in the same line.
const WIDE: &[Text] = &[
    ("const A: string = \"", "\"; const B: u8 = 1;"),
    ("#[a = \"", "\"] struct B(u8)"),
    ("/// ", "\nstruct A"),
    ("enum A { /// ", "\n B(u8), C }"),
    ("mod m {\nconst A: string = \"", "\n\u{e4}\"; struct B }"),
];

fn wide(n: usize) {
    let unit = any_unit();
    let (pre, post) = WIDE[sym::below(WIDE.len() as u8) as usize];
    tokens(&[pre, &any_text(n), post].concat(), unit)
}

macro_rules! entries {
    ($($name:ident $long:ident $n:literal $m:literal $t:ident;)*) => {
        sym::harness! {
            $(fn $name() { fill_upto::<$n>("", $t, |s| tokens(s, UNITS[0])) }
            fn $long() { fill_upto::<$m>("", $t, |s| tokens(s, UNITS[0])) })*
            fn l03_wide() { wide(1) }
            fn t_l03_wide() { wide(2) }
        }
    };
}
entries! {
    l03_top t_l03_top 3 4 TOP;
    l03_structs t_l03_structs 3 4 STRUCTS;
    l03_generics t_l03_generics 3 4 GENERICS;
    l03_enums t_l03_enums 3 4 ENUMS;
    l03_modules t_l03_modules 3 4 MODULES;
    l03_consts t_l03_consts 3 4 CONSTS;
    l03_literals t_l03_literals 3 4 LITERALS;
    l03_strings t_l03_strings 3 4 STRINGS;
    l03_aliases t_l03_aliases 3 4 ALIASES;
    l03_imports t_l03_imports 3 4 IMPORTS;
    l03_comments t_l03_comments 3 4 COMMENTS;
    l03_attributes t_l03_attributes 3 4 ATTRIBUTES;
    l03_types t_l03_types 3 4 TYPES;
    l03_compound t_l03_compound 3 4 COMPOUND;
}
