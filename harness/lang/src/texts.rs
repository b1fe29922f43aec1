//! Source texts with a hole of arbitrary bytes, one for every kind of syntactic context.

/// Text in front of and behind the hole.
pub type Text = (&'static str, &'static str);

pub const TOP: &[Text] = &[
    ("", ""),
    ("struct A\n", ""),
    ("const A: u8 = 1;", ""),
    ("mod a {}", ""),
    ("type A = u8;\n", "struct B"),
    ("/// a\n\n", "struct B"),
];
pub const STRUCTS: &[Text] = &[
    ("struct A", ""),
    ("struct ", " { a: u32 @1 }"),
    ("struct A", "(u32 @1)"),
    ("struct A {", "}"),
    ("struct A { a", "u32 @1 }"),
    ("struct A { a: u32 ", " }"),
    ("struct A { a: u32 @1", "}"),
    ("struct A { a: u32 @1,", "}"),
    ("struct A { a: u32 @1", "b: u8 @2 }"),
    ("struct A { a: u32 @", ", }"),
    ("struct A(", ")"),
    ("struct A(u32 @1", ")"),
    ("struct A(u32 @1", "u8 @2,)"),
];
pub const GENERICS: &[Text] = &[
    ("struct A<", "> { a: T @1 }"),
    ("struct A<T", "> { a: T @1 }"),
    ("struct A<T", "U>(T @1, U @2)"),
    ("struct A<T", ""),
    ("enum A<", "> { B(T @1) @1 }"),
    ("type A<", "> = T;"),
];
pub const ENUMS: &[Text] = &[
    ("enum ", " { B @1 }"),
    ("enum A", "}"),
    ("enum A {", "}"),
    ("enum A { B", "}"),
    ("enum A { B @1", "}"),
    ("enum A { B @1,", "}"),
    ("enum A { B @1", "C @2 }"),
    ("enum A { B(", ") @1 }"),
    ("enum A { B(u8 @1)", "@2 }"),
    ("enum A { B {", "} @1 }"),
    ("enum A { B { a: u8 @1", " @2 }"),
    ("enum A { B @", " }"),
];
pub const MODULES: &[Text] = &[
    ("mod ", " {}"),
    ("mod a", "}"),
    ("mod a {", "}"),
    ("mod a { struct A", "}"),
    ("mod a { const A: u8 = 1;", "}"),
    ("mod a { mod b {", "} }"),
    ("mod a { mod b {}", "}"),
    ("mod a {", "enum B { C @1 }}"),
];
pub const CONSTS: &[Text] = &[
    ("const", "A: u32 = 1;"),
    ("const ", ": u32 = 1;"),
    ("const A", " = 1;"),
    ("const A: ", " = 1;"),
    ("const A: u32", "1;"),
    ("const A: u32 = 1", ""),
    ("const A: u32 = ", ""),
];
pub const LITERALS: &[Text] = &[
    ("const A: u32 = ", ";"),
    ("const A: u32 = t", ";"),
    ("const A: i32 = -", ";"),
    ("const A: bytes = [", "];"),
    ("const A: bytes = [1", "2];"),
    ("const A: bytes = [25", "];"),
];
pub const STRINGS: &[Text] = &[
    ("const A: string = \"", "\";"),
    ("const A: string = \"a\\", "\";"),
    ("const A: string = \"\\u{", "}\";"),
    ("mod a {\n#[b = \"", "\"]\nstruct A }"),
];
pub const ALIASES: &[Text] = &[
    ("type", "A = u32;"),
    ("type ", " = u32;"),
    ("type A", "u32;"),
    ("type A = u32", ""),
    ("type A = ", ""),
    ("type A = u8;", "type B = u8;"),
];
pub const IMPORTS: &[Text] = &[
    ("use ", ";"),
    ("use a::", ";"),
    ("use a", ""),
    ("use a", "B;"),
    ("use a::b::C", ""),
];
pub const COMMENTS: &[Text] = &[
    ("///", "\nstruct A"),
    ("/// ", "\n/// b\nstruct A"),
    ("/// a\n", "struct A"),
    ("struct A {\n///", "\na: u32 @1 }"),
    ("struct A { a: u8 @1,\n/// b\n", "\nb: u32 @1 }"),
    ("enum A {\n///", "\nB @1, /// c\n C @2 }"),
    ("mod a {\n///", "\nenum A { B @1 }\n}"),
    ("mod a { /// b", "type A = u8;}"),
];
pub const ATTRIBUTES: &[Text] = &[
    ("#[", "]\nstruct A"),
    ("#[a", "]\nstruct A"),
    ("#[a = ", "]\nstruct A"),
    ("#[a(", ")]\nstruct A"),
    ("#[a(b", "c)]\nenum A { B @1 }"),
    ("#[a]", "struct A"),
    ("/// c\n#[a]\n", "#[b = 1]\nstruct A"),
];
pub const TYPES: &[Text] = &[
    ("type A = ", ";"),
    ("type A = u", ";"),
    ("type A = &", ";"),
    ("type A = &b", "s;"),
    ("type A = vec", "u32>;"),
    ("type A = vec<", ">;"),
    ("type A = vec<u8", ";"),
    ("type A = hash_map<", ", u8>;"),
    ("type A = hash_map<u8", "u8>;"),
    ("type A = hash_set<", ">;"),
    ("type A = option<", ">;"),
    ("type A = non_zero<", ">;"),
    ("type A = box<", ">;"),
    ("type A = box<string", ";"),
    ("type A = vec<vec<", ">>;"),
];
pub const COMPOUND: &[Text] = &[
    ("type A = (", ", u8);"),
    ("type A = (u8", "u8);"),
    ("type A = (u8, u8", ");"),
    ("type A = (u8, (u8, ", "));"),
    ("type A = [", "; 4];"),
    ("type A = [u8", "4];"),
    ("type A = [u8; ", "];"),
    ("type A = [[u8; 2", "; 3];"),
    ("type A = a", "B;"),
    ("type A = a::", ";"),
    ("type A = B<", ">;"),
    ("type A = B<u8", ">;"),
    ("type A = B<u8", "C<u8>>;"),
    ("type A = a::b::C", ";"),
    ("struct A(a::B", "@1)"),
];

/// One of the texts with `N` arbitrary bytes in its hole, behind `lead`.

/// The same with up to `N` bytes, which includes the text without anything in its hole.
pub fn fill_upto<const N: usize>(lead: &str, texts: &[Text], f: impl FnOnce(&str)) {
    let (pre, post) = texts[sym::below(texts.len() as u8) as usize];
    let mut hole = [0; N];
    let hole = sym::slice(&mut hole);
    let mut v = Vec::with_capacity(64);
    v.extend_from_slice(lead.as_bytes());
    v.extend_from_slice(pre.as_bytes());
    v.extend_from_slice(hole);
    v.extend_from_slice(post.as_bytes());
    if let Ok(s) = std::str::from_utf8(&v) {
        f(s)
    }
}

/// With up to `N` printable ASCII characters in the hole.
pub fn fill_ascii<const N: usize>(lead: &str, texts: &[Text], f: impl FnOnce(&str)) {
    let (pre, post) = texts[sym::below(texts.len() as u8) as usize];
    let mut hole = [0; N];
    let hole = sym::slice(&mut hole);
    for c in hole {
        sym::assume(*c >= b' ' && *c <= b'~');
    }
    f(std::str::from_utf8(&[lead.as_bytes(), pre.as_bytes(), hole, post.as_bytes()].concat()).unwrap())
}
