//! Names of definitions, fields and variants, and the scopes they live in.

use mabo_compiler::validate::*;
use mabo_parser::Schema;
use std::ops::Range;

/// A short name whose letters are input.
fn name(upper: bool, longer: bool) -> Vec<u8> {
    let b: [u8; 2] = sym::bytes();
    let first = if upper { b'A' } else { b'a' };
    sym::assume((b[0] >= first) & (b[0] < first + 3));
    sym::assume((b[1] >= b'0') & (b[1] <= b'9'));
    b[..if longer && sym::bool() { 2 } else { 1 }].to_vec()
}

/// Text under construction, with the names in it.
#[derive(Default)]
struct Source {
    text: Vec<u8>,
    names: Vec<(usize, Vec<u8>, Range<usize>)>,
}

impl Source {
    fn put(&mut self, s: &str) {
        self.text.extend_from_slice(s.as_bytes());
    }
    fn name(&mut self, scope: usize, n: Vec<u8>) {
        let at = self.text.len();
        self.text.extend_from_slice(&n);
        self.names.push((scope, n, at..self.text.len()));
    }
    fn validate(&self) -> Result<(), Error> {
        let text = std::str::from_utf8(&self.text).unwrap();
        let schema = Schema::parse(text, None);
        sym::check(schema.is_ok(), "the schema is accepted by the parser");
        mabo_compiler::validate_schema(&schema.unwrap())
    }
    fn distinct(&self) -> bool {
        let mut ok = true;
        for (i, a) in self.names.iter().enumerate() {
            for b in &self.names[..i] {
                ok &= a.0 != b.0 || a.1 != b.1;
            }
        }
        ok
    }
    fn collide(&self, name: &str, first: &Range<usize>, second: &Range<usize>) {
        let find = |at: &Range<usize>| self.names.iter().position(|n| n.2 == *at);
        let (a, b) = (find(first), find(second));
        sym::check(a.is_some() && b.is_some(), "both locations are those of names");
        let (a, b) = (a.unwrap(), b.unwrap());
        sym::check(a < b, "the first location is that of the earlier name");
        sym::check(self.names[a].0 == self.names[b].0 && self.names[a].1 == self.names[b].1, "the two names are equal and in the same scope");
        sym::check(name.as_bytes() == self.names[a].1, "the message contains the name");
    }
    fn check(&self) {
        match self.validate() {
            Ok(()) => {
                sym::cover("accepted");
                sym::check(self.distinct(), "equal names in one scope are rejected");
            }
            Err(Error::DuplicateName(e)) => {
                sym::cover("rejected");
                sym::check(!self.distinct(), "distinct names and names in different scopes are accepted");
                match e {
                    DuplicateName::EnumVariant(e) => self.collide(&e.name, &e.first, &e.second),
                    DuplicateName::Field(e) => self.collide(&e.name, &e.first, &e.second),
                    DuplicateName::InModule(e) => self.collide(&e.name, &e.first, &e.second),
                }
            }
            Err(_) => sym::check(false, "names are what is rejected"),
        }
    }
}

fn fields(s: &mut Source, scope: usize, n: usize) {
    s.put("{ ");
    for _ in 0..n {
        s.name(scope, name(false, true));
        s.put(": u8, ");
    }
    s.put("}");
}

/// Front, back and style of a definition with a name.
const KINDS: [(&str, &str, bool); 9] = [
    ("struct ", "(u8)\n", true),
    ("enum ", " { X }\n", true),
    ("type ", " = u8;\n", true),
    ("const ", ": u8 = 1;\n", true),
    ("use x::", ";\n", true),
    ("mod ", " { struct A(u8) }\n", false),
    ("use x::", ";\n", false),
    ("use ", ";\n", false),
    ("use x::y::", ";\n", true),
];

fn definition(s: &mut Source, scope: usize, kinds: &[usize], longer: bool) {
    let (pre, post, upper) = KINDS[kinds[sym::below(kinds.len() as u8) as usize]];
    s.put(pre);
    s.name(scope, name(upper, longer));
    s.put(post);
}

sym::harness! {
    fn c02_fields() {
        let mut s = Source::default();
        s.put("struct S ");
        fields(&mut s, 0, 3);
        s.check()
    }
    fn t_c02_fields() {
        let mut s = Source::default();
        s.put("struct S<T> { t: T, ");
        for i in 0..4 {
            s.name(0, name(false, i < 2));
            s.put(": u8, ");
        }
        s.put("}");
        s.check()
    }
    fn c02_variants() {
        let mut s = Source::default();
        s.put("enum E { ");
        for after in [", ", "(u8), ", " { a: u8 }, "] {
            s.name(0, name(true, true));
            s.put(after);
        }
        s.put("}");
        s.check()
    }
    fn c02_variant_fields() {
        let mut s = Source::default();
        s.put("enum E { ");
        s.name(0, name(true, false));
        fields(&mut s, 1, 2);
        s.put(", ");
        s.name(0, name(true, false));
        fields(&mut s, 2, 2);
        s.put("}");
        s.check()
    }
    fn c02_two_structs() {
        let mut s = Source::default();
        for i in 0..2 {
            s.put("struct ");
            s.name(0, name(true, false));
            fields(&mut s, 1 + i, 2);
            s.put("\n");
        }
        s.check()
    }
    fn c02_pair() {
        let mut s = Source::default();
        definition(&mut s, 0, &[0, 1, 2, 3, 4, 5, 6, 7, 8], true);
        definition(&mut s, 0, &[0, 1, 2, 3, 4, 5, 6, 7, 8], true);
        s.check()
    }
    fn c02_scopes() {
        // Two in the root, two in a module, one in a module of that.
        let mut s = Source::default();
        definition(&mut s, 0, &[0, 5], false);
        s.put("mod mm {\n");
        definition(&mut s, 1, &[3, 5], false);
        s.put("mod nn {\n");
        definition(&mut s, 2, &[0, 1], false);
        definition(&mut s, 2, &[1, 2], false);
        s.put("}\n");
        definition(&mut s, 1, &[2, 5], false);
        s.put("}\n");
        definition(&mut s, 0, &[1, 7], false);
        s.check()
    }
    fn c02_three() {
        let mut s = Source::default();
        for _ in 0..3 {
            definition(&mut s, 0, &[0, 1, 2, 3, 4, 5, 6, 7, 8], false);
        }
        s.check()
    }
    fn t_c02_four() {
        let mut s = Source::default();
        for _ in 0..4 {
            definition(&mut s, 0, &[0, 1, 3, 4, 5, 6, 7], false);
        }
        s.check()
    }
}
