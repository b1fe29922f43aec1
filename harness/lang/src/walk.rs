//! Every location recorded in a syntax tree, in the order of the source text.

use mabo_parser::{
    punctuated::Punctuated, token, token::Delimiter, AttributeValue, Attribute, Attributes, Comment, DataType, Definition, Fields, Generics, Id,
    Literal, LiteralValue, Name, Schema, Span, Spanned, Type,
};
use std::ops::Range;

pub struct Walk<'a> {
    text: &'a str,
    /// Where the previous token ended.
    end: usize,
    /// What is between the tokens has no location of its own.
    loose: bool,
}

fn r(s: Span) -> Range<usize> {
    s.into()
}

fn blank(s: &str) -> bool {
    s.bytes().all(|c| matches!(c, b' ' | b'\t' | b'\r' | b'\n'))
}

impl<'a> Walk<'a> {
    pub fn new(text: &'a str) -> Self {
        Walk { text, end: 0, loose: false }
    }

    /// The text of the next token.
    fn take(&mut self, s: Span) -> &'a str {
        let x = r(s);
        sym::check(x.start >= self.end, "a token starts after the one before it");
        let t = self.text.get(x.start..x.end);
        sym::check(t.is_some(), "a token lies inside of the text, at character boundaries");
        if !self.loose {
            sym::check(blank(&self.text[self.end..x.start]), "only white space is between two tokens");
        }
        self.loose = false;
        self.end = x.end;
        t.unwrap()
    }

    fn exact(&mut self, s: Span, want: &str) {
        let t = self.take(s);
        sym::check(t == want, "the span covers exactly the token");
    }

    fn name(&mut self, n: &Name) {
        self.exact(n.span(), n.get());
    }

    fn comment(&mut self, c: &Comment) {
        for l in &c.0 {
            let t = self.take(l.span());
            let b = t.as_bytes();
            sym::check(b.len() >= 3 && b[0] == b'/' && b[1] == b'/' && b[2] == b'/', "a comment starts with three slashes");
            let rest = &t[3..];
            let v = l.get();
            sym::check(rest.ends_with(v), "the span of a comment ends with its text");
            sym::check(blank(&rest[..rest.len() - v.len()]), "only white space is in front of the text of a comment");
        }
    }

    fn attributes(&mut self, a: &Attributes) {
        for x in &a.0 {
            self.loose = true;
            self.attribute(x);
        }
        if !a.0.is_empty() {
            self.loose = true;
        }
    }

    fn attribute(&mut self, a: &Attribute) {
        match &a.value {
            AttributeValue::Unit => {}
            AttributeValue::Single(l) => {
                self.literal(l);
                self.loose = true;
            }
            AttributeValue::Multi(m) => {
                for x in m {
                    self.loose = true;
                    self.attribute(x);
                }
            }
        }
    }

    fn literal(&mut self, l: &Literal) {
        let t = self.take(l.span());
        let b = t.as_bytes();
        match &l.value {
            LiteralValue::Bool(v) => sym::check(t == if *v { "true" } else { "false" }, "the span covers exactly the boolean"),
            LiteralValue::Int(v) => sym::check(t.parse() == Ok(*v), "the span covers exactly the number"),
            LiteralValue::Float(v) => sym::check(t.parse::<f64>().map(f64::to_bits) == Ok(v.to_bits()), "the span covers exactly the float"),
            LiteralValue::String(_) => sym::check(b.len() >= 2 && b[0] == b'"' && b[b.len() - 1] == b'"', "the span covers exactly the string"),
            LiteralValue::Bytes(_) => sym::check(b.len() >= 2 && b[0] == b'[' && b[b.len() - 1] == b']', "the span covers exactly the bytes"),
        }
    }

    fn id(&mut self, i: &Option<Id>) {
        if let Some(i) = i {
            let t = self.take(i.span());
            sym::check(t.as_bytes()[0] == b'@' && t[1..].parse() == Ok(i.get()), "the span covers exactly the id");
        }
    }

    fn list<T>(&mut self, l: &Punctuated<T>, mut f: impl FnMut(&mut Self, &T)) {
        for (x, p) in l {
            f(self, x);
            if let Some(p) = p {
                self.exact(p.span(), ",");
            }
        }
    }

    fn around<D: Delimiter>(&mut self, d: &D, f: impl FnOnce(&mut Self)) {
        let mut b = [0; 4];
        self.exact(d.open(), D::OPEN.encode_utf8(&mut b));
        f(self);
        self.exact(d.close(), D::CLOSE.encode_utf8(&mut b));
        sym::check(r(d.range()) == (r(d.open()).start..r(d.close()).end), "the range of brackets goes from one to the other");
    }

    fn generics(&mut self, g: &Option<Generics>) {
        if let Some(g) = g {
            self.around(&g.angle, |w| w.list(&g.types, |w, n| w.name(n)));
        }
    }

    fn ty(&mut self, t: &Type) {
        let s = r(t.span());
        sym::check(s.start >= self.end && s.end <= self.text.len(), "a type lies inside of the text");
        sym::check(self.loose || blank(&self.text[self.end..s.start]), "only white space is in front of a type");
        sym::check(s.start < s.end && !blank(&self.text[s.start..s.start + 1]), "a type starts with its first token");
        let one = |w: &mut Self, span: &Span, word: &str, angle: &token::Angle, ty: &Type| {
            w.exact(*span, word);
            w.around(angle, |w| w.ty(ty));
        };
        match &t.value {
            DataType::Vec { span, angle, ty } => one(self, span, "vec", angle, ty),
            DataType::HashSet { span, angle, ty } => one(self, span, "hash_set", angle, ty),
            DataType::Option { span, angle, ty } => one(self, span, "option", angle, ty),
            DataType::NonZero { span, angle, ty } => one(self, span, "non_zero", angle, ty),
            DataType::HashMap { span, angle, key, comma, value } => {
                self.exact(*span, "hash_map");
                self.around(angle, |w| {
                    w.ty(key);
                    w.exact(comma.span(), ",");
                    w.ty(value);
                });
            }
            DataType::Tuple { paren, types } => self.around(paren, |w| w.list(types, |w, t| w.ty(t))),
            DataType::Array { bracket, ty, semicolon, size } => self.around(bracket, |w| {
                w.ty(ty);
                w.exact(semicolon.span(), ";");
                let digits = w.text[w.end..r(bracket.close()).start].trim_matches([' ', '\t', '\r', '\n']);
                sym::check(digits.parse() == Ok(*size), "the size is between the semicolon and the bracket");
                w.loose = true;
            }),
            DataType::External(e) => {
                for (n, c) in &e.path {
                    self.name(n);
                    self.exact(c.span(), "::");
                }
                self.name(&e.name);
                sym::check(e.angle.is_some() == e.generics.is_some(), "type arguments are in brackets");
                if let (Some(a), Some(g)) = (&e.angle, &e.generics) {
                    self.around(a, |w| w.list(g, |w, t| w.ty(t)));
                }
            }
            basic => {
                let word = match basic {
                    DataType::Bool => "bool",
                    DataType::U8 => "u8",
                    DataType::U16 => "u16",
                    DataType::U32 => "u32",
                    DataType::U64 => "u64",
                    DataType::U128 => "u128",
                    DataType::I8 => "i8",
                    DataType::I16 => "i16",
                    DataType::I32 => "i32",
                    DataType::I64 => "i64",
                    DataType::I128 => "i128",
                    DataType::F32 => "f32",
                    DataType::F64 => "f64",
                    DataType::String => "string",
                    DataType::StringRef => "&string",
                    DataType::Bytes => "bytes",
                    DataType::BytesRef => "&bytes",
                    DataType::BoxString => "box<string>",
                    DataType::BoxBytes => "box<bytes>",
                    _ => unreachable!(),
                };
                self.exact(t.span(), word);
            }
        }
        sym::check(self.end == s.end, "a type ends with its last token");
    }

    /// A field or variant contains its tokens.
    fn within(&mut self, s: Span, f: impl FnOnce(&mut Self)) {
        let s = r(s);
        sym::check(s.start >= self.end && s.end <= self.text.len() && s.start <= s.end, "a declaration lies inside of the text");
        f(self);
        sym::check(self.end <= s.end && blank(&self.text[self.end..s.end]), "a declaration ends with its last token and white space");
        self.end = s.end;
    }

    fn fields(&mut self, f: &Fields) {
        match f {
            Fields::Named(b, l) => self.around(b, |w| {
                w.list(l, |w, f| {
                    w.comment(&f.comment);
                    w.within(f.span(), |w| {
                        w.name(&f.name);
                        w.exact(f.colon.span(), ":");
                        w.ty(&f.ty);
                        w.id(&f.id);
                    });
                })
            }),
            Fields::Unnamed(p, l) => self.around(p, |w| {
                w.list(l, |w, f| {
                    w.within(f.span(), |w| {
                        w.ty(&f.ty);
                        w.id(&f.id);
                    })
                })
            }),
            Fields::Unit => {}
        }
    }

    /// Attributes and comments in front of definitions that cannot carry them are not in the tree.
    fn dropped(&mut self, keyword: Span) {
        let gap = self.text[self.end..r(keyword).start].trim_start();
        if gap.starts_with("#[") || gap.starts_with("///") {
            self.loose = true;
        }
    }

    fn definition(&mut self, d: &Definition) {
        match d {
            Definition::Module(m) => {
                self.comment(&m.comment);
                self.dropped(m.keyword.span());
                self.exact(m.keyword.span(), "mod");
                self.name(&m.name);
                self.around(&m.brace, |w| m.definitions.iter().for_each(|d| w.definition(d)));
            }
            Definition::Struct(s) => {
                self.comment(&s.comment);
                self.attributes(&s.attributes);
                self.exact(s.keyword.span(), "struct");
                self.name(&s.name);
                self.generics(&s.generics);
                self.fields(&s.fields);
            }
            Definition::Enum(e) => {
                self.comment(&e.comment);
                self.attributes(&e.attributes);
                self.exact(e.keyword.span(), "enum");
                self.name(&e.name);
                self.generics(&e.generics);
                self.around(&e.brace, |w| {
                    w.list(&e.variants, |w, v| {
                        w.comment(&v.comment);
                        w.within(v.span(), |w| {
                            w.name(&v.name);
                            w.fields(&v.fields);
                            w.id(&v.id);
                        });
                    })
                });
            }
            Definition::TypeAlias(a) => {
                self.comment(&a.comment);
                self.dropped(a.keyword.span());
                self.exact(a.keyword.span(), "type");
                self.name(&a.name);
                self.generics(&a.generics);
                self.exact(a.equal.span(), "=");
                self.ty(&a.target);
                self.exact(a.semicolon.span(), ";");
            }
            Definition::Const(c) => {
                self.comment(&c.comment);
                self.dropped(c.keyword.span());
                self.exact(c.keyword.span(), "const");
                self.name(&c.name);
                self.exact(c.colon.span(), ":");
                self.ty(&c.ty);
                self.exact(c.equal.span(), "=");
                self.literal(&c.value);
                self.exact(c.semicolon.span(), ";");
            }
            Definition::Import(i) => {
                self.dropped(i.keyword.span());
                self.exact(i.keyword.span(), "use");
                let full = r(i.full.span());
                sym::check(self.text.get(full.clone()) == Some(i.full.get()), "the span covers exactly the path");
                let at = self.end;
                for (n, s) in i.segments.iter().enumerate() {
                    if n > 0 {
                        self.loose = true;
                        sym::check(&self.text[self.end..r(s.span()).start] == "::", "a double colon is between two segments");
                    }
                    self.name(s);
                }
                if let Some((c, n)) = &i.element {
                    self.exact(c.span(), "::");
                    self.name(n);
                }
                sym::check(full.start >= at && blank(&self.text[at..full.start]) && full.end == self.end, "the path goes from its first to its last name");
                self.exact(i.semicolon.span(), ";");
            }
        }
    }

    pub fn schema(&mut self, s: &Schema) {
        self.comment(&s.comment);
        for d in &s.definitions {
            self.definition(d);
        }
        sym::check(blank(&self.text[self.end..]), "only white space follows the last token");
    }
}
