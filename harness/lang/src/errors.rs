//! Every location carried by a parse error.

use mabo_parser::{Diagnostic, error::*};
use std::ops::Range;

pub struct Places<'a> {
    pub text: &'a str,
    /// Where the construct that is rejected starts.
    pub from: usize,
}

impl Places<'_> {
    fn point(&self, at: usize) {
        self.range(&(at..at));
    }

    fn range(&self, at: &Range<usize>) {
        sym::check(at.start <= at.end, "a location does not start after its end");
        sym::check(at.end <= self.text.len(), "a location lies inside of the text");
        sym::check(self.text.is_char_boundary(at.start) && self.text.is_char_boundary(at.end), "a location does not split a character");
        sym::check(at.start >= self.from, "a location lies in the construct that is rejected");
    }

    /// A declaration that is rejected as a whole.
    ///
    /// Where it ends is a listed finding unless it starts the text.
    fn declaration(&self, at: &Range<usize>) {
        self.point(at.start);
        sym::check(at.end <= self.text.len(), "a location lies inside of the text");
        if at.start == 0 {
            self.range(at);
        } else {
            sym::check(at.start <= at.end && self.text.is_char_boundary(at.end), "a declaration further down ends behind its start, at a character");
        }
    }

    /// The locations a diagnostic shows to the user.
    pub fn labels(&self, d: &dyn Diagnostic) {
        if let Some(l) = d.labels() {
            for l in l {
                let at = l.offset()..l.offset() + l.len();
                if l.label() == Some("In this declaration") {
                    self.declaration(&at);
                } else {
                    self.range(&at);
                }
            }
        }
        if let Some(r) = d.related() {
            for d in r {
                self.labels(d);
            }
        }
        if let Some(d) = d.diagnostic_source() {
            self.labels(d);
        }
    }

    pub fn schema(&self, e: &ParseSchemaError) {
        self.labels(e);
        match &e.cause {
            ParseSchemaCause::Parser(at) => self.point(*at),
            ParseSchemaCause::Comment(e) => self.comment(e),
            ParseSchemaCause::Definition(e) => self.definition(e),
        }
    }

    fn comment(&self, e: &ParseCommentError) {
        self.declaration(&e.at);
        match &e.cause {
            ParseCommentCause::Parser(at) => self.point(*at),
        }
    }

    fn definition(&self, e: &ParseDefinitionError) {
        match e {
            ParseDefinitionError::Parser(at) => self.point(*at),
            ParseDefinitionError::Comment(e) => self.comment(e),
            ParseDefinitionError::Attribute(e) => {
                self.range(&e.at);
                match &e.cause {
                    ParseAttributeCause::Parser(at) => self.point(*at),
                    ParseAttributeCause::Literal(e) => self.literal(e),
                }
            }
            ParseDefinitionError::Module(e) => {
                self.declaration(&e.at);
                match &e.cause {
                    ParseModuleCause::Parser(at) | ParseModuleCause::InvalidName { at } => self.point(*at),
                    ParseModuleCause::Definition(e) => self.definition(e),
                }
            }
            ParseDefinitionError::Struct(e) => {
                self.declaration(&e.at);
                self.structs(&e.cause);
            }
            ParseDefinitionError::Enum(e) => {
                self.range(&e.at);
                self.enums(&e.cause);
            }
            ParseDefinitionError::Const(e) => {
                self.declaration(&e.at);
                match &e.cause {
                    ParseConstCause::Parser(at) | ParseConstCause::UnexpectedChar { at, .. } | ParseConstCause::InvalidName { at } => self.point(*at),
                    ParseConstCause::Type(e) => self.ty(e),
                    ParseConstCause::Literal(e) => self.literal(e),
                }
            }
            ParseDefinitionError::Alias(e) => {
                self.range(&e.at);
                match &e.cause {
                    ParseAliasCause::Parser(at) | ParseAliasCause::InvalidName { at } => self.point(*at),
                    ParseAliasCause::Generics(e) => self.generics(e),
                    ParseAliasCause::Type(e) => self.ty(e),
                }
            }
            ParseDefinitionError::Import(e) => {
                self.declaration(&e.at);
                self.import(&e.cause);
            }
        }
    }

    fn import(&self, c: &ParseImportCause) {
        match c {
            ParseImportCause::Parser(at) | ParseImportCause::InvalidSegmentName { at } => self.point(*at),
            ParseImportCause::StructName(c) => self.structs(c),
            ParseImportCause::EnumName(c) => self.enums(c),
        }
    }

    fn structs(&self, c: &ParseStructCause) {
        match c {
            ParseStructCause::Parser(at) | ParseStructCause::InvalidName { at } => self.point(*at),
            ParseStructCause::Generics(e) => self.generics(e),
            ParseStructCause::Fields(e) => self.fields(e),
        }
    }

    fn enums(&self, c: &ParseEnumCause) {
        match c {
            ParseEnumCause::Parser(at) | ParseEnumCause::InvalidName { at } | ParseEnumCause::InvalidVariantName { at } => self.point(*at),
            ParseEnumCause::Generics(e) => self.generics(e),
            ParseEnumCause::Field(e) => self.fields(e),
            ParseEnumCause::Comment(e) => self.comment(e),
            ParseEnumCause::Id(e) => self.id(e),
        }
    }

    fn generics(&self, e: &ParseGenericsError) {
        self.range(&e.at);
        match &e.cause {
            ParseGenericsCause::Parser(at) | ParseGenericsCause::InvalidName { at } => self.point(*at),
        }
    }

    fn fields(&self, e: &ParseFieldsError) {
        self.declaration(&e.at);
        match &e.cause {
            ParseFieldsCause::Parser(at) | ParseFieldsCause::InvalidName { at } => self.point(*at),
            ParseFieldsCause::Type(e) => self.ty(e),
            ParseFieldsCause::Id(e) => self.id(e),
            ParseFieldsCause::Comment(e) => self.comment(e),
        }
    }

    fn id(&self, e: &ParseIdError) {
        self.range(&e.at);
        match &e.cause {
            ParseIdCause::Parser(at) => self.point(*at),
        }
    }

    fn ty(&self, e: &ParseTypeError) {
        self.range(&e.at);
        match &e.cause {
            ParseTypeCause::Parser(at) => self.point(*at),
            ParseTypeCause::Type(e) => self.ty(e),
            ParseTypeCause::Segment(c) => self.import(c),
        }
    }

    fn literal(&self, e: &ParseLiteralError) {
        self.range(&e.at);
        match &e.cause {
            ParseLiteralCause::Parser(at)
            | ParseLiteralCause::FoundReference { at }
            | ParseLiteralCause::InvalidInt { at }
            | ParseLiteralCause::ParseInt { at, .. } => self.point(*at),
        }
    }
}
