//! Documents as the protocol describes them: lines end at line feeds, positions count code units.

use crate::{GlobalState, client, handlers};
use lsp_types::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Unit {
    Bytes,
    Utf16,
    Chars,
}
use Unit::*;

pub const UNITS: [Unit; 3] = [Utf16, Bytes, Chars];

/// One of the encodings of positions.
pub fn any_unit() -> Unit {
    UNITS[sym::below(3) as usize]
}

impl Unit {
    pub fn kind(self) -> PositionEncodingKind {
        match self {
            Bytes => PositionEncodingKind::UTF8,
            Utf16 => PositionEncodingKind::UTF16,
            Chars => PositionEncodingKind::UTF32,
        }
    }

    /// How long a character is, given the number of its bytes.
    pub fn len(self, bytes: usize) -> u32 {
        match self {
            Bytes => bytes as u32,
            Utf16 if bytes == 4 => 2,
            _ => 1,
        }
    }

    pub fn position(self, text: &str, offset: usize) -> Position {
        let (mut line, mut at) = (0, 0);
        for c in chars(text) {
            if c.start >= offset {
                break;
            }
            if text.as_bytes()[c.start] == b'\n' {
                (line, at) = (line + 1, 0);
            } else {
                at += self.len(c.len());
            }
        }
        Position::new(line, at)
    }

    pub fn offset(self, text: &str, p: Position) -> Place {
        let (mut line, mut at) = (0, 0);
        for c in chars(text) {
            let end = text.as_bytes()[c.start] == b'\n';
            if line == p.line {
                if at > p.character {
                    return Place::Inside;
                }
                if end || at == p.character {
                    return if at == p.character { Place::At(c.start) } else { Place::Behind(c.start) };
                }
            }
            if end {
                (line, at) = (line + 1, 0);
            } else {
                at += self.len(c.len());
            }
        }
        if line != p.line {
            Place::Nowhere
        } else if at == p.character {
            Place::At(text.len())
        } else if at > p.character {
            Place::Inside
        } else {
            Place::Behind(text.len())
        }
    }
}

/// What a position refers to.
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    At(usize),
    /// Behind the end of the line, which means the end of the line.
    Behind(usize),
    /// Inside of a character.
    Inside,
    /// There is no such line.
    Nowhere,
}

/// The characters. Their lengths follow from the first byte.
pub fn chars(text: &str) -> impl Iterator<Item = std::ops::Range<usize>> {
    let b = text.as_bytes();
    let mut at = 0;
    std::iter::from_fn(move || {
        let first = *b.get(at)?;
        let n = if first < 0x80 {
            1
        } else if first < 0xe0 {
            2
        } else if first < 0xf0 {
            3
        } else {
            4
        };
        at += n;
        Some(at - n..at)
    })
}

/// The places between the characters.
pub fn borders(text: &str) -> Vec<usize> {
    chars(text).map(|c| c.start).chain([text.len()]).collect()
}

/// Any `n` characters.
pub fn any_text(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        sym::push_char(&mut v);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Any `n` characters of the shortest or the longest kind.
pub fn few_text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        if sym::bool() {
            s.push('\u{10000}');
        } else {
            let c = sym::u8();
            sym::assume(c < 128);
            unsafe { s.as_mut_vec() }.push(c);
        }
    }
    s
}

/// A server with one open document.
pub struct Server {
    state: GlobalState<'static>,
    uri: Uri,
}

impl Server {
    pub fn new(unit: Unit, text: &str) -> Self {
        let connection = Box::leak(Box::new(lsp_server::Connection::memory().0));
        let mut state = GlobalState::new(connection);
        state.encoding = unit.kind();
        let uri: Uri = "file:///a".parse().unwrap();
        let params = DidOpenTextDocumentParams {
            text_document: TextDocumentItem { uri: uri.clone(), language_id: "mabo".to_owned(), version: 1, text: text.to_owned() },
        };
        handlers::did_open(&mut state, params);
        Server { state, uri }
    }

    /// The problems of the document as it is now.
    pub fn problems(&self) -> Vec<Diagnostic> {
        let d = client::sent();
        sym::check(d.is_some(), "diagnostics are published");
        d.unwrap()
    }

    pub fn change(&mut self, changes: &[(Option<Range>, &str)]) {
        let params = DidChangeTextDocumentParams {
            text_document: VersionedTextDocumentIdentifier { uri: self.uri.clone(), version: 2 },
            content_changes: changes.iter().map(|(r, t)| TextDocumentContentChangeEvent { range: *r, range_length: None, text: t.to_string() }).collect(),
        };
        handlers::did_change(&mut self.state, params)
    }

    pub fn text(&self) -> &str {
        let f = self.state.files.get(&self.uri);
        sym::check(f.is_some(), "the document stays open");
        f.unwrap().borrow_content()
    }

    fn document(&self) -> TextDocumentIdentifier {
        TextDocumentIdentifier { uri: self.uri.clone() }
    }

    pub fn hover(&mut self, p: Position) -> anyhow::Result<Option<Hover>> {
        let params = HoverParams {
            text_document_position_params: TextDocumentPositionParams { text_document: self.document(), position: p },
            work_done_progress_params: Default::default(),
        };
        handlers::hover(&mut self.state, params)
    }

    pub fn symbols(&mut self) -> Option<Vec<DocumentSymbol>> {
        let params = DocumentSymbolParams {
            text_document: self.document(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        };
        let r = handlers::document_symbol(&mut self.state, params);
        sym::check(r.is_ok(), "a request for symbols is answered");
        match r.unwrap()? {
            DocumentSymbolResponse::Nested(s) => Some(s),
            DocumentSymbolResponse::Flat(_) => None,
        }
    }

    pub fn tokens(&mut self) -> Option<Vec<SemanticToken>> {
        let params = SemanticTokensParams {
            text_document: self.document(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        };
        let r = handlers::semantic_tokens_full(&mut self.state, params);
        sym::check(r.is_ok(), "a request for tokens is answered");
        match r.unwrap()? {
            SemanticTokensResult::Tokens(t) => Some(t.data),
            SemanticTokensResult::Partial(_) => None,
        }
    }
}
