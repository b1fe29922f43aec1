//! Generated code as a list of words.

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() | (c == b'_')
}

/// Words, strings and other characters. Comments up to the end of their line are left out.
pub fn words(text: &str) -> Vec<&[u8]> {
    let b = text.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        i += 1;
        if b[s].is_ascii_whitespace() {
            continue;
        }
        if b[s] == b'/' && b.get(i) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if b[s] == b'"' {
            while b[i] != b'"' {
                i += 1 + (b[i] == b'\\') as usize;
            }
            i += 1;
        } else if word(b[s]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        }
        o.push(&b[s..i]);
    }
    o
}

/// A place in generated code.
pub struct Code<'a> {
    pub words: &'a [&'a [u8]],
    pub at: usize,
}

impl<'a> Code<'a> {
    pub fn new(words: &'a [&'a [u8]]) -> Self {
        Code { words, at: 0 }
    }
    fn here(&self, i: usize, pattern: &[&[u8]]) -> bool {
        self.words.len() - i >= pattern.len() && pattern.iter().zip(&self.words[i..]).all(|(a, b)| a == b)
    }
    /// Goes behind the next place the pattern is found at.
    pub fn find(&mut self, pattern: &str) -> bool {
        let p = words(pattern);
        let i = (self.at..=self.words.len()).find(|i| self.here(*i, &p));
        if let Some(i) = i {
            self.at = i + p.len();
        }
        i.is_some()
    }
    /// Goes behind the pattern if it follows.
    pub fn next(&mut self, pattern: &str) -> bool {
        let p = words(pattern);
        let r = self.here(self.at, &p);
        if r {
            self.at += p.len();
        }
        r
    }
    /// Everything up to the next place the pattern is found at, or up to the end.
    pub fn until(&self, pattern: &str) -> Code<'a> {
        let p = words(pattern);
        let i = (self.at..self.words.len()).find(|i| self.here(*i, &p)).unwrap_or(self.words.len());
        Code { words: &self.words[..i], at: self.at }
    }
    pub fn count(&self, pattern: &str) -> usize {
        let p = words(pattern);
        (self.at..self.words.len()).filter(|i| self.here(*i, &p)).count()
    }
    /// The words that are called functions of a kind.
    pub fn calls(&self, is: impl Fn(&[u8]) -> bool) -> Vec<&'a [u8]> {
        (self.at..self.words.len()).map(|i| self.words[i]).filter(|w| is(w)).collect()
    }
}

/// What is left of the statement, as text without spaces.
pub fn rest(code: &Code) -> Vec<u8> {
    code.words[code.at..].iter().take_while(|w| **w != b";").flat_map(|w| w.iter().copied()).collect()
}

/// What a quoted string stands for, with escapes of Rust or those of Go.
pub fn unquote(s: &[u8], go: bool) -> Option<Vec<u8>> {
    let s = s.strip_prefix(b"\"")?.strip_suffix(b"\"")?;
    let mut o = vec![];
    let mut i = 0;
    let hex = |s: &[u8]| u32::from_str_radix(std::str::from_utf8(s).ok()?, 16).ok();
    while i < s.len() {
        let c = s[i];
        i += 1;
        if c != b'\\' {
            if c == b'"' || c == b'\n' && go {
                return None;
            }
            o.push(c);
            continue;
        }
        i += 1;
        let mut code = |n: u32| Some(o.extend_from_slice(char::from_u32(n)?.encode_utf8(&mut [0; 4]).as_bytes()));
        match *s.get(i - 1)? {
            b'n' => o.push(b'\n'),
            b't' => o.push(b'\t'),
            b'r' => o.push(b'\r'),
            b'\\' => o.push(b'\\'),
            b'"' => o.push(b'"'),
            b'x' => {
                o.push(hex(s.get(i..i + 2)?)? as u8);
                i += 2;
            }
            b'0' if !go => o.push(0),
            b'\'' if !go => o.push(b'\''),
            b'u' if !go => {
                let end = i + s[i..].iter().position(|c| *c == b'}')?;
                code(hex(s.get(i + 1..end)?)?)?;
                i = end + 1;
            }
            b'a' | b'b' | b'f' | b'v' if go => o.push(match s[i - 1] { b'a' => 7, b'b' => 8, b'f' => 12, _ => 11 }),
            b'u' if go => {
                code(hex(s.get(i..i + 4)?)?)?;
                i += 4;
            }
            b'U' if go => {
                code(hex(s.get(i..i + 8)?)?)?;
                i += 8;
            }
            _ => return None,
        }
    }
    Some(o)
}
