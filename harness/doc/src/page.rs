//! What is in a page.

/// Where the text is, as one question for each place.
fn finds(b: &[u8], what: &[u8]) -> Vec<usize> {
    let mut o = vec![];
    let mut i = 0;
    while i + what.len() <= b.len() {
        let mut same = true;
        for j in 0..what.len() {
            same &= b[i + j] == what[j];
            if !std::hint::black_box(same) {
                break;
            }
        }
        if same {
            o.push(i);
        }
        i += 1;
    }
    o
}

/// Text with the characters that are written as numbers or names.
fn plain(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'&' {
            sym::check((b[i] != b'<') & (b[i] != b'>'), "text is escaped");
            o.push(b[i]);
            i += 1;
            continue;
        }
        let e = i + b[i..].iter().position(|c| *c == b';').unwrap();
        o.push(match &b[i + 1..e] {
            b"lt" | b"#60" => b'<',
            b"gt" | b"#62" => b'>',
            b"amp" | b"#38" => b'&',
            b"quot" | b"#34" => b'"',
            b"apos" | b"#39" => b'\'',
            _ => {
                sym::check(false, "characters are escaped as in HTML");
                0
            }
        });
        i = e + 1;
    }
    o
}

fn upto(b: &[u8], end: u8) -> &[u8] {
    &b[..b.iter().position(|c| *c == end).unwrap()]
}

/// The values of the attribute, wherever it is.
pub fn attributes(content: &str, start: &str) -> Vec<Vec<u8>> {
    let b = content.as_bytes();
    finds(b, start.as_bytes()).into_iter().map(|i| plain(upto(&b[i + start.len()..], b'"'))).collect()
}

/// The texts between what is given and the next tag.
pub fn elements(content: &str, start: &str) -> Vec<Vec<u8>> {
    let b = content.as_bytes();
    finds(b, start.as_bytes()).into_iter().map(|i| plain(upto(&b[i + start.len()..], b'<'))).collect()
}

/// Parts of the page, each starting with what is given.
pub fn parts<'a>(content: &'a str, start: &str) -> Vec<&'a str> {
    let mut at = finds(content.as_bytes(), start.as_bytes());
    at.push(content.len());
    at.windows(2).map(|w| &content[w[0]..w[1]]).collect()
}

/// The text of the headline.
pub fn headline(content: &str) -> Vec<u8> {
    let b = content.as_bytes();
    let (s, e) = (finds(b, b"<h2>"), finds(b, b"</h2>"));
    // Others can follow in comments.
    sym::check(!s.is_empty() && !e.is_empty() && s[0] < e[0], "pages have a headline");
    let mut text = vec![];
    let mut tag = false;
    for c in &b[s[0] + 4..e[0]] {
        match c {
            b'<' => tag = true,
            b'>' => tag = false,
            c if !tag => text.push(*c),
            _ => {}
        }
    }
    text.trim_ascii().to_vec()
}
