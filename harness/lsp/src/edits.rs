//! Changes of a document.

use crate::doc::*;
use lsp_types::*;

/// A change and what it makes of the text.
struct Change {
    range: Option<Range>,
    text: String,
}

impl Change {
    /// Replaces any part of the text.
    fn of(text: &mut String, unit: Unit, new: String) -> Self {
        let b = borders(text);
        let (i, j) = (sym::below(b.len() as u8) as usize, sym::below(b.len() as u8) as usize);
        sym::assume(i <= j);
        let range = Range::new(unit.position(text, b[i]), unit.position(text, b[j]));
        replace(text, b[i], b[j], &new);
        Change { range: Some(range), text: new }
    }
    /// Replaces any part or everything.
    fn any(text: &mut String, unit: Unit, new: String) -> Self {
        if sym::bool() {
            return Self::of(text, unit, new);
        }
        *text = new.clone();
        Change { range: None, text: new }
    }
}

/// Nothing or a character.
fn new() -> String {
    few_text(sym::below(2) as usize)
}
/// Nothing or a fixed text.
fn fixed() -> String {
    ["", "y", "\n\u{e4}"][sym::below(3) as usize].to_owned()
}

fn replace(text: &mut String, i: usize, j: usize, new: &str) {
    let b = text.as_bytes();
    *text = unsafe { String::from_utf8_unchecked([&b[..i], new.as_bytes(), &b[j..]].concat()) };
}

fn send(s: &mut Server, changes: &[Change]) {
    s.change(&changes.iter().map(|c| (c.range, &c.text[..])).collect::<Vec<_>>())
}

fn same(s: &Server, text: &str) {
    sym::check(s.text().as_bytes() == text.as_bytes(), "the server has the text of the editor");
}

/// Any two positions, wherever they are.
fn anywhere(text: &str) {
    let unit = any_unit();
    let mut s = Server::new(unit, text);
    let r = Range::new(Position::new(sym::u32(), sym::u32()), Position::new(sym::u32(), sym::u32()));
    s.change(&[(Some(r), "x")]);
    let at = |p| match unit.offset(text, p) {
        Place::At(o) | Place::Behind(o) => Ok(o),
        Place::Inside => Err(true),
        Place::Nowhere => Err(false),
    };
    match (at(r.start), at(r.end)) {
        (Ok(i), Ok(j)) if i <= j => {
            sym::cover("valid");
            let mut t = text.to_owned();
            replace(&mut t, i, j, "x");
            same(&s, &t);
        }
        (Ok(_), Ok(_)) => {
            sym::cover("inverted");
            same(&s, text);
        }
        (Err(false), _) | (_, Err(false)) => {
            sym::cover("nowhere");
            same(&s, text);
        }
        // What a position inside of a character means is not defined.
        _ => sym::cover("inside"),
    }
    // The server goes on.
    s.change(&[(Some(Range::default()), "y")]);
    sym::check(s.text().as_bytes().first() == Some(&b'y'), "the server goes on");
}

fn one(n: usize) {
    let unit = any_unit();
    let mut t = any_text(n);
    let mut s = Server::new(unit, &t);
    same(&s, &t);
    let c = Change::of(&mut t, unit, new());
    send(&mut s, &[c]);
    same(&s, &t);
}

/// Notifications of several changes each.
fn several(n: usize, notifications: &[usize], new: &dyn Fn() -> String) {
    let unit = any_unit();
    let mut t = few_text(n);
    let mut s = Server::new(unit, &t);
    for (i, n) in notifications.iter().enumerate() {
        let changes: Vec<_> = (0..*n).map(|j| Change::any(&mut t, unit, if i + j == 0 { new() } else { fixed() })).collect();
        send(&mut s, &changes);
        same(&s, &t);
    }
}

sym::harness! {
    fn l02_one() { one(2) }
    fn l02_two() { several(1, &[2], &new) }
    fn l02_two_notifications() { several(1, &[1, 1], &new) }
    // Several changes of one notification, of which each one depends on those before it.
    fn l02_schema() {
        let unit = any_unit();
        let mut t = "struct A\nstruct B(u8 @1)\n".to_owned();
        let mut s = Server::new(unit, &t);
        let c = ["\n", "é", "x\u{10000}", ""][sym::below(4) as usize];
        let at = sym::below(10) as usize;
        let r = |t: &str, i, j| Some(Range::new(unit.position(t, i), unit.position(t, j)));
        let first = r(&t, at, at);
        replace(&mut t, at, at, c);
        let b = borders(&t);
        let (i, j) = (b[sym::below(12) as usize], b[12 + sym::below(b.len() as u8 - 12) as usize]);
        let second = r(&t, i, j);
        replace(&mut t, i, j, "q\n");
        s.change(&[(first, c), (second, "q\n")]);
        same(&s, &t);
    }
    fn l02_anywhere() { anywhere(&any_text(2)) }
    fn t_l02_one() { one(3) }
    fn t_l02_two() { several(2, &[2], &new) }
    fn t_l02_two_notifications() { several(2, &[1, 1], &new) }
    fn t_l02_three() { several(1, &[1, 2], &fixed) }
}
