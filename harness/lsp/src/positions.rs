//! Positions and offsets.

use crate::{doc::*, handlers::index::Index};
use line_index::LineIndex;
use lsp_types::{Position, Range};

/// Offsets between characters, there and back.
fn offsets(text: &str) {
    let unit = any_unit();
    let index = Index::new(LineIndex::new(text), &unit.kind());
    let b = borders(text);
    let (i, j) = (sym::below(b.len() as u8) as usize, sym::below(b.len() as u8) as usize);
    sym::assume(i <= j);
    let (i, j) = (b[i], b[j]);
    let want = Range::new(unit.position(text, i), unit.position(text, j));
    let got = index.get_range(i..j);
    sym::check(got.as_ref().is_ok_and(|got| *got == want), "offsets have the position that counts the units of the line before them");
    let back = index.get_offset(want.end);
    sym::check(back.is_ok_and(|o| o == j), "the position of an offset is converted back to it");
}

/// Any position.
fn positions(text: &str) {
    let unit = any_unit();
    let index = Index::new(LineIndex::new(text), &unit.kind());
    let p = Position::new(sym::u32(), sym::u32());
    let got = index.get_offset(p);
    match unit.offset(text, p) {
        Place::At(o) => {
            sym::cover("at");
            sym::check(got.is_ok_and(|got| got == o), "a position inside of the text has its offset");
        }
        Place::Behind(o) => {
            sym::cover("behind");
            sym::check(got.is_ok_and(|got| got == o), "a position behind the end of its line stands for the end");
        }
        Place::Inside => {
            sym::cover("inside");
            sym::check(got.map_or(true, |got| got <= text.len()), "a position inside of a character gives no offset behind the text");
        }
        Place::Nowhere => {
            sym::cover("nowhere");
            sym::check(got.is_err(), "a position in a line that does not exist is an error");
        }
    }
}

/// Characters that only just fit into or cross the blocks of 16 bytes that are searched at once.
fn long(n: usize) -> String {
    let lead = 13 + sym::below(4) as usize;
    let mut s = "a".repeat(lead);
    s.push_str(&any_text(n));
    s.push_str("b\n\u{e4}c");
    s
}

sym::harness! {
    fn l01_offsets() { offsets(&any_text(3)) }
    fn l01_offsets_long() { offsets(&long(1)) }
    fn l01_positions() { positions(&any_text(2)) }
    fn l01_positions_long() { positions(&long(1)) }
    fn t_l01_offsets() { offsets(&any_text(4)) }
    fn t_l01_offsets_long() { offsets(&long(2)) }
    fn t_l01_positions() { positions(&any_text(3)) }
    fn t_l01_positions_long() { positions(&long(2)) }
}
