//! The schema language: parser, printer, checks and everything computed from a schema.

mod errors;
mod lexemes;
mod same;
mod syntax;
mod texts;
mod walk;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    [lexemes::ids::TABLE, lexemes::literals::TABLE, lexemes::naming::TABLE, syntax::total::TABLE, syntax::total_strings::TABLE, syntax::places::TABLE, syntax::spans::TABLE, syntax::print::TABLE].concat()
}
