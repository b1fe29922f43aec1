//! Checking, resolving and simplifying schemas, and what is computed from the result.

mod model;
mod names;
mod numbers;
mod refs;
#[path = "../../lang/src/texts.rs"]
mod texts;
mod total;
mod types;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    [numbers::TABLE, names::TABLE, refs::TABLE, total::never_fails::TABLE, total::says_the_same::TABLE, types::generics::TABLE, types::sizes::TABLE, types::rules::TABLE, types::meaning::TABLE].concat()
}
