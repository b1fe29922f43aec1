//! The code generators: what they write for a schema, read back.

mod go;
#[path = "../../comp/src/model.rs"]
#[allow(dead_code)]
mod model;
mod output;
mod rust;
mod schemas;
#[path = "../../lang/src/texts.rs"]
#[allow(dead_code)]
mod texts;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    [rust::TABLE, go::TABLE].concat()
}
