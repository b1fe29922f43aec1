//! The language server, driven by notifications and requests as an editor sends them.

include!(concat!(env!("OUT_DIR"), "/server.rs"));
mod answers;
mod client;
mod doc;
mod edits;
mod positions;
#[path = "../../lang/src/texts.rs"]
mod texts;
mod tokens;
use state::GlobalState;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    [positions::TABLE, edits::TABLE, tokens::TABLE, answers::TABLE].concat()
}
