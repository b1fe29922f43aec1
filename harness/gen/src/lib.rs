//! Code generated by `mabo-build` for the schemas of this harness.

#[macro_use]
mod spec;
mod corpus_spec;
mod evolve;
mod props;

macro_rules! schema {
    ($name:ident, $ty:literal) => {
        #[allow(clippy::all, unused)]
        pub mod $name {
            include!(concat!(env!("OUT_DIR"), "/", $ty, "/mabo/", stringify!($name), ".rs"));
        }
    };
}

/// Byte strings as vectors.
pub mod gs {
    schema!(corpus, "std");
    schema!(other, "std");
    schema!(old, "std");
    schema!(new, "std");
}
/// Byte strings as `bytes::Bytes`.
pub mod gb {
    schema!(corpus, "bytes");
    schema!(other, "bytes");
}

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = Vec::new();
    for t in props::TABLES.iter().chain(&evolve::TABLES) {
        v.extend_from_slice(t);
    }
    v
}
