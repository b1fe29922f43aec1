//! Runtime crate (`mabo`): varints, buffers, field keys, non-zero values.

mod hostile;
mod ints;
mod keys;
mod values;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = ints::TABLE.to_vec();
    for t in values::TABLES.iter().chain(&hostile::TABLES).chain(&keys::TABLES) {
        v.extend_from_slice(t);
    }
    v
}
