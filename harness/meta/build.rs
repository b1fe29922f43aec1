//! Generate Rust code for the schema with the code generator under test.
use std::env;

fn main() {
    println!("cargo:rerun-if-changed=schemas");
    println!("cargo:rerun-if-changed=build.rs");
    let dir = env::var("CARGO_MANIFEST_DIR").unwrap() + "/schemas";
    mabo_build::Compiler::default().compile(&dir).unwrap();
}
