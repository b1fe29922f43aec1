//! Generate Rust code for the schemas with the code generator under test, once per bytes type.
use std::{env, fs, path::PathBuf};

fn main() {
    println!("cargo:rerun-if-changed=schemas");
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var_os("OUT_DIR").unwrap());
    let dir = env::var("CARGO_MANIFEST_DIR").unwrap() + "/schemas";
    for (name, ty) in [("std", mabo_build::BytesType::VecU8), ("bytes", mabo_build::BytesType::Bytes)] {
        let o = out.join(name);
        fs::create_dir_all(&o).unwrap();
        unsafe { env::set_var("OUT_DIR", &o) };
        mabo_build::Compiler::default().with_bytes_type(ty).compile(&dir).unwrap();
    }
}
