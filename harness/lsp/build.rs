//! The modules of the language server under test, with its connection to the editor replaced by a
//! stand-in that records what is sent.
use std::{env, fs, path::Path};

const SERVER: &str = "/repo/crates/mabo-lsp/src";

fn main() {
    println!("cargo:rerun-if-changed={SERVER}");
    println!("cargo:rerun-if-changed=build.rs");
    let main = fs::read_to_string(format!("{SERVER}/main.rs")).unwrap();
    let mut out = String::new();
    for line in main.lines() {
        let Some(name) = line.strip_prefix("pub ").unwrap_or(line).strip_prefix("mod ").and_then(|l| l.strip_suffix(';')) else { continue };
        if ["cli", "client", "logging"].contains(&name) {
            continue;
        }
        let file = [format!("{SERVER}/{name}.rs"), format!("{SERVER}/{name}/mod.rs")].into_iter().find(|f| Path::new(f).exists()).unwrap();
        out += &format!("#[allow(clippy::all, unused)]\n#[path = {file:?}]\npub mod {name};\n");
    }
    fs::write(env::var("OUT_DIR").unwrap() + "/server.rs", out).unwrap();
}
