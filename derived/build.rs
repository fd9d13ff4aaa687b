//! Writes the source of every declaration to check.
#[path = "src/decl.rs"]
#[allow(dead_code)]
mod decl;
use std::fmt::Write;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/decl.rs");
    println!("cargo:rerun-if-env-changed=MC_DERIVED");
    let thorough = std::env::var("MC_DERIVED").as_deref() == Ok("thorough");
    let cases = decl::cases(thorough);
    let mut o = String::new();
    for (i, c) in cases.iter().enumerate() {
        let vs: Vec<String> = c.instances().into_iter().map(|v| format!("probe(&{})", v)).collect();
        writeln!(o, "mod t{} {{ use super::prelude::*; {} pub fn run() -> Vec<Seen> {{ vec![{}] }} }}", i, c.source(), vs.join(", ")).unwrap();
    }
    writeln!(o, "pub const THOROUGH: bool = {};", thorough).unwrap();
    writeln!(o, "pub const TABLE: &[fn() -> Vec<prelude::Seen>] = &[{}];", (0..cases.len()).map(|i| format!("t{}::run", i)).collect::<Vec<_>>().join(", ")).unwrap();
    std::fs::write(format!("{}/gen.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
