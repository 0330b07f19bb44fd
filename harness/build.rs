//! name -> function table of the harness entries, for the native replayer
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut t = String::from("pub fn table() -> Vec<(&'static str, extern \"C\" fn())> {\n    vec![\n");
    let mut files: Vec<_> = std::fs::read_dir("src").unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    for f in files {
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.strip_prefix("entry!(") {
                let n = r.split(',').next().unwrap();
                writeln!(t, "        (\"{n}\", {m}::{n}),").unwrap();
            }
        }
    }
    t.push_str("    ]\n}\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs"), t).unwrap();
}
