//! Lists the harness modules and entry points, so that the replayer runs exactly what the solver ran.
use std::fmt::Write;
fn main() {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../harness/src");
    let dir = dir.canonicalize().unwrap();
    println!("cargo:rerun-if-changed={}", dir.display());
    let (mut mods, mut arms) = (String::new(), String::new());
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let stem = f.file_stem().unwrap().to_str().unwrap();
        if stem == "lib" || f.extension().and_then(|e| e.to_str()) != Some("rs") { continue }
        writeln!(mods, "#[path = \"{}\"] pub mod {stem};", f.display()).unwrap();
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C\" fn ") {
                let n = &r[..r.find('(').unwrap()];
                writeln!(arms, "    (\"{n}\", crate::{stem}::{n}),").unwrap();
            }
        }
    }
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("gen.rs"), format!("{mods}\npub const ENTRIES: &[(&str, extern \"C\" fn(u32))] = &[\n{arms}];\n")).unwrap();
}
