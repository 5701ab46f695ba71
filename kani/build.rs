//! Lists the harnesses (`k_name = body` and `macro!(k_name, body, ..)`) for the
//! native replay binary.
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut out = String::from("pub const ALL: &[(&str, fn())] = &[\n");
    let mut names: Vec<_> = fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        if !stem.starts_with("h_") {
            continue;
        }
        for l in fs::read_to_string(&p).unwrap().lines() {
            let t = l.trim();
            let t = t.strip_prefix("world_proof! {").unwrap_or(t).trim();
            let t = t.rsplit("] ").next().unwrap();
            let t = if t.contains("!(k_") { &t[t.find("!(").unwrap() + 2..] } else { t };
            if !t.starts_with("k_") {
                continue;
            }
            let n: String = t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let rest = t[n.len()..].trim_start();
            if rest.starts_with('=') || rest.starts_with(',') {
                out += &format!("    (\"{stem}::{n}\", crate::{stem}::{n} as fn()),\n");
            }
        }
    }
    out += "];\n";
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("list.rs"), out).unwrap();
}
