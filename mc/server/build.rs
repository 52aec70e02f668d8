//! Brings /repo/src/main.rs into this crate as it is, except that inner attributes go and
//! out-of-line modules get an absolute path (so that it can be included).
use std::path::Path;
fn main() {
    println!("cargo:rerun-if-changed=/repo/src");
    let src = std::fs::read_to_string("/repo/src/main.rs").expect("/repo/src/main.rs");
    let mut out = String::new();
    for l in src.lines() {
        let t = l.trim_start();
        if t.starts_with("#![") && t.trim_end().ends_with(']') || t.starts_with("//!") {
            out.push('\n');
            continue;
        }
        let decl = t.strip_prefix("pub ").or_else(|| t.strip_prefix("pub(crate) ")).unwrap_or(t);
        if let Some(name) = decl.strip_prefix("mod ").and_then(|r| r.trim_end().strip_suffix(';')) {
            let a = format!("/repo/src/{name}.rs");
            let b = format!("/repo/src/{name}/mod.rs");
            let p = if Path::new(&a).exists() { a } else { b };
            out.push_str(&format!("#[path = \"{p}\"] {t}\n"));
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    let dst = Path::new(&std::env::var("OUT_DIR").unwrap()).join("server_main.rs");
    std::fs::write(dst, out).unwrap();
}
