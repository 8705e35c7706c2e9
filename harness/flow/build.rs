// collects the entry points of src/ for the replay binary
fn main() {
    let mut names = vec![];
    for e in std::fs::read_dir("src").unwrap() {
        let p = e.unwrap().path();
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "replay" || m == "lib" {
            continue;
        }
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub extern \"C\" fn ") {
                let n = r.split('(').next().unwrap().to_string();
                let feature = format!("CARGO_FEATURE_{}", n.split('_').next().unwrap().to_uppercase());
                if std::env::var(feature).is_ok() {
                    names.push((m.clone(), n));
                }
            }
        }
    }
    names.sort();
    let mut o = String::from("pub fn entries() -> Vec<(&'static str, extern \"C\" fn())> { vec![\n");
    for (m, n) in names {
        o.push_str(&format!("(\"{n}\", h::{m}::{n} as extern \"C\" fn()),\n"));
    }
    o.push_str("] }\n");
    std::fs::write(format!("{}/entries.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
    println!("cargo:rerun-if-changed=src");
}
