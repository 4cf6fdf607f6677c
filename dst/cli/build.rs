//! Makes the command line program of the repository callable: a copy of its
//! sources, in which only the attributes and comments of the crate are dropped.
use std::path::Path;
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.path().is_dir() {
            copy(&e.path(), &t);
        } else if e.file_name() == "main.rs" {
            let s = std::fs::read_to_string(e.path()).unwrap();
            let s: Vec<&str> = s.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).collect();
            std::fs::write(t, s.join("\n")).unwrap();
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}
fn main() {
    let repo = std::env::var("DST_REPO").unwrap_or("/repo".into());
    let src = format!("{repo}/crates/cli/src");
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-env-changed=DST_REPO");
    let out = std::env::var("OUT_DIR").unwrap() + "/cli";
    let _ = std::fs::remove_dir_all(&out);
    copy(Path::new(&src), Path::new(&out));
}
