use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=rt/simrt.h");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fno-builtin-malloc", "-Wno-nonnull-compare", "-c", "rt/simrt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success(), "simrt.c failed to compile");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rustc-link-arg-bins=-no-pie");
}
