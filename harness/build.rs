use std::process::Command;
fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    let src = format!("{dir}/vh.c");
    println!("cargo:rerun-if-changed={src}");
    let obj = format!("{out}/vh.o");
    let ok = Command::new("cc").args(["-O1", "-c", "-o", &obj, &src]).status().expect("cc").success();
    assert!(ok, "cc failed");
    println!("cargo:rustc-link-arg={obj}");
}
