use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-fno-strict-aliasing", "-c", "csrc/simrt.c", "-o"])
        .arg(format!("{out}/simrt.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let _ = std::fs::remove_file(format!("{out}/libsimrt.a"));
    let ok = Command::new("ar")
        .arg("crs")
        .arg(format!("{out}/libsimrt.a"))
        .arg(format!("{out}/simrt.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=simrt");
}
