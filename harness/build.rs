use std::{env, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let root = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../ref");
    for f in ["eval.cpp", "model.hpp", "num.hpp"] {
        println!("cargo:rerun-if-changed={}", root.join(f).display());
    }
    let o = format!("{out}/eval.o");
    let ok = Command::new("g++")
        .args(["-std=gnu++20", "-O2", "-fPIC", "-c"])
        .arg(root.join("eval.cpp"))
        .args(["-o", &o])
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let ok = Command::new("ar").args(["crs", &format!("{out}/libref.a"), &o]).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=ref");
    println!("cargo:rustc-link-lib=dylib=quadmath");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
