use std::{env, path::Path, process::Command};

fn main() {
    let here = env::var("CARGO_MANIFEST_DIR").unwrap();
    let src = Path::new(&here).join("rt.c");
    let src = if src.exists() { src } else { Path::new(&here).join("../conc/rt.c") };
    let obj = Path::new(&env::var("OUT_DIR").unwrap()).join("rt.o");
    let ok = Command::new("gcc").args(["-O2", "-fPIC", "-fno-stack-protector", "-c"]).arg(&src).arg("-o").arg(&obj).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-arg={}", obj.display());
    // with the stand-in for the allocator crate there is a ledger of its states and blocks
    if Path::new(&here).join("jit").exists() {
        println!("cargo:rustc-cfg=ledger");
    }
    println!("cargo:rerun-if-changed={}", src.display());
}
