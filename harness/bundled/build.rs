fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(mc_thumb)");
    if std::env::var("TARGET").unwrap().starts_with("thumb") {
        println!("cargo:rustc-cfg=mc_thumb");
    }
}
