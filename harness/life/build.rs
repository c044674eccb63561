fn main() {
    println!("cargo:rustc-check-cfg=cfg(mc_thumb)");
    if std::env::var("TARGET").unwrap().starts_with("thumb") {
        println!("cargo:rustc-cfg=mc_thumb");
    }
}
