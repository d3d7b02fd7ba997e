fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let ok = std::process::Command::new("gcc")
        .args(["-O2", "-fPIC", "-c", "hook.c", "-o"])
        .arg(format!("{o}/hook.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let ok = std::process::Command::new("ar")
        .args(["crus"])
        .arg(format!("{o}/libsimhook.a"))
        .arg(format!("{o}/hook.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={o}");
    println!("cargo:rustc-link-lib=static=simhook");
    println!("cargo:rerun-if-changed=hook.c");
    println!("cargo:rerun-if-changed=build.rs");
}
