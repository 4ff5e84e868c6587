fn main() {
    // newest libz3 of the installed tooling, else the system one
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(d).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={d}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{d}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
