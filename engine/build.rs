use std::path::Path;
fn main() {
    // Z3 (pip wheel in the verification venv) and the LLVM the stable rustc itself uses
    let z3 = std::env::var("SYMX_Z3_DIR").unwrap_or("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".into());
    println!("cargo:rustc-link-search=native={}", z3);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", z3);
    let sysroot = std::env::var("SYMX_SYSROOT").unwrap_or_else(|_| {
        let o = std::process::Command::new(std::env::var("RUSTC").unwrap()).args(["--print", "sysroot"]).output().unwrap();
        String::from_utf8(o.stdout).unwrap().trim().to_string()
    });
    let lib = Path::new(&sysroot).join("lib");
    let f = std::fs::read_dir(&lib).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so")).expect("libLLVM in sysroot");
    println!("cargo:rustc-link-arg={}", lib.join(&f).display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rerun-if-env-changed=SYMX_SYSROOT");
    println!("cargo:rerun-if-changed=build.rs");
}
