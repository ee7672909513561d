// Links the engine against the LLVM that the pinned rustc ships and against libz3.
use std::path::PathBuf;
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = PathBuf::from(String::from_utf8(out.stdout).unwrap().trim());
    let lib = sysroot.join("lib");
    let mut so = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") {
            so = Some(n);
        }
    }
    let so = so.expect("no libLLVM.so in the toolchain");
    println!("cargo:rustc-link-arg={}", lib.join(&so).display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rustc-link-arg=-lz3");
    println!("cargo:rerun-if-changed=build.rs");
}
