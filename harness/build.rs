//! Compiles the C shim against the header in /repo (only with the feature `capi`).
use std::{env, path::PathBuf, process::Command};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if env::var_os("CARGO_FEATURE_CAPI").is_none() {
        return;
    }
    println!("cargo:rerun-if-changed=capi/shim.c");
    println!("cargo:rerun-if-changed=/repo/assets/ebur128.h");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let run = |c: &mut Command| assert!(c.status().expect("cannot run").success(), "{c:?} failed");
    run(Command::new("cc").args(["-std=c99", "-O1", "-g", "-fPIC", "-Wall", "-Werror", "-I/repo/assets", "-c", "capi/shim.c", "-o"]).arg(out.join("shim.o")));
    run(Command::new("ar").arg("crs").arg(out.join("libshim.a")).arg(out.join("shim.o")));
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=shim");
}
