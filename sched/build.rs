//! Compiles the runtime of the scheduler (never instrumented).
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("compiler").success());
    run(Command::new("gcc").args(["-O2", "-fPIC", "-w", "-c", "src/rt.c", "-o", &format!("{out}/rt.o")]));
    run(Command::new("ar").args(["crs", &format!("{out}/libschedrt.a"), &format!("{out}/rt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=schedrt");
    println!("cargo:rerun-if-changed=src/rt.c");
}
