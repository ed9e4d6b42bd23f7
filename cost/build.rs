//! Compiles the counter (rt.c), which must not be instrumented itself.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/rt.o", out);
    let s = Command::new("gcc").args(["-O2", "-g", "-fno-builtin", "-fPIC", "-c", "rt.c", "-o", &o]).status().expect("gcc");
    assert!(s.success());
    println!("cargo:rustc-link-arg={}", o);
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr"] { println!("cargo:rustc-link-arg=-Wl,--wrap={}", f); }
}
