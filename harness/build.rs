use std::process::Command;

// Compile the quad-precision oracle with the system gcc (libquadmath ships with it).
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=oracle/oracle.c");
    let obj = format!("{out}/oracle.o");
    let lib = format!("{out}/liboracle.a");
    let st = Command::new("gcc")
        .args(["-O2", "-c", "-fno-fast-math", "oracle/oracle.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success(), "gcc failed on oracle.c");
    let _ = std::fs::remove_file(&lib);
    let st = Command::new("ar").args(["crs", &lib, &obj]).status().expect("ar");
    assert!(st.success());
    // libquadmath lives in gcc's own directory
    let q = Command::new("gcc").arg("-print-file-name=libquadmath.a").output().expect("gcc");
    let p = String::from_utf8(q.stdout).unwrap();
    let dir = std::path::Path::new(p.trim()).parent().unwrap().to_path_buf();
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-search=native={}", dir.display());
    println!("cargo:rustc-link-lib=static=oracle");
    println!("cargo:rustc-link-lib=static=quadmath");
    println!("cargo:rustc-link-lib=dylib=m");
}
