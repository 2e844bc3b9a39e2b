use std::path::Path;
fn main() {
    // libz3 (4.8.12) from the distribution.
    for d in ["/usr/lib/x86_64-linux-gnu", "/usr/lib", "/usr/local/lib"] {
        if Path::new(d).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={d}");
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
