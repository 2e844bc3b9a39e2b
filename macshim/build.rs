//! Copies the sources of the procedural macros and makes a library out of them: the only changes
//! are that the types of the compiler's `proc_macro` are replaced by those of `proc_macro2`, and
//! that the position of a span is asked from a hook.
use std::{env, fs, path::Path};

fn rewrite(s: &str) -> String {
    let mut s = s.replace("extern crate proc_macro;", "");
    s = s.replace("#[proc_macro]", "");
    // words `proc_macro::` and `syn::`, not `proc_macro2::`
    s = word(&s, "::proc_macro::", "crate::pm::");
    s = word(&s, "proc_macro::", "crate::pm::");
    s = word(&s, "::syn::", "crate::pmsyn::");
    s = word(&s, "syn::", "crate::pmsyn::");
    s = s.replace(".unwrap()", ".pm_unwrap()");
    s = s.replace("cfg(proc_macro_span)", "cfg(all())").replace("cfg(not(proc_macro_span))", "cfg(any())");
    // behind the inner attributes and comments
    let mut out = String::new();
    let mut head = true;
    for l in s.lines() {
        let t = l.trim();
        if head && !(t.is_empty() || t.starts_with("//") || t.starts_with("#![")) {
            head = false;
            out.push_str("#[allow(unused_imports)] use crate::pm::Unwrap as _;\n");
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

/// Replace where it does not continue a word or a path.
fn word(s: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(a) {
        let before = rest[..i].chars().last().or(out.chars().last());
        out.push_str(&rest[..i]);
        let inside = before.map_or(false, |c| c.is_alphanumeric() || c == '_' || c == ':');
        out.push_str(if inside { a } else { b });
        rest = &rest[i + a.len()..];
    }
    out.push_str(rest);
    out
}

fn main() {
    let src = Path::new("/repo/genco-macros/src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    copy(src, out);
    let lib = fs::read_to_string(out.join("lib.rs")).unwrap();
    let mut text = String::new();
    for line in lib.lines() {
        let t = line.trim();
        if t.starts_with("#![") || t.starts_with("//") {
            continue;
        }
        if let Some(name) = t.trim_start_matches("pub(crate) ").trim_start_matches("pub ").strip_prefix("mod ").and_then(|t| t.strip_suffix(';')) {
            let mut p = out.join(format!("{name}.rs"));
            if !p.exists() {
                p = out.join(name).join("mod.rs");
            }
            text.push_str(&format!("#[path = {:?}]\n", p));
        }
        text.push_str(line);
        text.push('\n');
    }
    fs::write(out.join("lib.rs"), text).unwrap();
}

fn copy(src: &Path, out: &Path) {
    for e in fs::read_dir(src).unwrap() {
        let e = e.unwrap().path();
        let to = out.join(e.file_name().unwrap());
        if e.is_dir() {
            fs::create_dir_all(&to).unwrap();
            copy(&e, &to);
        } else if e.extension().map_or(false, |x| x == "rs") {
            fs::write(to, rewrite(&fs::read_to_string(&e).unwrap())).unwrap();
        }
    }
}
