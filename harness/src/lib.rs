//! Harnesses for genco. Every `h_*` function is executed symbolically by `gsx` and natively by
//! `replay`; it only uses genco's public API.
#![allow(dead_code)]
#[macro_use]
pub mod sx;
pub mod lang;
pub mod model;
pub mod lit;
pub mod bind;
#[cfg(feature = "quoting")]
pub mod mini;

macro_rules! modules {
    ($($feature:literal $name:ident)*) => {
        $(#[cfg(feature = $feature)] pub mod $name;)*
        pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $(#[cfg(feature = $feature)] v.extend_from_slice($name::TABLE);)*
            v
        }
    };
}

modules! {
    "layout" layout
    "strings" strings
    "compose" compose
    "quotes" quotes
    "imp_js" imp_js
    "imp_python" imp_python
    "imp_rust" imp_rust
    "imp_java" imp_java
    "imp_csharp" imp_csharp
    "imp_misc" imp_misc
    "imp_nix" imp_nix
    "files" files
    "quoting" quoting
    "values" values
    "content" content
    "comments" comments
    "imp_text" imp_text
}
