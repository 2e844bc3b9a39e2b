//! A custom language with an import-like item, used where the property is about any language.
use genco::fmt;
use genco::prelude::*;
use core::fmt::Write as _;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Import(pub u8);

genco::impl_lang! {
    pub T {
        type Config = ();
        type Format = ();
        type Item = Any;

        fn open_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &(), has_eval: bool) -> fmt::Result {
            out.write_str(if has_eval { "<<" } else { "<" })
        }
        fn close_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &(), has_eval: bool) -> fmt::Result {
            out.write_str(if has_eval { ">>" } else { ">" })
        }
        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("{")
        }
        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("}")
        }
        // Quoted text is marked character by character, so quoting is visible and nests.
        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                out.write_char('\\')?;
                out.write_char(c)?;
            }
            Ok(())
        }
    }

    Import {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_char((b'A' + self.0) as char)
        }
    }
}

impl genco::lang::LangSupportsEval for T {}
pub type Tok = Tokens<T>;
