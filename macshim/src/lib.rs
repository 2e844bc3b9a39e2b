#![allow(warnings)]
#![recursion_limit = "256"]

pub mod pm {
    pub use proc_macro2::TokenStream;

    /// Where a span starts or ends: line and column for a line and column of the text which was
    /// parsed.
    pub static mut PLACE: fn(usize, usize) -> (usize, usize) = |a, b| (a, b);

    pub struct Span(usize, usize, usize, usize);

    /// `unwrap` of everything which has it.
    pub trait Unwrap {
        type Out;
        fn pm_unwrap(self) -> Self::Out;
    }
    impl Unwrap for proc_macro2::Span {
        type Out = Span;
        fn pm_unwrap(self) -> Span {
            let (a, b) = (self.start(), self.end());
            Span(a.line, a.column, b.line, b.column)
        }
    }
    impl Unwrap for Span {
        type Out = Span;
        fn pm_unwrap(self) -> Span {
            self
        }
    }
    impl<T> Unwrap for Option<T> {
        type Out = T;
        fn pm_unwrap(self) -> T {
            self.unwrap()
        }
    }
    impl<T, E: std::fmt::Debug> Unwrap for Result<T, E> {
        type Out = T;
        fn pm_unwrap(self) -> T {
            self.unwrap()
        }
    }

    impl Span {
        pub fn start(&self) -> Span {
            let (l, c) = unsafe { PLACE(self.0, self.1) };
            Span(l, c, l, c)
        }
        pub fn end(&self) -> Span {
            let (l, c) = unsafe { PLACE(self.2, self.3) };
            Span(l, c, l, c)
        }
        pub fn line(&self) -> usize {
            self.0
        }
        pub fn column(&self) -> usize {
            self.1
        }
    }
}

/// `syn`, with `proc_macro2` in place of `proc_macro`.
pub mod pmsyn {
    pub use syn::*;

    pub mod parse {
        pub use syn::parse::*;

        pub trait Parser: syn::parse::Parser {
            fn parse(self, t: proc_macro2::TokenStream) -> syn::Result<<Self as syn::parse::Parser>::Output>
            where
                Self: Sized,
            {
                syn::parse::Parser::parse2(self, t)
            }
        }
        impl<T: syn::parse::Parser> Parser for T {}
    }

    pub fn parse<T: syn::parse::Parse>(t: proc_macro2::TokenStream) -> syn::Result<T> {
        syn::parse2(t)
    }

    macro_rules! parse_macro_input {
        ($i:ident as $t:ty) => {
            match syn::parse2::<$t>($i) {
                Ok(v) => v,
                Err(e) => return e.to_compile_error(),
            }
        };
    }
    pub(crate) use parse_macro_input;
}

include!(concat!(env!("OUT_DIR"), "/lib.rs"));
