//! Harnesses over vercre-macros: the source of that crate is compiled as an ordinary library (see build.rs), with the
//! compiler's token streams replaced by those of proc-macro2.
#![feature(let_chains)]
#![allow(dead_code)]

macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => {
        match syn::parse2::<$t>($i) {
            Ok(v) => v,
            Err(e) => return e.into_compile_error(),
        }
    };
}
include!(concat!(env!("OUT_DIR"), "/macros.rs"));

pub mod req;
