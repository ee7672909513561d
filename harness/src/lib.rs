//! Symbolic harnesses over lunify's public API. Each `h_*` function states its
//! inputs (symbolic), calls the real crate and asserts the property.
pub mod chunk;
pub mod common;
pub mod flow;
pub mod gen;
pub mod header;
pub mod structure;
pub mod one;
pub mod reenc;
pub mod rules;
pub mod sym;
pub mod total;
pub mod vm;

macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}

harnesses! {
    h_reenc51 = reenc::reenc51;
    h_struct51 = structure::struct51;
    h_struct50 = structure::struct50;
    h_strings = structure::strings;
    h_numbers = structure::numbers;
    h_truncated = structure::truncated;
    h_trailing = structure::trailing;
    h_identity = structure::identity;
    h_twice = structure::twice;
    h_many = structure::many;
    h_fields = header::fields;
    h_signature = header::signature;
    h_combinations = header::combinations;
    h_container = header::container;
    h_layouts = header::layouts;
    h_too_wide = header::too_wide;
    h_window = total::window;
    h_words = total::words;
    h_short = total::short;
    h_encoding = structure::encoding;
    h_flow = flow::flow;
    h_names = flow::names;
    h_one50 = one::one50;
}
