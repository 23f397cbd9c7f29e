pub mod sym;

macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name(a: u64, b: u64) { $f(a, b) })*
        pub type Harness = extern "C-unwind" fn(u64, u64);
        pub static HARNESSES: &[(&str, Harness)] = &[$((stringify!($name), $name as Harness)),*];
    };
}

/// For the reader of a counterexample; compiled into the native replayer only.
macro_rules! show {
    ($($x:tt)*) => { #[cfg(feature = "show")] { if std::env::var_os("SHOW").is_some() { eprintln!($($x)*); } } };
}

mod total;
mod tree;
mod src;
mod gen;
mod wide;
mod varied;
mod dump;
mod parsed;
mod fidelity;
mod roundtrip;
mod asi;
mod reject;
mod estree;
mod errors;
mod lex;
mod visit;
mod scopes;
mod wasm;
mod transform;

harnesses! {
    h_parse = total::parse;
    h_parse_uni = total::parse_uni;
    h_parse_char = total::parse_char;
    h_consume = total::consume;
    h_tree = fidelity::tree;
    h_spans = fidelity::spans;
    h_layout = fidelity::layout;
    h_asi_newline = asi::newlines;
    h_asi_closer = asi::closers;
    h_asi_missing = asi::missing;
    h_asi_restricted = asi::restricted;
    h_asi_ends = asi::any_end;
    h_changed = reject::changed;
    h_incomplete = reject::incomplete;
    h_unclosed = reject::unclosed;
    h_lex = lex::window;
    h_words = lex::words;
    h_signs = lex::signs;
    h_long = lex::long;
    h_errors = errors::window;
    h_first = errors::first;
    h_report = errors::report;
    h_message = errors::message_of;
    h_estree = estree::estree;
    h_estree_window = estree::window;
    h_integers = estree::integers;
    h_min = roundtrip::min;
    h_pretty = roundtrip::pretty;
    h_min_window = roundtrip::min_window;
    h_pretty_window = roundtrip::pretty_window;
    h_scopes = scopes::scopes;
    h_scopes_window = scopes::scopes_window;
    h_visit = visit::visit;
    h_visit_window = visit::visit_window;
    h_transform = transform::program_of;
    h_transform_window = transform::window_of;
    h_wasm = wasm::wasm;
    h_wasm_window = wasm::wasm_window;
    h_parse_long = lex::parse_long;
    h_damaged = reject::damaged;
    h_consume_damaged = reject::consume_damaged;
    h_min_damaged = roundtrip::min_damaged;
    h_pretty_damaged = roundtrip::pretty_damaged;
    h_estree_damaged = estree::damaged;
    h_consume_uni = total::consume_uni;
    h_consume_program = total::consume_program;
}
