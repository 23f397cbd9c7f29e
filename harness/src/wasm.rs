//! The exported functions against the library.
use crate::dump::same;
use crate::fidelity::*;
use crate::gen::*;
use crate::sym::*;
use crate::total::window;
use ratel::error::ParseError;

/// f: which function; minify
fn agree(src: &str, f: u64, minify: bool) {
    show!("{}", src);
    observe(src.as_bytes());
    let got = match f {
        0 => rswasm::transform(src, minify),
        1 => rswasm::generate_ast(src, minify),
        _ => rswasm::generate_ast_estree(src, minify),
    };
    show!("{}", got);
    let want = match ratel::parse(src) {
        Ok(m) => {
            reach(1);
            match (f, minify) {
                (0, _) => ratel_codegen::codegen(&m, minify),
                (1, true) => format!("{:?}", m.body()),
                (1, false) => format!("{:#?}", m.body()),
                (_, true) => serde_json::to_string(&m).unwrap(),
                (_, false) => serde_json::to_string_pretty(&m).unwrap(),
            }
        }
        Err(es) => {
            reach(2);
            if es.len() > 1 {
                reach(3);
            }
            let mut s = String::from("Error: ");
            for (i, e) in es.iter().enumerate() {
                if i > 0 {
                    s.push('\n');
                }
                let p = ParseError::UnexpectedToken { source: src.to_string(), start: e.start, end: e.end };
                s.push_str(&p.to_string());
            }
            s
        }
    };
    same(want.as_bytes(), got.as_bytes(), 1);
    if f == 2 && !minify && ratel::parse(src).is_ok() {
        let min = rswasm::generate_ast_estree(src, true);
        same(min.as_bytes(), &compact(got.as_bytes()), 2);
    }
}
/// JSON without white space outside its strings.
fn compact(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let (mut string, mut escape) = (false, false);
    for c in s {
        if string {
            o.push(*c);
            if escape {
                escape = false;
            } else if *c == b'\\' {
                escape = true;
            } else if *c == b'"' {
                string = false;
            }
        } else if *c != b' ' && *c != b'\n' {
            o.push(*c);
            string = *c == b'"';
        }
    }
    o
}
pub fn wasm(a: u64, b: u64) {
    let w = write(&program(a, &mut G::new(false)));
    agree(text(&w), b / 2, b % 2 == 1);
}
/// n / 10: which function and whether minified
pub fn wasm_window(n: u64, c: u64) {
    let b = n / 10;
    agree(&window(n % 10, c % 100, c >= 100), b / 2, b % 2 == 1);
}
