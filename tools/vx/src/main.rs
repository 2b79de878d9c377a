//! vx: the two mechanical steps between /repo's source text and the checks.
//!
//!   vx strip   REPO_SRC OUT_SRC            copy the crate's source without its own test modules
//!   vx extract REPO TEMPLATE OUT.rs OUT.json   build a Verus file from a template, taking every
//!                                          function body and item named in it from REPO's source
//!
//! What extraction changes in a function body is listed in DESIGN.md ("What extraction drops").
mod cont;
mod desugar;
mod extract;
mod slice;
mod strip;
mod toks;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("strip") => strip::run(&a[2], &a[3]),
        Some("extract") => extract::run(&a[2], &a[3], &a[4], &a[5]),
        Some("slice") => slice::run(&a[2], &a[3], &a[4]),
        _ => Err("usage: vx strip|extract ...".into()),
    };
    if let Err(e) = r {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}
