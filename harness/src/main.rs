#![allow(dead_code, unused_imports, static_mut_refs)]
use ksymrt as k;
#[cfg(feature = "cli")]
mod cli;
mod util;
mod elfx;
mod sigx;
mod keyx;
mod x509;
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] mod $m; )*
    fn run(n: &str) -> bool { $( #[cfg(feature = $f)] { if $m::dispatch(n) { return true; } } )* let _ = n; false }
} }
include!("props.rs");
fn main() {
    k::keep();
    #[cfg(feature = "native")]
    { k::load(); let n = std::env::args().nth(1).unwrap_or_default(); if !run(&n) { std::process::exit(79) } }
    #[cfg(not(feature = "native"))]
    { run(&std::env::args().nth(1).unwrap_or_default()); }
}
