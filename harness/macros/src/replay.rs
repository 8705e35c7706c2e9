//! runs one entry natively on a counterexample (SYM_INPUTS)
use h_macros as h;
include!(concat!(env!("OUT_DIR"), "/entries.rs"));
fn main() {
    let want = std::env::args().nth(1).expect("entry");
    let f = entries().into_iter().find(|(n, _)| *n == want).expect("no such entry").1;
    f();
}
