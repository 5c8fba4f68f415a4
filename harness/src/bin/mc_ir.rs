//! The checks that make or run intermediate code directly. They are a binary of
//! their own so that they alone depend on the shape of ticc-core and ticc-eval.
pub use tic_mc::*;
#[path = "../extra/gc.rs"]
mod gc;
#[path = "../extra/verify.rs"]
mod verify;

fn main() {
    app::main(&[&gc::C15, &verify::C29]);
}
