//! The checks of formatter and ticc-syntax, which alone depend on these crates.
pub use tic_mc::*;
#[path = "../extra/trees.rs"]
mod trees;

fn main() {
    app::main(&[&trees::C30, &trees::C31]);
}
