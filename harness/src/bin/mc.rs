//! The checks that use the compiler through its public interface and binaries.
fn main() {
    tic_mc::app::main(&tic_mc::checks::all());
}
