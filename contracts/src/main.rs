//! Native side of the harnesses: counterexample replay and bounded search.
//!   run list
//!   run search SEED SECONDS_PER_HARNESS [HARNESS..]
//!   run replay HARNESS HEXBYTES
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    contracts::runner::main()
}
