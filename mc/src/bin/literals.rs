//! Prints the constants of the code under test, for `literals.txt`.
fn main() {
    mc::dict::print()
}
