//@include pre.rs
use std::fmt;
// C01, part 2: the text of a whole reference.
verus! {
//@include text.inc.rs
} // verus!
fn main() {}
