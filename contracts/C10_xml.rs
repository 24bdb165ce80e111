//@include pre.rs
// C10: what the XML writer emits is well-formed and reads back as the text given.
verus! {
//@include xmlw.inc.rs
fn main() {}
}
