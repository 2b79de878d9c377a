//@attach src/wal/writer.rs
//! C05: the writer reopens a torn log and numbers on after the largest sequence it holds.
use crate::vp_util::cases;

#[test]
fn reopening_continues_the_numbering() {
    cases("c05_reopen", 300, |rng, c| super::vp_writer::reopen_case(rng, c));
}
