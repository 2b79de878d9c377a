verus! {
// derived traits of Timestamp (comparison of the wrapped u64)
impl PartialOrd for Timestamp { #[verifier::external_body] fn partial_cmp(&self, o: &Timestamp) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Timestamp {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Timestamp) -> Option<Ordering> { Some(tscmp(*self, *o)) }
}
impl Ord for Timestamp { #[verifier::external_body] fn cmp(&self, o: &Timestamp) -> Ordering { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for Timestamp {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Timestamp) -> Ordering { tscmp(*self, *o) }
}
pub open spec fn tscmp(a: Timestamp, b: Timestamp) -> Ordering { if a.0 < b.0 { Ordering::Less } else if a.0 == b.0 { Ordering::Equal } else { Ordering::Greater } }
} // verus!
