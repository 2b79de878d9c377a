verus! {
// ---- keys: an abstract totally ordered type (the order laws are property C11, proved in its own unit) ----
#[verifier::external_body]
pub struct KeyOwned { _p: () }
pub uninterp spec fn kle(a: KeyOwned, b: KeyOwned) -> bool;
pub open spec fn klt(a: KeyOwned, b: KeyOwned) -> bool { kle(a, b) && !kle(b, a) }
pub open spec fn keq(a: KeyOwned, b: KeyOwned) -> bool { kle(a, b) && kle(b, a) }
pub open spec fn kcmp(a: KeyOwned, b: KeyOwned) -> Ordering {
    if kle(a, b) { if kle(b, a) { Ordering::Equal } else { Ordering::Less } } else { Ordering::Greater }
}
#[verifier::external_body]
pub proof fn axiom_key_order()
    ensures
        forall|a: KeyOwned| #[trigger] kle(a, a),
        forall|a: KeyOwned, b: KeyOwned| #[trigger] kle(a, b) || kle(b, a),
        forall|a: KeyOwned, b: KeyOwned, c: KeyOwned| #[trigger] kle(a, b) && #[trigger] kle(b, c) ==> kle(a, c),
        forall|a: KeyOwned, b: KeyOwned| #[trigger] kle(a, b) && kle(b, a) ==> a == b,
{}
impl Clone for KeyOwned {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl PartialEq for KeyOwned { #[verifier::external_body] fn eq(&self, o: &KeyOwned) -> bool { unimplemented!() } }
impl Eq for KeyOwned {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for KeyOwned {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &KeyOwned) -> bool { keq(*self, *o) }
}
impl PartialOrd for KeyOwned { #[verifier::external_body] fn partial_cmp(&self, o: &KeyOwned) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for KeyOwned {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &KeyOwned) -> Option<Ordering> { Some(kcmp(*self, *o)) }
}
impl Ord for KeyOwned { #[verifier::external_body] fn cmp(&self, o: &KeyOwned) -> Ordering { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for KeyOwned {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &KeyOwned) -> Ordering { kcmp(*self, *o) }
}
} // verus!
