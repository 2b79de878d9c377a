verus! {
// ---- the key-value store underneath (fusio-manifest), one instance per kind of manifest ----
#[verifier::external_body] pub struct FusioManifestError { _p: () }
/// (its errors are shown as already converted by `?`, into ManifestError::Backend)
/// hist: every state ever published, oldest first; mine: how many of them this handle published
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Inner<K, V> { _k: core::marker::PhantomData<(K, V)> }
pub uninterp spec fn hist<K, V>(m: Inner<K, V>) -> Seq<Map<K, V>>;
pub uninterp spec fn mine<K, V>(m: Inner<K, V>) -> nat;
pub open spec fn ext<K, V>(a: Seq<Map<K, V>>, b: Seq<Map<K, V>>) -> bool { a.len() <= b.len() && a =~= b.take(a.len() as int) }
/// a state that some publisher made current at some point
pub uninterp spec fn published<K, V>(s: Map<K, V>) -> bool;
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct WSession<K, V> { _k: core::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct RSession<K, V> { _k: core::marker::PhantomData<(K, V)> }
/// the state a write session started from, the history then, and that state with the staged operations applied
pub uninterp spec fn ws_snap<K, V>(s: WSession<K, V>) -> Map<K, V>;
pub uninterp spec fn ws_hist<K, V>(s: WSession<K, V>) -> Seq<Map<K, V>>;
pub uninterp spec fn ws_pend<K, V>(s: WSession<K, V>) -> Map<K, V>;
pub uninterp spec fn rs_snap<K, V>(s: RSession<K, V>) -> Map<K, V>;
pub open spec fn look<K, V>(s: Map<K, V>, k: K) -> Option<V> { if s.contains_key(k) { Some(s[k]) } else { None } }
/// what a kind of manifest guarantees of every state it publishes (good) and of every step from one published state to a later one (keeps)
pub trait Rules: Sized {
    type V;
    spec fn good(s: Map<Self, Self::V>) -> bool;
    spec fn keeps(a: Map<Self, Self::V>, b: Map<Self, Self::V>) -> bool;
}
/// every published state is good, and each keeps what the earlier ones hold
pub open spec fn sound<K: Rules>(h: Seq<Map<K, K::V>>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> K::good(#[trigger] h[i])
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> K::keeps(#[trigger] h[i], #[trigger] h[j])
}
impl<K: Rules> Inner<K, K::V> {
    /// other processes publish in between; they run the same code, so what they publish obeys the same rules
    #[verifier::external_body] pub fn session_write(&mut self) -> (r: Result<WSession<K, K::V>, ManifestError>)
        requires sound::<K>(hist(*old(self))),
        ensures r is Err ==> r->Err_0 is Backend, ext(hist(*old(self)), hist(*final(self))), mine(*final(self)) == mine(*old(self)), sound::<K>(hist(*final(self))),
            r is Ok ==> ws_hist(r->Ok_0) == hist(*final(self)) && ws_snap(r->Ok_0) == (if hist(*final(self)).len() > 0 { hist(*final(self)).last() } else { Map::empty() }) && ws_pend(r->Ok_0) == ws_snap(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn session_read(&self) -> (r: Result<RSession<K, K::V>, ManifestError>)
        requires sound::<K>(hist(*self)),
        ensures r is Err ==> r->Err_0 is Backend, r is Ok ==> published(rs_snap(r->Ok_0)) && K::good(rs_snap(r->Ok_0)) && (forall|i: int| 0 <= i < hist(*self).len() ==> K::keeps(#[trigger] hist(*self)[i], rs_snap(r->Ok_0))) { unimplemented!() }
}
impl<K: Rules> WSession<K, K::V> {
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Result<Option<K::V>, ManifestError>) ensures r is Err ==> r->Err_0 is Backend, r is Ok ==> r->Ok_0 == look(ws_snap(*self), *k) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: K, v: K::V) ensures ws_snap(*final(self)) == ws_snap(*old(self)), ws_hist(*final(self)) == ws_hist(*old(self)), ws_pend(*final(self)) == ws_pend(*old(self)).insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&mut self, k: K) ensures ws_snap(*final(self)) == ws_snap(*old(self)), ws_hist(*final(self)) == ws_hist(*old(self)), ws_pend(*final(self)) == ws_pend(*old(self)).remove(k) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<(), ManifestError>) ensures r is Err ==> r->Err_0 is Backend { unimplemented!() }
    /// compare-and-set on the store's head: all staged operations become the next published state, provided nobody published since the session began; otherwise nothing is published.
    /// What is staged must obey the rules: the state good, nothing dropped of the state the session started from.
    #[verifier::external_body] pub fn commit(self, m: &mut Inner<K, K::V>) -> (r: Result<(), ManifestError>)
        requires sound::<K>(hist(*old(m))), K::good(ws_pend(self)), forall|i: int| 0 <= i < ws_hist(self).len() ==> K::keeps(#[trigger] ws_hist(self)[i], ws_pend(self)),
        ensures sound::<K>(hist(*final(m))), r is Err ==> r->Err_0 is Backend,
            r is Ok ==> hist(*final(m)) == ws_hist(self).push(ws_pend(self)) && mine(*final(m)) == mine(*old(m)) + 1,
            r is Err ==> ext(hist(*old(m)), hist(*final(m))) && mine(*final(m)) == mine(*old(m)) { unimplemented!() }
}
impl<K: Rules> RSession<K, K::V> {
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Result<Option<K::V>, ManifestError>) ensures r is Err ==> r->Err_0 is Backend, r is Ok ==> r->Ok_0 == look(rs_snap(*self), *k) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<(), ManifestError>) ensures r is Err ==> r->Err_0 is Backend { unimplemented!() }
}
} // verus!
