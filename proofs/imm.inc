verus! {
// ---- sealed segments: BTreeMap and Arrow types as abstract types, the segment's own structs from the source ----
#[verifier::external_body] pub struct RecordBatch { _p: () }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item src/mvcc/mod.rs :: struct Timestamp
impl Timestamp {
//@ fn src/mvcc/mod.rs :: Timestamp::get
@ensures
   r == self.0,
//@ end
//@ fn src/mvcc/mod.rs :: Timestamp::new
@ensures
   r.0 == raw,
//@ end
}
/// the borrowed form of a key denotes the same key (C11's unit proves that both forms agree)
pub type KeyRow = KeyOwned;
//@ item src/key/ts.rs :: struct KeyTsViewRaw
impl Clone for KeyTsViewRaw { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl KeyTsViewRaw {
//@ fn src/key/ts.rs :: KeyTsViewRaw::new
@ensures
   r.key == key && r.ts == ts,
//@ end
//@ fn src/key/ts.rs :: KeyTsViewRaw::key
@ensures
   *r == self.key,
//@ end
//@ fn src/key/ts.rs :: KeyTsViewRaw::timestamp
@ensures
   r == self.ts,
//@ end
    #[verifier::external_body]
    pub fn from_owned(key: &KeyOwned, ts: Timestamp) -> (r: Self) ensures r.key == *key && r.ts == ts { unimplemented!() }
}
/// version order: key ascending, then timestamp descending (C11)
pub open spec fn vlt(a: KeyTsViewRaw, b: KeyTsViewRaw) -> bool { klt(a.key, b.key) || (a.key == b.key && a.ts.0 > b.ts.0) }
pub open spec fn vle(a: KeyTsViewRaw, b: KeyTsViewRaw) -> bool { klt(a.key, b.key) || (a.key == b.key && a.ts.0 >= b.ts.0) }
pub open spec fn vsorted<V>(s: Seq<(KeyTsViewRaw, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vlt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }

/// std BTreeMap, viewed as its ascending entry sequence (dependency contract)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
#[verifier::external_body]
pub proof fn axiom_index_sorted<V>(m: BTreeMap<KeyTsViewRaw, V>) ensures vsorted(m@) {}
#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct BKeys<'a, K> { _k: core::marker::PhantomData<&'a K> }
impl<'a, K> View for BKeys<'a, K> { type V = Seq<K>; uninterp spec fn view(&self) -> Seq<K>; }
impl<'a, K> BKeys<'a, K> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a K>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: BKeys<'a, K>) ensures r@ == self@.map_values(|e: (K, V)| e.0) { unimplemented!() }
}
//@ item src/inmem/immutable/memtable.rs :: enum ImmutableIndexEntry
//@ item src/inmem/immutable/memtable.rs :: struct MvccColumns
//@ item src/inmem/immutable/memtable.rs :: struct DeleteSidecar
//@ item src/inmem/immutable/memtable.rs :: struct ImmutableMemTable

/// A sealed segment: each entry's row (if any) carries the entry's timestamp, and no deleted rows are stored as rows.
/// Established by DynMemInner::seal (C07's unit).
pub open spec fn seg_wf(t: ImmutableMemTable) -> bool {
    &&& t.mvcc.commit_ts@.len() == t.mvcc.tombstone@.len()
    &&& forall|i: int| 0 <= i < t.index@.len() ==> match (#[trigger] t.index@[i]).1 {
            ImmutableIndexEntry::Row(row) => row < t.mvcc.commit_ts@.len() && t.mvcc.commit_ts@[row as int] == t.index@[i].0.ts,
            ImmutableIndexEntry::Delete => t.deletes.commit_ts@.contains(t.index@[i].0.ts),
        }
}
} // verus!
