verus! {
// ---------- size, key range and timestamp range of a sealed segment ----------
impl ImmutableMemTable {
//@ fn src/inmem/immutable/memtable.rs :: ImmutableMemTable::entry_count
@ensures
   r == self.index@.len(),
//@ end
//@ fn src/inmem/immutable/memtable.rs :: ImmutableMemTable::min_key
@flags map
@map .to_owned() =>> .clone()
@ensures
   self.index@.len() == 0 <==> r is None,
   r is Some ==> forall|i: int| 0 <= i < self.index@.len() ==> kle(r->0, #[trigger] self.index@[i].0.key),
   r is Some ==> exists|i: int| 0 <= i < self.index@.len() && r->0 == #[trigger] self.index@[i].0.key,
@start
   proof { axiom_key_order(); axiom_index_sorted(self.index); }
//@ end
//@ fn src/inmem/immutable/memtable.rs :: ImmutableMemTable::max_key
@flags map
@map .to_owned() =>> .clone()
@ensures
   self.index@.len() == 0 <==> r is None,
   r is Some ==> forall|i: int| 0 <= i < self.index@.len() ==> kle(#[trigger] self.index@[i].0.key, r->0),
   r is Some ==> exists|i: int| 0 <= i < self.index@.len() && r->0 == #[trigger] self.index@[i].0.key,
@start
   proof { axiom_key_order(); axiom_index_sorted(self.index); }
//@ end
//@ fn src/inmem/immutable/memtable.rs :: ImmutableMemTable::commit_ts_bounds
@requires
   seg_wf(*self),
@ensures
   // every version of the segment, delete markers included, lies inside the reported range
   r is None ==> self.index@.len() == 0,
   r is Some ==> forall|i: int| 0 <= i < self.index@.len() ==> (r->0).0.0 <= (#[trigger] self.index@[i]).0.ts.0 <= (r->0).1.0,
@start
   proof { if self.index@.len() > 0 { match self.index@[0].1 { ImmutableIndexEntry::Row(row) => {}, ImmutableIndexEntry::Delete => {} } } }
@flags by_ref try_opt
@srcmap for ts in iter =>> for ts in iter.by_ref()
@mustmap let mut iter = self.mvcc.commit_ts.iter().chain(self.deletes.commit_ts.iter()); =>> let mut iter = vx_chain(&self.mvcc.commit_ts, &self.deletes.commit_ts); let ghost all = iter@;
@loop 0
   invariant
      all == self.mvcc.commit_ts@ + self.deletes.commit_ts@, seg_wf(*self),
      iter@.len() <= all.len(), iter@ == all.skip(all.len() - iter@.len()),
      forall|i: int| 0 <= i < all.len() - iter@.len() ==> min_ts.0 <= (#[trigger] all[i]).0 <= max_ts.0,
   ensures
      iter@.len() == 0,
   decreases iter@.len(),
@tail
   proof {
      assert forall|i: int| 0 <= i < self.index@.len() implies min_ts.0 <= (#[trigger] self.index@[i]).0.ts.0 <= max_ts.0 by {
         let ts = self.index@[i].0.ts;
         match self.index@[i].1 {
            ImmutableIndexEntry::Row(row) => { assert(all[row as int] == ts); }
            ImmutableIndexEntry::Delete => {
               let j = choose|j: int| 0 <= j < self.deletes.commit_ts@.len() && self.deletes.commit_ts@[j] == ts;
               assert(all[self.mvcc.commit_ts@.len() + j] == ts);
            }
         }
      }
   }
//@ end
}
/// core::iter::Chain over two slices (dependency contract)
#[verifier::external_body]
pub fn vx_chain<'a>(a: &'a Vec<Timestamp>, b: &'a Vec<Timestamp>) -> (r: BKeys<'a, Timestamp>) ensures r@ == a@ + b@ { unimplemented!() }

} // verus!
