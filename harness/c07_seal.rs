//@attach src/inmem/immutable/memtable.rs
//! C07: sealing keeps exactly the versions written.
use std::cmp::Reverse;

use super::*;
use crate::{
    inmem::policy::StatsProvider,
    vp_ensure,
    vp_mem::{Kind, Versions, World},
    vp_util::cases,
};

fn check(kind: Kind, seg: &ImmutableMemTable, m: &Versions) -> Result<(), String> {
    // the row iterator lists all versions, keys ascending and newest first
    let got: Vec<(usize, u64, bool)> = seg
        .row_iter()
        .map(|e| Ok((kind.rank(&e.key)?, e.commit_ts.get(), e.tombstone)))
        .collect::<Result<_, String>>()?;
    let want: Vec<(usize, u64, bool)> = m.iter().map(|((r, Reverse(t)), op)| (*r, *t, op.is_none())).collect();
    vp_ensure!(got == want, "segment versions {got:?} instead of {want:?}");
    vp_ensure!(seg.entry_count() == m.len(), "entry count {} for {} versions", seg.entry_count(), m.len());
    // the data rows carry key, value and timestamp of every upsert, in order
    let ups: Vec<(usize, u64, Option<i64>)> = m.iter().filter_map(|((r, Reverse(t)), op)| op.map(|v| (*r, *t, v))).collect();
    vp_ensure!(seg.storage().num_rows() == ups.len(), "{} stored rows for {} upserts", seg.storage().num_rows(), ups.len());
    let mv = seg.mvcc_columns();
    vp_ensure!(mv.commit_ts.iter().map(|t| t.get()).eq(ups.iter().map(|u| u.1)), "commit column {:?}", mv.commit_ts);
    vp_ensure!(mv.tombstone.len() == ups.len() && mv.tombstone.iter().all(|t| !t), "tombstone column {:?}", mv.tombstone);
    let plain = kind.batch(&ups.iter().map(|u| (u.0, u.2)).collect::<Vec<_>>());
    vp_ensure!(seg.storage().columns() == plain.columns(), "stored rows {:?} instead of {:?}", seg.storage(), plain);
    let dels: Vec<(usize, u64)> = m.iter().filter(|(_, op)| op.is_none()).map(|((r, Reverse(t)), _)| (*r, *t)).collect();
    vp_ensure!(seg.delete_sidecar().len() == dels.len() && seg.delete_sidecar().is_empty() == dels.is_empty(), "{} deletes for {}", seg.delete_sidecar().len(), dels.len());
    let db = seg.delete_sidecar().to_record_batch().map_err(|e| format!("delete sidecar batch: {e}"))?;
    vp_ensure!(db == kind.delete_batch(&dels), "delete sidecar {db:?} instead of {dels:?}");
    // reported ranges cover the contents (and are attained)
    let (lo, hi) = (m.keys().next().unwrap().0, m.keys().next_back().unwrap().0);
    vp_ensure!(seg.min_key() == Some(kind.key(lo)) && seg.max_key() == Some(kind.key(hi)), "key range {:?}..{:?}", seg.min_key(), seg.max_key());
    let (a, b) = (m.keys().map(|k| k.1.0).min().unwrap(), m.keys().map(|k| k.1.0).max().unwrap());
    vp_ensure!(seg.commit_ts_bounds() == Some((Timestamp::new(a), Timestamp::new(b))), "timestamp range {:?} instead of {a}..{b}", seg.commit_ts_bounds());
    Ok(())
}

#[test]
fn c07_histories() {
    cases("c07_histories", 1500, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 1 + rng.below(8));
        c.log(format!("{kind:?}"));
        for _ in 0..1 + rng.below(3) {
            let n = 1 + rng.below(12);
            w.history(c, rng, n)?;
            // the live buffer's own account
            vp_ensure!(w.mem.row_count() == w.live.len(), "row count {} with {} versions live", w.mem.row_count(), w.live.len());
            let keys = (w.live.keys().next().map(|k| kind.key(k.0)), w.live.keys().next_back().map(|k| kind.key(k.0)));
            vp_ensure!(w.mem.key_bounds() == keys, "live key bounds {:?} instead of {keys:?}", w.mem.key_bounds());
            let ts = w.live.keys().map(|k| k.1.0).min().zip(w.live.keys().map(|k| k.1.0).max());
            vp_ensure!(w.mem.commit_ts_bounds() == ts.map(|(a, b)| (Timestamp::new(a), Timestamp::new(b))), "live timestamp bounds {:?} instead of {ts:?}", w.mem.commit_ts_bounds());
            let stats = w.mem.build_stats(None);
            let distinct = w.live.keys().map(|k| k.0).collect::<std::collections::BTreeSet<_>>().len();
            vp_ensure!(stats.entries == distinct, "stats report {} keys, {} are live", stats.entries, distinct);
            vp_ensure!(stats.inserts == stats.replaces + stats.entries as u64, "stats {stats:?}");
            w.seal(c)?;
            vp_ensure!(w.mem.row_count() == 0 && w.mem.commit_ts_bounds().is_none(), "the buffer is not empty after sealing");
            let stats = w.mem.build_stats(None);
            vp_ensure!(stats.entries == 0 && stats.inserts == 0 && stats.dyn_batches == Some(0) && stats.approx_key_bytes == 0, "stats not reset by sealing: {stats:?}");
        }
        for (seg, m) in &w.sealed {
            if m.len() > 2 && m.values().any(|o| o.is_none()) {
                c.nontrivial();
            }
            check(kind, seg, m)?;
        }
        Ok(())
    });
}
