//@attach src/query/stream/merge.rs
//! C10: merged scans over staged writes, memtables and sealed segments.
use std::{collections::BTreeMap, ops::Bound, sync::Arc};

use fusio::executor::NoopExecutor;
use futures::StreamExt;

use super::MergeStream;
use crate::{
    key::KeyOwned,
    mutation::DynMutation,
    mvcc::Timestamp,
    query::stream::{Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamEntry},
    transaction::TransactionScan,
    vp_mem::{Kind, Versions, World, visible},
    vp_util::{block_on, cases},
};

type Entry = (usize, u64, Option<Option<i64>>);

fn check(kind: Kind, streams: Vec<ScanStream<'_, NoopExecutor>>, sources: &[(u8, Vec<Entry>)], limit: Option<usize>, order: Option<Order>) -> Result<usize, String> {
    // the model: every key's winner; several candidates where priority and timestamp tie
    let mut best: BTreeMap<usize, (u64, u8, Vec<Option<Option<i64>>>)> = BTreeMap::new();
    for (prio, es) in sources {
        for (r, t, v) in es {
            let e = best.entry(*r).or_insert((*t, *prio, vec![]));
            if (*t, std::cmp::Reverse(*prio)) > (e.0, std::cmp::Reverse(e.1)) {
                *e = (*t, *prio, vec![]);
            }
            if (*t, *prio) == (e.0, e.1) {
                e.2.push(*v);
            }
        }
    }
    let got = block_on(async {
        let mut m = MergeStream::from_vec(streams, limit, order).await.map_err(|e| format!("merge refused: {e}"))?;
        let mut out = vec![];
        while let Some(e) = m.next().await {
            let e = e.map_err(|e| format!("merge failed: {e}"))?;
            let (k, t) = match &e {
                StreamEntry::Txn((k, _)) | StreamEntry::MemTable((k, _)) => (k.key().to_owned(), k.timestamp().get()),
                StreamEntry::Sstable(r) => (r.key_ts().key().to_owned(), r.key_ts().timestamp().get()),
                _ => return Err("a delete marker came out of the merge".to_string()),
            };
            let cells: Vec<String> = e.into_row().ok_or("no row")?.0.iter().map(|c| format!("{c:?}")).collect();
            out.push((kind.rank(&k)?, t, cells));
            if out.len() > 200 {
                return Err("the merge does not end".into());
            }
        }
        // it stays ended
        if m.next().await.is_some() {
            return Err("an entry after the end".into());
        }
        Ok(out)
    })?;
    let mut want = vec![];
    let mut i = 0;
    for (r, (t, prio, vs)) in &best {
        if limit.is_some_and(|l| i >= l) {
            break;
        }
        let rows: Vec<Vec<String>> = vs.iter().flatten().map(|v| kind.cells(*r, *v)).collect();
        let dels = vs.iter().filter(|v| v.is_none()).count();
        match got.get(i) {
            Some((gr, gt, cells)) if gr == r && gt == t && rows.contains(cells) => i += 1,
            // tied sources of equal priority: either may win
            _ if dels > 0 => {}
            g => return Err(format!("key {r} should be next, from priority {prio} at {t} with {rows:?}; got {g:?} as number {i}")),
        }
        want.push(*r);
    }
    if i < got.len() {
        return Err(format!("extra entry {:?}", got[i]));
    }
    Ok(got.len())
}

#[test]
fn c10_sources() {
    cases("c10_sources", 1200, |rng, c| {
        let kind = Kind::random(rng);
        c.log(format!("{kind:?}"));
        let mut worlds = vec![];
        for _ in 0..1 + rng.below(3) {
            let mut w = World::new(kind, 2 + rng.below(12));
            let n = 1 + rng.below(10);
            w.history(c, rng, n)?;
            c.log("-- next world");
            worlds.push(w);
        }
        let mut txns: Vec<BTreeMap<KeyOwned, DynMutation<typed_arrow_dyn::DynRow, ()>>> = vec![];
        let mut staged: Vec<Versions> = vec![];
        let points: Vec<u64> = worlds.iter().flat_map(|w| w.read_points(rng)).collect();
        for j in 0..rng.below(3) {
            let mut m = BTreeMap::new();
            let mut v = Versions::new();
            for _ in 0..rng.below(6) {
                let r = rng.below(kind.n());
                let op = (!rng.chance(1, 3)).then(|| (!rng.chance(1, 8)).then_some(1000 * (j as i64 + 1) + rng.below(50) as i64));
                m.insert(
                    kind.key(r),
                    match op {
                        Some(val) => DynMutation::Upsert(kind.row(r, val)),
                        None => DynMutation::Delete(()),
                    },
                );
                v.insert((r, std::cmp::Reverse(0)), op);
            }
            c.log(format!("staged {v:?}"));
            txns.push(m);
            staged.push(v);
        }
        let segs: Vec<Vec<(Arc<_>, Versions)>> = worlds.iter_mut().map(|w| std::mem::take(&mut w.sealed).into_iter().map(|(s, v)| (Arc::new(s), v)).collect()).collect();
        for _ in 0..4 {
            let ts = *rng.pick(&points);
            let order = if rng.chance(1, 2) { None } else { Some(Order::Asc) };
            let limit = match rng.below(4) {
                0 => Some(rng.below(5)),
                1 => Some(usize::MAX),
                _ => None,
            };
            // sources in a random order
            let mut ids: Vec<(u8, usize, usize)> = vec![];
            (0..txns.len()).for_each(|j| ids.push((0, j, 0)));
            (0..worlds.len()).for_each(|j| ids.push((1, j, 0)));
            segs.iter().enumerate().for_each(|(j, s)| (0..s.len()).for_each(|k| ids.push((2, j, k))));
            rng.shuffle(&mut ids);
            let keep = 1 + rng.below(ids.len());
            ids.truncate(keep);
            c.log(format!("merge at {ts} limit {limit:?} of {ids:?}"));
            let all = (&Bound::Unbounded, &Bound::Unbounded);
            let mut streams: Vec<ScanStream<'_, NoopExecutor>> = vec![];
            let mut sources = vec![];
            for (p, j, k) in ids {
                let t = Timestamp::new(ts);
                match p {
                    0 => {
                        streams.push(TransactionScan::new(&txns[j], &kind.schema(), t, None).map_err(|e| format!("{e:?}"))?.into());
                        sources.push((p, staged[j].iter().map(|((r, _), v)| (*r, ts, *v)).collect()));
                    }
                    1 => {
                        let g = worlds[j].mem.read();
                        streams.push(OwnedMutableScan::from_guard(g, None, t).map_err(|e| format!("{e:?}"))?.into());
                        sources.push((p, visible(&worlds[j].live, ts, all.0, all.1)));
                    }
                    _ => {
                        let (s, v) = &segs[j][k];
                        streams.push(OwnedImmutableScan::from_arc(s.clone(), None, t).map_err(|e| format!("{e:?}"))?.into());
                        sources.push((p, visible(v, ts, all.0, all.1)));
                    }
                }
            }
            if check(kind, streams, &sources, limit, order)? > 1 && sources.len() > 1 {
                c.nontrivial();
            }
        }
        Ok(())
    });
}
