//@attach src/ondisk/merge.rs
//! C13: a compaction merge keeps every key's newest version, once, in order, within the caps.
use std::{cmp::Reverse, collections::BTreeSet, sync::Arc, sync::atomic::AtomicU64};

use fusio::executor::NoopExecutor;

use super::SsTableMerger;
use crate::{
    ondisk::sstable::{SsTable, SsTableConfig, SsTableDescriptor, SsTableId},
    vp_mem::{Kind, Versions},
    vp_sst::{check_contents, config, segment, write},
    vp_util::{Case, Rng, block_on, cases},
};

/// newest version of every key
fn latest(all: &Versions) -> Versions {
    let mut out = Versions::new();
    let mut last = None;
    for ((r, t), v) in all {
        if last != Some(*r) {
            out.insert((*r, *t), *v);
            last = Some(*r);
        }
    }
    out
}

fn merge_case(c: &mut Case, rng: &mut Rng, kind: Kind, tables: &[(SsTable, Versions)], cfg: &Arc<SsTableConfig>) -> Result<(), String> {
    let mut all = Versions::new();
    for t in tables {
        all.extend(t.1.iter().map(|(k, v)| (*k, *v)));
    }
    let want = latest(&all);
    let cap = rng.chance(1, 2).then(|| 1 + rng.below(if kind == Kind::Wide { 3000 } else { 4 }));
    let chunk = *rng.pick(&[1, 2, 7, 1024]);
    c.log(format!("merge {} tables, row cap {cap:?}, chunk {chunk}", tables.len()));
    let target = SsTableDescriptor::new(SsTableId::new(1000), 2);
    let out = block_on(
        SsTableMerger::new(Arc::clone(cfg), tables.iter().map(|t| t.0.descriptor().clone()).collect(), target)
            .with_output_id_allocator(Arc::new(AtomicU64::new(1001)))
            .with_output_caps(cap, None)
            .with_chunk_rows(chunk)
            .execute(NoopExecutor),
    )
    .map_err(|e| format!("merge failed: {e}"))?;
    // split the wanted versions over the outputs: an output is closed once it holds `cap` rows
    let mut parts: Vec<Versions> = vec![Versions::new()];
    for (k, v) in &want {
        let last = parts.last_mut().unwrap();
        last.insert(*k, *v);
        if cap.is_some_and(|cap| last.values().filter(|v| v.is_some()).count() >= cap) {
            parts.push(Versions::new());
        }
    }
    if parts.last().unwrap().is_empty() {
        parts.pop();
    }
    let wals = |d: &SsTableDescriptor| d.wal_ids().map(|w| w.to_vec()).unwrap_or_default();
    let mut want_wal: Vec<_> = tables.iter().flat_map(|t| wals(t.0.descriptor())).collect();
    want_wal.sort();
    want_wal.dedup();
    for (i, t) in out.iter().enumerate() {
        if t.descriptor().id().raw() != 1000 + i as u64 || t.descriptor().level() != 2 {
            return Err(format!("output {i} is {:?}", t.descriptor()));
        }
        if wals(t.descriptor()) != want_wal {
            return Err(format!("output {i} names WAL files {:?} instead of {want_wal:?}", wals(t.descriptor())));
        }
        let Some(m) = parts.get(i) else {
            return Err(format!("{} outputs instead of {}", out.len(), parts.len()));
        };
        block_on(check_contents(kind, cfg, t, m)).map_err(|e| format!("output {i}: {e}"))?;
    }
    if out.len() != parts.len() {
        return Err(format!("{} outputs instead of {}: missing {:?}", out.len(), parts.len(), parts[out.len()].keys().next()));
    }
    Ok(())
}

fn run(c: &mut Case, rng: &mut Rng, kind: Kind) -> Result<(), String> {
    let cfg = config(kind, *rng.pick(&[2, 300, 1 << 20]).max(&if kind == Kind::Wide { 100 } else { 1 }));
    let mut used = BTreeSet::new();
    let mut tables = vec![];
    let wide = kind == Kind::Wide;
    let ids = crate::id::FileIdGenerator::default();
    let pool: Vec<_> = (0..4).map(|_| ids.generate()).collect();
    for id in 0..1 + rng.below(4) {
        let mut segs = vec![];
        for _ in 0..1 + rng.below(2) {
            let keys = if wide { *rng.pick(&[60, 3000, 6000]) } else { 1 + rng.below(kind.n()) };
            let size = if wide { *rng.pick(&[2, 150, 2600]) } else { 1 + rng.below(9) };
            let tsmax = if wide { 9 } else { *rng.pick(&[2, 30]) };
            segs.extend(segment(c, rng, kind, &mut used, keys, size, tsmax)?);
        }
        if segs.is_empty() {
            continue;
        }
        let (t, m) = block_on(write(&cfg, id as u64 + 1, id % 2, &segs.iter().collect::<Vec<_>>()))?;
        let wal = rng.chance(2, 3).then(|| (0..rng.below(3)).map(|_| *rng.pick(&pool)).collect::<Vec<_>>());
        let t = SsTable::new(t.descriptor().clone().with_wal_ids(wal));
        tables.push((t, m));
    }
    if tables.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    merge_case(c, rng, kind, &tables, &cfg)
}

#[test]
fn c13_merge_small() {
    cases("c13_merge_small", 250, |rng, c| {
        let kind = Kind::random(rng);
        run(c, rng, kind)
    });
}

#[test]
fn c13_merge_wide() {
    cases("c13_merge_wide", 10, |rng, c| run(c, rng, Kind::Wide));
}
