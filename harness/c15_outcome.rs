//@attach src/compaction/orchestrator.rs
//! C15: a compaction outcome swaps exactly the planned tables and keeps needed WAL segments.
use std::collections::BTreeMap;

use fusio::path::Path;
use ulid::Ulid;

use super::*;
use crate::{
    key::KeyOwned,
    manifest::{SstEntry, TableId, VersionEdit},
    mvcc::Timestamp,
    ondisk::sstable::SsTableStats,
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

#[derive(Clone, Debug, PartialEq)]
struct E {
    wal: Option<Vec<FileId>>,
    data: String,
    del: Option<String>,
    max_ts: Option<u64>,
}
#[derive(Clone, Debug, Default)]
struct Model {
    levels: BTreeMap<u32, BTreeMap<u64, E>>,
    wal: Vec<WalSegmentRef>,
    mark: Option<u64>,
}
fn stats(ts: Option<u64>) -> SsTableStats {
    SsTableStats { rows: 1, bytes: 3, tombstones: 0, min_key: Some(KeyOwned::from(1i64)), max_key: None, min_commit_ts: ts.map(Timestamp::new), max_commit_ts: ts.map(Timestamp::new) }
}
fn entry(id: u64, e: &E) -> SstEntry {
    SstEntry::new(SsTableId::new(id), e.max_ts.map(|t| stats(Some(t))), e.wal.clone(), Path::parse(&e.data).unwrap(), e.del.as_ref().map(|d| Path::parse(d).unwrap()))
}
fn seg(rng: &mut Rng, seq: u64) -> WalSegmentRef {
    let first = seq * 10 + rng.range(0, 3);
    WalSegmentRef::new(seq, Ulid::from(1000 + seq as u128), first, first + rng.range(0, 5))
}
fn gen_e(rng: &mut Rng, id: u64, files: &[FileId]) -> E {
    E {
        wal: (!rng.chance(1, 9)).then(|| files.iter().filter(|_| rng.chance(1, 4)).cloned().collect()),
        data: format!("d/{id}-{}", rng.below(3)),
        del: rng.chance(1, 2).then(|| format!("x/{id}-{}", rng.below(3))),
        max_ts: rng.chance(3, 4).then(|| rng.range(0, 9)),
    }
}
fn compare(v: &VersionState, m: &Model, what: &str) -> Result<(), String> {
    let top = m.levels.iter().filter(|(_, b)| !b.is_empty()).map(|(l, _)| *l as usize + 1).max().unwrap_or(0);
    for l in 0..v.ssts().len().max(top) {
        let mut want = m.levels.get(&(l as u32)).cloned().unwrap_or_default();
        for e in v.ssts().get(l).map(|b| b.as_slice()).unwrap_or(&[]) {
            let Some(w) = want.remove(&e.sst_id().raw()) else {
                return Err(format!("{what}: level {l} lists table {:?} which is not there (or twice)", e.sst_id()));
            };
            let got = E { wal: e.wal_segments().map(|w| w.to_vec()), data: e.data_path().to_string(), del: e.delete_path().map(|d| d.to_string()), max_ts: e.stats().and_then(|s| s.max_commit_ts).map(|t| t.get()) };
            vp_ensure!(got == w, "{what}: table {:?} at level {l} became {got:?}, was {w:?}", e.sst_id());
        }
        vp_ensure!(want.is_empty(), "{what}: level {l} lost tables {:?}", want.keys());
    }
    let mut wal = m.wal.clone();
    wal.sort_by_key(|s| (s.seq(), s.first_frame(), s.last_frame(), *s.file_id()));
    vp_ensure!(v.wal_segments() == wal.as_slice(), "{what}: wal segments are {:?}, not {wal:?}", v.wal_segments());
    vp_ensure!(v.cloned_wal_floor() == wal.first().cloned(), "{what}: wal floor {:?} with segments {wal:?}", v.cloned_wal_floor());
    vp_ensure!(v.tombstone_watermark() == m.mark, "{what}: watermark {:?}, not {:?}", v.tombstone_watermark(), m.mark);
    Ok(())
}
fn files_of(m: &Model) -> Vec<FileId> {
    m.wal.iter().map(|s| *s.file_id()).collect()
}
/// one random edit, applied to the model; None if it must be refused
fn edit(rng: &mut Rng, m: &mut Model, next: &mut u64, len: &mut usize) -> (VersionEdit, bool) {
    match rng.below(6) {
        0 | 1 | 2 => {
            let level = rng.below(4) as u32;
            let n = rng.below(4);
            let files = files_of(m);
            let mut entries = vec![];
            for _ in 0..n {
                let known: Vec<u64> = m.levels.get(&level).map(|b| b.keys().cloned().collect()).unwrap_or_default();
                let id = if !known.is_empty() && rng.chance(1, 4) { *rng.pick(&known) } else { *next += 1 + rng.below(2) as u64; *next * 7919 % 101 * 1000 + *next };
                let e = gen_e(rng, id, &files);
                entries.push(entry(id, &e));
                m.levels.entry(level).or_default().insert(id, e);
            }
            if n > 0 { *len = (*len).max(level as usize + 1); }
            (VersionEdit::AddSsts { level, entries }, true)
        }
        3 => {
            let level = rng.below(4) as u32;
            let mut ids = vec![];
            let all: Vec<(u32, u64)> = m.levels.iter().flat_map(|(l, b)| b.keys().map(|k| (*l, *k))).collect();
            for (l, id) in all {
                if rng.chance(1, 3) {
                    ids.push(SsTableId::new(id));
                    if l == level { m.levels.get_mut(&l).unwrap().remove(&id); }
                }
            }
            if rng.chance(1, 4) { ids.push(SsTableId::new(999_999)); }
            let ok = ids.is_empty() || (level as usize) < *len;
            (VersionEdit::RemoveSsts { level, sst_ids: ids }, ok)
        }
        4 => {
            let mut segments: Vec<WalSegmentRef> = vec![];
            let mut seq = rng.range(0, 3);
            for _ in 0..rng.below(6) { segments.push(seg(rng, seq)); seq += 1 + rng.below(2) as u64 * rng.range(0, 2); }
            m.wal = segments.clone();
            rng.shuffle(&mut segments);
            (VersionEdit::SetWalSegments { segments }, true)
        }
        _ => {
            let watermark = rng.range(0, 50);
            m.mark = Some(watermark);
            (VersionEdit::SetTombstoneWatermark { watermark }, true)
        }
    }
}
fn trimmed(m: &Model) -> usize {
    m.levels.iter().filter(|(_, b)| !b.is_empty()).map(|(l, _)| *l as usize + 1).max().unwrap_or(0)
}

#[test]
fn edits_change_what_they_name() {
    cases("c15_edits", 1500, |rng, c: &mut Case| {
        let (mut m, mut next) = (Model::default(), 0);
        let mut v = VersionState::empty(TableId::from(Ulid::from(7u128)));
        v.set_commit_timestamp(Timestamp::new(4));
        for step in 0..1 + rng.below(5) {
            let before = v.clone();
            let before_m = m.clone();
            let mut len = trimmed(&m);
            let (mut edits, mut ok) = (vec![], true);
            for _ in 0..rng.below(5) {
                let (e, good) = edit(rng, &mut m, &mut next, &mut len);
                ok &= good;
                edits.push(e);
            }
            c.log(format!("apply {edits:?}"));
            let got = v.apply_edits(&edits);
            vp_ensure!(got.is_ok() == ok, "edit sequence answered {got:?}, expected success: {ok}");
            if !ok { v = before; m = before_m; continue; }
            if edits.len() > 1 { c.nontrivial(); }
            compare(&v, &m, &format!("step {step}"))?;
            vp_ensure!(v.commit_timestamp() == Timestamp::new(4), "edits changed the commit timestamp");
            vp_ensure!(v.table_id() == before.table_id(), "edits changed the table id");
        }
        Ok(())
    });
}

#[test]
fn outcome_swaps_tables_and_keeps_wal() {
    cases("c15_outcome", 2500, |rng, c| {
        let (mut m, mut next) = (Model::default(), 100);
        // a version
        let mut seq = rng.range(0, 3);
        for _ in 0..rng.below(6) {
            m.wal.push(seg(rng, seq));
            seq += 1 + if rng.chance(1, 6) { rng.range(1, 3) } else { 0 };
        }
        let files = files_of(&m);
        let mut setup = vec![VersionEdit::SetWalSegments { segments: m.wal.clone() }];
        for level in 0..1 + rng.below(3) as u32 {
            let mut entries = vec![];
            for _ in 0..rng.below(5) {
                next += 1;
                let id = next * 7919 % 1009;
                let e = gen_e(rng, id, &files);
                entries.push(entry(id, &e));
                m.levels.entry(level).or_default().insert(id, e);
            }
            setup.push(VersionEdit::AddSsts { level, entries });
        }
        let mut v = VersionState::empty(TableId::from(Ulid::from(7u128)));
        v.apply_edits(&setup).map_err(|e| e.to_string())?;
        compare(&v, &m, "version")?;
        // a task over some of its tables
        let mut input = vec![];
        for (l, b) in &m.levels {
            for id in b.keys() {
                if rng.chance(1, 2) { input.push(CompactionInput { level: *l as usize, sst_id: SsTableId::new(*id) }); }
            }
        }
        rng.shuffle(&mut input);
        let target = rng.below(4);
        let task = CompactionTask { source_level: 0, target_level: target, input: input.clone(), key_range: None };
        let inputs = resolve_inputs(&v, &task).map_err(|e| e.to_string())?;
        vp_ensure!(inputs.len() == input.len(), "{} inputs resolved to {} tables", input.len(), inputs.len());
        for (d, i) in inputs.iter().zip(&input) {
            let e = &m.levels[&(i.level as u32)][&i.sst_id.raw()];
            vp_ensure!(d.id() == &i.sst_id && d.level() == i.level, "input {i:?} resolved to {d:?}");
            vp_ensure!(d.data_path().map(|p| p.to_string()) == Some(e.data.clone()) && d.delete_path().map(|p| p.to_string()) == e.del, "input {i:?} resolved to paths of {d:?}");
            vp_ensure!(d.wal_ids().map(|w| w.to_vec()) == e.wal, "input {i:?} resolved to wal ids {:?}", d.wal_ids());
        }
        {
            let mut bad = task.clone();
            bad.input.push(CompactionInput { level: *rng.pick(&[0, 1, 2, 3, 9]), sst_id: SsTableId::new(5_000_000) });
            vp_ensure!(resolve_inputs(&v, &bad).is_err(), "a table that is not in the version was resolved");
        }
        // its outputs
        let mut outs = vec![];
        let mut outm = vec![];
        for _ in 0..rng.below(4) {
            next += 1;
            let id = 2000 + next * 31 % 997;
            let mut e = gen_e(rng, id, &files);
            if rng.chance(2, 3) && inputs.iter().all(|d| d.wal_ids().is_some()) {
                let mut u: Vec<FileId> = inputs.iter().flat_map(|d| d.wal_ids().unwrap().to_vec()).collect();
                u.sort();
                u.dedup();
                e.wal = Some(u);
            }
            let mut d = SsTableDescriptor::new(SsTableId::new(id), target).with_wal_ids(e.wal.clone()).with_storage_paths(Path::parse(&e.data).unwrap(), e.del.as_ref().map(|p| Path::parse(p).unwrap()));
            if let Some(t) = e.max_ts { d = d.with_stats(stats(Some(t))); }
            outs.push(d);
            outm.push((id, e));
        }
        if rng.chance(1, 12) {
            let mut bad = outs.clone();
            bad.push(SsTableDescriptor::new(SsTableId::new(8_000), target));
            vp_ensure!(CompactionOutcome::from_outputs(bad, inputs.clone(), target as u32, None).is_err(), "an output without a data path was accepted");
        }
        let mut out = CompactionOutcome::from_outputs(outs.clone(), inputs.clone(), target as u32, None).map_err(|e| e.to_string())?;
        if rng.chance(1, 2) {
            out.obsolete_sst_ids = inputs.iter().filter(|_| rng.chance(1, 2)).map(|d| d.id().clone()).collect();
            if rng.chance(1, 4) { out.obsolete_sst_ids.push(SsTableId::new(77_000)); }
        }
        let floor = rng.chance(2, 3).then(|| v.cloned_wal_floor()).flatten();
        let existing = v.wal_segments().to_vec();
        c.log(format!("wal {existing:?}"));
        c.log(format!("version {:?}", m.levels));
        c.log(format!("remove {:?} add {outm:?} at {target}", input));
        reconcile_wal_segments(&v, &mut out, &existing, floor.clone());
        // model of the swap
        let mut want = m.clone();
        for i in &input { want.levels.get_mut(&(i.level as u32)).unwrap().remove(&i.sst_id.raw()); }
        for (id, e) in &outm { want.levels.entry(target as u32).or_default().insert(*id, e.clone()); }
        let refs: Vec<&Option<Vec<FileId>>> = want.levels.values().flat_map(|b| b.values().map(|e| &e.wal)).collect();
        let unknown = refs.iter().any(|w| w.is_none());
        let needed: Vec<&WalSegmentRef> = existing.iter().filter(|s| unknown || refs.iter().any(|w| w.as_ref().is_some_and(|w| w.contains(s.file_id())))).collect();
        let Some(kept) = out.wal_segments.clone() else { return Err("no wal segments recorded".into()) };
        for s in &needed { vp_ensure!(kept.contains(s), "segment {s:?} is still referenced but not kept: {kept:?}"); }
        let mut it = existing.iter();
        for s in &kept { vp_ensure!(it.any(|x| x == s), "kept segments {kept:?} are not a sublist of {existing:?}"); }
        for s in &existing { vp_ensure!(kept.contains(s) != out.obsolete_wal_segments.contains(s), "segment {s:?} is kept and obsolete, or neither"); }
        vp_ensure!(out.obsolete_wal_segments.iter().all(|s| existing.contains(s)), "obsolete segments {:?} were not in the version", out.obsolete_wal_segments);
        if let Some(f) = &out.wal_floor { vp_ensure!(needed.iter().all(|s| s.seq() >= f.seq()), "floor {f:?} is past a needed segment {needed:?}"); }
        if !out.obsolete_wal_segments.is_empty() { c.nontrivial(); }
        // collection
        let plan = gc_plan_from_outcome(&out).map_err(|e| e.to_string())?;
        match plan {
            None => vp_ensure!(input.is_empty() && out.obsolete_wal_segments.is_empty(), "nothing to collect although {input:?} is obsolete"),
            Some(p) => {
                vp_ensure!(p.obsolete_wal_segments == out.obsolete_wal_segments, "gc plan wal {:?}", p.obsolete_wal_segments);
                vp_ensure!(p.obsolete_ssts.len() == input.len(), "gc plan tables {:?} for inputs {input:?}", p.obsolete_ssts);
                for (g, i) in p.obsolete_ssts.iter().zip(&input) {
                    let e = &m.levels[&(i.level as u32)][&i.sst_id.raw()];
                    vp_ensure!(g.id == i.sst_id && g.level as usize == i.level && g.data_path.to_string() == e.data && g.delete_path.as_ref().map(|p| p.to_string()) == e.del, "gc plan entry {g:?} for input {i:?}");
                }
            }
        }
        // publication
        let edits = out.to_version_edits();
        v.apply_edits(&edits).map_err(|e| format!("edits {edits:?} refused: {e}"))?;
        want.wal = kept;
        want.mark = outm.iter().filter_map(|(_, e)| e.max_ts).max();
        if !input.is_empty() { c.nontrivial(); }
        compare(&v, &want, "published")
    });
}
