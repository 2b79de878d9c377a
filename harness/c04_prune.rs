//@attach src/wal/manifest_ext.rs
//! C04: pruning removes exactly the segments strictly below the floor; the references collected for the manifest keep what recovery needs.
use super::*;
use crate::{
    vp_ensure,
    vp_util::{block_on, cases},
    vp_wal::{MemFs, gen_log, put_log, seg_name},
};

fn cfg(fs: &MemFs) -> WalConfig {
    WalConfig { dir: fusio::path::Path::parse("w").unwrap(), segment_backend: Arc::new(fs.clone()), state_store: None, ..WalConfig::default() }
}

#[test]
fn prune_removes_exactly_below_the_floor() {
    cases("c04_prune", 800, |rng, c| {
        let n = rng.below(6);
        let log = gen_log(rng, n, 3);
        let fs = MemFs::default();
        fs.0.lock().unwrap().reverse = rng.chance(1, 2);
        put_log(&fs, "w", &log);
        fs.put("w/state.json", vec![1]);
        fs.put("w/wal-00000000000000000000.tmp", vec![2]);
        fs.put("x/wal-00000000000000000000.tonwal", vec![3]);
        let floor = match rng.below(4) { 0 => 0, 1 => rng.range(0, 200), _ => log.get(rng.below(n.max(1))).map(|s| s.seq + rng.below(2) as u64).unwrap_or(3) };
        let mut cfg = cfg(&fs);
        cfg.prune_dry_run = rng.chance(1, 3);
        c.log(format!("segments {:?} floor {floor} dry run {}", log.iter().map(|s| (s.seq, s.bytes.len())).collect::<Vec<_>>(), cfg.prune_dry_run));
        let before = fs.files();
        let below: Vec<String> = log.iter().filter(|s| s.seq < floor).map(|s| seg_name("w", s.seq)).collect();
        if !below.is_empty() { c.nontrivial(); }
        let fault = rng.chance(1, 4);
        if fault { fs.fail_after(rng.below(12) as u64, 0); }
        let r = block_on(prune_wal_segments(&cfg, &WalSegmentRef::new(floor, wal_segment_file_id(floor), 1, 2)));
        let after = fs.files();
        for (k, v) in &before {
            if cfg.prune_dry_run || !below.contains(k) {
                vp_ensure!(after.get(k) == Some(v), "{k} was {} although it is not below the floor {floor} (or this is a dry run)", if after.contains_key(k) { "changed" } else { "removed" });
            } else if let Some(d) = after.get(k) {
                vp_ensure!(d == v, "{k} was changed");
                vp_ensure!(fs.has_failed(), "{k} is below the floor {floor} and was kept");
            }
        }
        vp_ensure!(after.len() <= before.len(), "pruning created files");
        match r {
            Ok(k) => {
                vp_ensure!(!fs.has_failed(), "a storage failure was not reported");
                vp_ensure!(k == below.len(), "{k} segments reported, {} are below the floor", below.len());
            }
            Err(e) => vp_ensure!(fs.has_failed(), "pruning failed: {e}"),
        }
        Ok(())
    });
}

#[test]
fn references_keep_what_recovery_needs() {
    cases("c04_refs", 800, |rng, c| {
        let n = rng.below(6);
        let log = gen_log(rng, n, 3);
        let fs = MemFs::default();
        fs.0.lock().unwrap().reverse = rng.chance(1, 2);
        put_log(&fs, "w", &log);
        let cutoff = rng.chance(2, 3).then(|| if n > 0 && rng.chance(3, 4) { log[rng.below(n)].seq } else { rng.range(0, 9) });
        let max = log.iter().flat_map(|s| s.recs.iter().map(|r| r.seq)).max().unwrap_or(3);
        let live = rng.chance(1, 2).then(|| rng.range(0, max + 2));
        c.log(format!("segments {:?} persisted up to segment {cutoff:?} live frames from {live:?}", log.iter().map(|s| (s.seq, s.recs.iter().map(|r| r.seq).collect::<Vec<_>>())).collect::<Vec<_>>()));
        let floor = cutoff.map(|f| WalSegmentRef::new(f, wal_segment_file_id(f), 1, 2));
        let before = fs.files();
        let refs = block_on(collect_wal_segment_refs(&cfg(&fs), floor.as_ref(), live)).map_err(|e| e.to_string())?;
        let want: Vec<(u64, u64, u64)> = log.iter().filter(|s| !s.recs.is_empty()).filter_map(|s| {
            let (f, l) = (s.recs[0].seq, s.recs.last().unwrap().seq);
            (live.is_some_and(|v| l >= v) || cutoff.is_none_or(|k| s.seq > k)).then_some((s.seq, f, l))
        }).collect();
        let got: Vec<(u64, u64, u64)> = refs.iter().map(|r| (r.seq(), r.first_frame(), r.last_frame())).collect();
        if !got.is_empty() { c.nontrivial(); }
        vp_ensure!(got == want, "collected (segment, first, last frame) {got:?}, needed {want:?}");
        for r in &refs { vp_ensure!(*r.file_id() == wal_segment_file_id(r.seq()), "segment {} carries another segment's file id", r.seq()); }
        vp_ensure!(fs.files() == before, "collecting references changed files");
        // pruning below the first reference keeps every needed frame
        if let Some(first) = refs.first() {
            block_on(prune_wal_segments(&cfg(&fs), first)).map_err(|e| e.to_string())?;
            for (s, ..) in &want { vp_ensure!(fs.files().contains_key(&seg_name("w", *s)), "segment {s} is needed and was pruned"); }
        }
        Ok(())
    });
}
