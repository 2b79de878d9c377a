//@attach src/wal/writer.rs
//! C04: the size budget only ever removes sealed segments, oldest first, never the active one, and stops once within the budget.
use super::vp_writer::{Driver, config};
use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, cases},
    vp_wal::{MemFs, VpExec, command, segments_in},
};

struct Watch { known: Vec<(u64, usize)>, gone: usize }
/// compare the directory with what was there before: only a prefix of the segments may be gone
fn look(fs: &MemFs, w: &mut Watch, limit: usize, c: &mut Case) -> Result<(), String> {
    let now: Vec<(u64, usize)> = segments_in(fs, "w").iter().map(|(n, b)| (*n, b.len())).collect();
    for (n, b) in &now {
        match w.known.iter_mut().find(|k| k.0 == *n) {
            Some(k) => vp_ensure!(*b >= k.1, "segment {n} shrank from {} to {b} bytes", k.1),
            None => w.known.push((*n, *b)),
        }
    }
    // a segment may have grown and gone between two looks
    for k in w.known.iter_mut() {
        let name = crate::vp_wal::seg_name("w", k.0);
        k.1 = fs.0.lock().unwrap().writes.iter().filter(|x| x.0 == name).map(|x| x.1).sum();
    }
    let gone: Vec<(u64, usize)> = w.known.iter().filter(|k| !now.iter().any(|n| n.0 == k.0)).cloned().collect();
    vp_ensure!(gone.len() == w.known.len() - now.len() && gone[..] == w.known[..gone.len()], "segments {gone:?} were removed while older ones remain: {now:?}");
    vp_ensure!(!now.is_empty(), "the active segment was removed");
    if gone.len() > w.gone {
        c.nontrivial();
        // before the last removal the total was above the budget; bytes written since are only on kept segments,
        // so the check is sound only against the total right now
        let total: usize = now.iter().map(|n| n.1).sum();
        let last = gone.last().unwrap().1;
        vp_ensure!(total + last > limit, "segment {} of {last} bytes was removed although {total} + {last} bytes fit the budget of {limit}", gone.last().unwrap().0);
        w.gone = gone.len();
    }
    Ok(())
}

#[test]
fn retention_removes_oldest_sealed_only() {
    cases("c04_retention", 300, |rng, c| {
        let fs = MemFs::default();
        let mut cfg = config(&fs, "w");
        cfg.segment_max_bytes = *rng.pick(&[1, 600, 1500]);
        let limit = *rng.pick(&[0, 1, 700, 2500, 6000, 1 << 20]);
        cfg.retention_bytes = rng.chance(9, 10).then_some(limit);
        if rng.chance(1, 2) { cfg.state_store = Some(Arc::new(fs.clone())); }
        c.log(format!("rotate at {} budget {:?}", cfg.segment_max_bytes, cfg.retention_bytes));
        let mut w = Watch { known: vec![], gone: 0 };
        let exec = VpExec::new();
        let mut id = 0;
        for _ in 0..1 + rng.below(3) {
            let mut d = Driver::start(&exec, &cfg);
            vp_ensure!(d.finished().is_none(), "the writer did not start: {:?}", d.finished());
            look(&fs, &mut w, limit, c)?;
            for _ in 0..rng.below(7) {
                id += 1;
                let cmd = command(rng, id);
                c.log(format!("append {id}"));
                let a = d.send(cmd);
                d.run();
                vp_ensure!(matches!(*a.borrow(), Some(Ok(Ok(_)))), "append failed: {:?}", d.finished());
                look(&fs, &mut w, limit, c)?;
                vp_ensure!(cfg.retention_bytes.is_some() || w.gone == 0, "segments were removed without a budget");
                if rng.chance(1, 6) { d.rotate(); d.run(); look(&fs, &mut w, limit, c)?; }
            }
            let total: usize = segments_in(&fs, "w").iter().map(|s| s.1.len()).sum();
            let sealed = segments_in(&fs, "w").len() - 1;
            let active = segments_in(&fs, "w").last().unwrap().1.len();
            // right after a rotation (active segment empty) the budget has just been applied
            if cfg.retention_bytes.is_some() && active == 0 { vp_ensure!(total <= limit || sealed == 0, "{total} bytes retained in {sealed} sealed segments, budget {limit}"); }
            if rng.chance(1, 2) { drop(d) } else { d.shutdown().map_err(|e| e.to_string())?; }
        }
        Ok(())
    });
}
