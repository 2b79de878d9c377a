//@attach src/inmem/mutable/memtable.rs
//! C08: range scans of the mutable buffer and of sealed segments.
use crate::{
    vp_mem::{Kind, World, bounds, read_imm, read_mem, scan_imm, scan_mem, visible},
    vp_util::cases,
};

#[test]
fn c08_ranges() {
    cases("c08_ranges", 1200, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 3 + rng.below(20));
        c.log(format!("{kind:?}"));
        let n = 1 + rng.below(14);
        w.history(c, rng, n)?;
        let points = w.read_points(rng);
        let sealed: Vec<_> = std::mem::take(&mut w.sealed).into_iter().map(|(s, m)| (std::sync::Arc::new(s), m)).collect();
        for ts in points {
            for _ in 0..6 {
                let (lo, hi) = bounds(rng, kind.n());
                c.log(format!("range {lo:?} {hi:?} at {ts}"));
                let want = visible(&w.live, ts, &lo, &hi);
                if !want.is_empty() {
                    c.nontrivial();
                }
                scan_mem(kind, &w.mem, ts, Some((&lo, &hi)), &want).map_err(|e| format!("mutable range {lo:?} {hi:?} at {ts}: {e}"))?;
                read_mem(kind, &w.mem, ts, Some((&lo, &hi)), &want).map_err(|e| format!("reader's mutable range {lo:?} {hi:?} at {ts}: {e}"))?;
                for (seg, m) in &sealed {
                    let want = visible(m, ts, &lo, &hi);
                    scan_imm(kind, seg, ts, Some((&lo, &hi)), &want).map_err(|e| format!("sealed range {lo:?} {hi:?} at {ts}: {e}"))?;
                    read_imm(kind, seg, ts, Some((&lo, &hi)), &want).map_err(|e| format!("reader's sealed range {lo:?} {hi:?} at {ts}: {e}"))?;
                }
            }
        }
        Ok(())
    });
}
