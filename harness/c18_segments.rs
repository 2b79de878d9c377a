//@attach src/inmem/immutable/mod.rs
//! C18: no segment that could hold a matching key or a visible version is pruned.
use std::ops::Bound;

use super::*;
use crate::{
    mvcc::Timestamp,
    vp_ensure,
    vp_mem::{Kind, World, visible},
    vp_util::cases,
};

#[test]
fn c18_segments_by_time() {
    cases("c18_segments_by_time", 600, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 1 + rng.below(6));
        c.log(format!("{kind:?}"));
        let n = 2 + rng.below(14);
        w.history(c, rng, n)?;
        w.seal(c)?;
        let segs: Vec<&ImmutableSegment> = w.sealed.iter().map(|s| &s.0).collect();
        for ts in w.read_points(rng) {
            let kept = prune_segments(&segs, None, Timestamp::new(ts));
            vp_ensure!(kept.windows(2).all(|p| p[0] < p[1]) && kept.iter().all(|i| *i < segs.len()), "kept segments {kept:?} of {}", segs.len());
            for (i, (_, m)) in w.sealed.iter().enumerate() {
                if !visible(m, ts, &Bound::Unbounded, &Bound::Unbounded).is_empty() {
                    c.nontrivial();
                    vp_ensure!(kept.contains(&i), "segment {i} holds a version visible at {ts} and was pruned ({m:?})");
                }
            }
        }
        Ok(())
    });
}
