//@attach src/inmem/mutable/memtable.rs
//! C09: the conflict check.
use super::*;
use crate::{
    vp_ensure,
    vp_mem::{Kind, World},
    vp_util::cases,
};

#[test]
fn c09_conflicts() {
    cases("c09_conflicts", 1500, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 3 + rng.below(20));
        c.log(format!("{kind:?}"));
        let n = 1 + rng.below(14);
        w.history(c, rng, n)?;
        for ts in w.read_points(rng) {
            for r in 0..kind.n() {
                let key = kind.key(r);
                let want = w.live.keys().any(|k| k.0 == r && k.1.0 > ts);
                if want {
                    c.nontrivial();
                }
                vp_ensure!(w.mem.has_conflict(&key, Timestamp::new(ts)) == want, "buffer: key {r} after {ts}: conflict should be {want}");
                for (seg, m) in &w.sealed {
                    let want = m.keys().any(|k| k.0 == r && k.1.0 > ts);
                    vp_ensure!(seg.has_conflict(&key, Timestamp::new(ts)) == want, "segment: key {r} after {ts}: conflict should be {want}");
                }
            }
        }
        Ok(())
    });
}
