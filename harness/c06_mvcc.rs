//@attach src/inmem/mutable/memtable.rs
//! C06: snapshot reads of the mutable buffer and of sealed segments.
use std::ops::Bound;

use crate::{
    vp_mem::{Kind, World, read_imm, read_mem, scan_imm, scan_mem, visible},
    vp_util::cases,
};

#[test]
fn c06_histories() {
    cases("c06_histories", 1500, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 2 + rng.below(12));
        c.log(format!("{kind:?}"));
        let n = 1 + rng.below(14);
        w.history(c, rng, n)?;
        let points = w.read_points(rng);
        let sealed: Vec<_> = std::mem::take(&mut w.sealed).into_iter().map(|(s, m)| (std::sync::Arc::new(s), m)).collect();
        for ts in points {
            c.log(format!("read at {ts}"));
            let want = visible(&w.live, ts, &Bound::Unbounded, &Bound::Unbounded);
            if want.len() > 1 {
                c.nontrivial();
            }
            scan_mem(kind, &w.mem, ts, None, &want).map_err(|e| format!("mutable scan at {ts}: {e}"))?;
            read_mem(kind, &w.mem, ts, None, &want).map_err(|e| format!("reader's mutable scan at {ts}: {e}"))?;
            for (seg, m) in &sealed {
                let want = visible(m, ts, &Bound::Unbounded, &Bound::Unbounded);
                scan_imm(kind, seg, ts, None, &want).map_err(|e| format!("sealed scan at {ts}: {e}"))?;
                read_imm(kind, seg, ts, None, &want).map_err(|e| format!("reader's sealed scan at {ts}: {e}"))?;
            }
        }
        Ok(())
    });
}
