//@attach src/compaction/executor.rs
//! C15: every output table has a number of its own, however many compactions run.
use super::*;
use crate::{
    vp_ensure,
    vp_mem::Kind,
    vp_util::cases,
};

#[test]
fn table_ids() {
    cases("c15::table_ids", 10, |rng, c| {
        let start = *rng.pick(&[0u64, 1, 1 << 40]);
        let next = Arc::new(AtomicU64::new(start));
        let n = 2 + rng.below(3);
        let xs: Vec<LocalCompactionExecutor> = (0..n).map(|_| LocalCompactionExecutor::with_id_allocator(crate::vp_sst::config(Kind::Int, 1 << 20), next.clone())).collect();
        c.log(format!("start {start}, {n} threads"));
        c.nontrivial();
        let mut ids: Vec<u64> = std::thread::scope(|s| {
            let ts: Vec<_> = xs
                .iter()
                .map(|x| {
                    s.spawn(move || {
                        (0..5000)
                            .map(|i| {
                                let d = x.alloc_descriptor(i % 3);
                                assert!(d.level() == i % 3, "table of level {} at level {}", i % 3, d.level());
                                d.id().raw()
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            ts.into_iter().flat_map(|t| t.join().unwrap()).collect()
        });
        ids.sort_unstable();
        vp_ensure!(ids.first().is_some_and(|i| *i >= start), "a number below the first free one");
        vp_ensure!(ids.windows(2).all(|w| w[0] < w[1]), "a number was handed out twice: {:?}", ids.windows(2).find(|w| w[0] == w[1]));
        Ok(())
    });
}
