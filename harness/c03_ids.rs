//@attach src/wal/mod.rs
//! C03: no two submissions get one provisional id, however many threads ask.
use fusio::executor::NoopExecutor;

use super::*;
use crate::{vp_ensure, vp_util::cases};

#[test]
fn provisional_ids() {
    cases("c03::provisional_ids", 10, |rng, c| {
        let (tx, _rx) = mpsc::channel(1);
        let start = *rng.pick(&[0u64, 1, 1 << 40]);
        let h: WalHandle<NoopExecutor> =
            WalHandle::from_parts(tx, Arc::new(AtomicUsize::new(0)), NoopExecutor.spawn(async { Ok(()) }), start, Arc::new(NoopExecutor::rw_lock(WalMetrics::default())));
        let n = 2 + rng.below(3);
        c.log(format!("start {start}, {n} threads"));
        c.nontrivial();
        let mut ids: Vec<u64> = std::thread::scope(|s| {
            let ts: Vec<_> = (0..n)
                .map(|_| {
                    let h = h.clone();
                    s.spawn(move || (0..5000).map(|_| h.next_provisional_id()).collect::<Vec<_>>())
                })
                .collect();
            ts.into_iter().flat_map(|t| t.join().unwrap()).collect()
        });
        ids.sort_unstable();
        vp_ensure!(ids.first().is_some_and(|i| *i >= start), "an id below the first free one");
        vp_ensure!(ids.windows(2).all(|w| w[0] < w[1]), "an id was handed out twice: {:?}", ids.windows(2).find(|w| w[0] == w[1]));
        Ok(())
    });
}
