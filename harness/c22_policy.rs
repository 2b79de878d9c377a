//@attach src/inmem/policy.rs
//! C22: sealing policies fire exactly at their thresholds.
use super::*;
use crate::{vp_ensure, vp_util::cases};

#[test]
fn thresholds() {
    cases("c22::thresholds", 2000, |rng, c| {
        let near = |rng: &mut crate::vp_util::Rng, x: usize| match rng.below(4) {
            0 => x.saturating_sub(1),
            1 => x,
            2 => x + 1,
            _ => rng.below(2 * x + 2),
        };
        let lim = rng.below(200);
        let rows = near(rng, lim);
        let batches = near(rng, lim);
        let (entries, overhead) = (rng.below(20), rng.below(20));
        let key_bytes = near(rng, lim).saturating_sub(if rng.chance(1, 2) { entries * overhead } else { 0 });
        let ms = near(rng, lim) as u64;
        let since = match rng.below(4) {
            0 => None,
            1 => Some(Duration::from_millis(ms) + Duration::from_nanos(rng.range(0, 2))),
            2 => Some(Duration::from_millis(ms)),
            _ => Some(Duration::from_millis(ms).saturating_sub(Duration::from_nanos(1))),
        };
        let stats = MemStats {
            entries,
            inserts: rng.next(),
            replaces: rng.next(),
            approx_key_bytes: key_bytes,
            entry_overhead: overhead,
            typed_open_rows: rng.chance(3, 4).then_some(rows),
            dyn_batches: rng.chance(3, 4).then_some(batches),
            dyn_approx_batch_bytes: rng.chance(1, 2).then_some(rng.below(1000)),
            since_last_seal: since,
        };
        c.log(format!("limit {lim} stats {stats:?}"));
        c.nontrivial();
        let bytes = key_bytes + entries * overhead;
        let want = [
            (bytes >= lim).then_some(SealReason::ApproxBytesReached { approx: bytes, limit: lim }),
            stats.typed_open_rows.filter(|r| *r >= lim).map(|count| SealReason::OpenRowsReached { count, limit: lim }),
            stats.dyn_batches.filter(|r| *r >= lim).map(|count| SealReason::BatchesReached { count, limit: lim }),
            since
                .filter(|d| *d >= Duration::from_millis(lim as u64))
                .map(|elapsed| SealReason::TimeElapsed { elapsed, limit: Duration::from_millis(lim as u64) }),
            None,
        ];
        let pols: Vec<Arc<dyn SealPolicy + Send + Sync>> = vec![
            Arc::new(BytesThreshold { limit: lim }),
            Arc::new(OpenRowsThreshold { rows: lim }),
            Arc::new(BatchesThreshold { batches: lim }),
            Arc::new(TimeElapsedPolicy { min_interval: Duration::from_millis(lim as u64) }),
            Arc::new(NeverSeal),
        ];
        let dec = |w: &Option<SealReason>| match w {
            Some(r) => SealDecision::Seal(r.clone()),
            None => SealDecision::NoOp,
        };
        for (p, w) in pols.iter().zip(&want) {
            let got = p.evaluate(&stats);
            vp_ensure!(got == dec(w), "policy gave {got:?}, expected {w:?}");
        }
        let mut order: Vec<usize> = (0..5).collect();
        rng.shuffle(&mut order);
        order.truncate(rng.below(6));
        let any = AnyOf::new(order.iter().map(|i| pols[*i].clone()).collect());
        let fired = order.iter().any(|i| want[*i].is_some());
        let got = any.evaluate(&stats);
        vp_ensure!(matches!(got, SealDecision::Seal(_)) == fired, "AnyOf over {order:?} gave {got:?}");
        if let SealDecision::Seal(r) = got {
            vp_ensure!(order.iter().any(|i| want[*i].as_ref() == Some(&r)), "AnyOf over {order:?} gave a reason no policy gave: {r:?}");
        }
        Ok(())
    });
}
