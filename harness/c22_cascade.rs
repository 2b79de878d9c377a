//@attach src/compaction/driver.rs
//! C22: follow-up compactions are admitted within budget and cooldown.
use super::*;
use crate::{vp_ensure, vp_util::cases};

#[test]
fn cascade_budget() {
    cases("c22::cascade_budget", 1500, |rng, c| {
        let base = Instant::now();
        let max = rng.below(5);
        let cd = rng.range(0, 20);
        let mut ctl = CascadeControl::new(max, Duration::from_millis(cd));
        let (mut left, mut last, mut now) = (max, None::<u64>, 0u64);
        c.log(format!("max {max} cooldown {cd}"));
        for _ in 0..rng.below(40) {
            if rng.chance(1, 7) {
                ctl.reset_budget();
                left = max;
                c.log("reset");
                continue;
            }
            now += match rng.below(5) {
                0 => 0,
                1 => cd,
                2 => cd.saturating_sub(1),
                3 => cd + 1,
                _ => rng.range(0, 10),
            };
            let cooling = last.is_some_and(|l| now - l < cd);
            let got = ctl.try_acquire(base + Duration::from_millis(now));
            c.log(format!("at {now}: {got:?}"));
            let ok = match got {
                CascadeDecision::Allowed => left > 0 && !cooling,
                CascadeDecision::BudgetExhausted => left == 0,
                CascadeDecision::CooldownActive => left > 0 && cooling,
            };
            vp_ensure!(ok, "at {now} ms: {got:?} with {left} left, last admission {last:?}, cooldown {cd}");
            if let CascadeDecision::Allowed = got {
                left -= 1;
                last = Some(now);
                c.nontrivial();
            }
        }
        Ok(())
    });
}
