//@attach src/mvcc/mod.rs
//! C17: commit clock against a sequential model, and under real threads.
use std::sync::{
    Arc, Mutex,
    atomic::{AtomicU64 as A, Ordering as O},
};

use super::*;
use crate::{vp_ensure, vp_util::cases};

#[test]
fn sequential_model() {
    cases("c17::sequential_model", 400, |rng, c| {
        let start = rng.u64ish().min(u64::MAX - (1 << 40));
        let clock = CommitClock::new(Timestamp::new(start));
        let mut next = start;
        let n = rng.below(30);
        for _ in 0..n {
            match rng.below(4) {
                0 | 1 => {
                    let t = clock.alloc().get();
                    c.log(format!("alloc -> {t}"));
                    vp_ensure!(t == next, "alloc gave {t}, expected {next}");
                    next += 1;
                }
                2 => {
                    let cand = match rng.below(4) {
                        0 => next,
                        1 => next + 1,
                        2 => next.saturating_sub(rng.range(1, 5)),
                        _ => rng.u64ish().min(u64::MAX - (1 << 40)),
                    };
                    clock.advance_to_at_least(Timestamp::new(cand));
                    c.log(format!("advance {cand}"));
                    next = next.max(cand);
                    c.nontrivial();
                }
                _ => {
                    let p = clock.peek().get();
                    vp_ensure!(p == next, "peek gave {p}, expected {next}");
                }
            }
        }
        let t = Timestamp::new(rng.u64ish());
        let d = rng.u64ish();
        vp_ensure!(t.saturating_add(d).get() == t.get().saturating_add(d), "saturating_add {t:?} {d}");
        vp_ensure!(t.saturating_sub(d).get() == t.get().saturating_sub(d), "saturating_sub {t:?} {d}");
        vp_ensure!(t.next().get() == t.get().saturating_add(1), "next {t:?}");
        vp_ensure!(ReadView::new(t).read_ts() == t, "read view");
        let u = Timestamp::new(rng.u64ish());
        vp_ensure!(t.cmp(&u) == t.get().cmp(&u.get()), "order of {t:?} and {u:?}");
        Ok(())
    });
}

#[test]
fn concurrent_callers() {
    cases("c17::concurrent_callers", 30, |rng, c| {
        let clock = Arc::new(CommitClock::new(Timestamp::new(rng.range(0, 5))));
        let threads = 2 + rng.below(4);
        let seen = Arc::new(Mutex::new(Vec::new()));
        let floor = Arc::new(A::new(0));
        let handed = Arc::new(A::new(0)); // one more than the largest handed out and published
        let err = Arc::new(Mutex::new(None::<String>));
        c.log(format!("{threads} threads"));
        c.nontrivial();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (clock, seen, floor, handed, err) = (clock.clone(), seen.clone(), floor.clone(), handed.clone(), err.clone());
                let mut rng = crate::vp_util::Rng::new(rng.next() ^ t as u64);
                s.spawn(move || {
                    let mut mine = Vec::new();
                    let fail = |m: String| {
                        err.lock().unwrap().get_or_insert(m);
                    };
                    for _ in 0..400 {
                        let f = floor.load(O::SeqCst);
                        let h = handed.load(O::SeqCst);
                        match rng.below(8) {
                            0 => {
                                let cand = clock.peek().get() + rng.range(0, 3);
                                clock.advance_to_at_least(Timestamp::new(cand));
                                floor.fetch_max(cand, O::SeqCst);
                            }
                            1 => {
                                let p = clock.peek().get();
                                if p < h || p < f {
                                    fail(format!("peek {p} below handed-out {h} or floor {f}"));
                                }
                            }
                            _ => {
                                let a = clock.alloc().get();
                                if a < f {
                                    fail(format!("allocated {a} below requested floor {f}"));
                                }
                                if a < h {
                                    fail(format!("allocated {a} although {} had been handed out", h - 1));
                                }
                                if mine.last().is_some_and(|l| *l >= a) {
                                    fail(format!("allocated {a} after {:?}", mine.last()));
                                }
                                handed.fetch_max(a + 1, O::SeqCst);
                                mine.push(a);
                            }
                        }
                    }
                    seen.lock().unwrap().extend(mine);
                });
            }
        });
        if let Some(e) = err.lock().unwrap().take() {
            return Err(e);
        }
        let mut v = seen.lock().unwrap().clone();
        let n = v.len();
        v.sort();
        v.dedup();
        vp_ensure!(v.len() == n, "{} timestamps were handed out twice", n - v.len());
        Ok(())
    });
}
