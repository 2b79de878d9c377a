//@attach src/compaction/scheduler.rs
//! C22: the queue takes no more jobs than its capacity, a round starts no more than its budget, oldest first, and ends after them.
use std::{cell::RefCell, collections::VecDeque, rc::Rc, task::Poll};

use super::*;
use crate::{
    compaction::planner::CompactionInput,
    ondisk::sstable::SsTableId,
    vp_ensure,
    vp_util::{block_on, cases},
};

fn task(id: u64) -> CompactionTask {
    CompactionTask { source_level: id as usize % 3, target_level: id as usize % 3 + 1, input: vec![CompactionInput { level: id as usize % 3, sst_id: SsTableId::new(id) }], key_range: None }
}

#[test]
fn queue_and_budget() {
    cases("c22::queue_and_budget", 600, |rng, c| {
        let (cap, budget) = (rng.below(6), rng.below(6));
        c.log(format!("capacity {cap} budget {budget}"));
        let (s, rx) = CompactionScheduler::new(cap, budget);
        let mut rx = Some(rx);
        let (cap, budget) = (cap.max(1), budget.max(1));
        let mut model: VecDeque<(u64, Option<Timestamp>, String, u64)> = VecDeque::new();
        let mut leases = std::collections::BTreeSet::new();
        let mut next = 0u64;
        for _ in 0..rng.below(40) {
            match rng.below(12) {
                0 if rng.chance(1, 3) => {
                    rx = None;
                    model.clear();
                    c.log("receiver dropped");
                }
                1..=3 if rx.is_some() => {
                    let started: Rc<RefCell<Vec<ScheduledCompaction>>> = Rc::default();
                    let done: Rc<RefCell<Vec<u64>>> = Rc::default();
                    let pauses: Vec<usize> = (0..budget).map(|_| rng.below(4)).collect();
                    let r = block_on(s.drain_with_budget(rx.as_mut().unwrap(), |job| {
                        let mut left = pauses[started.borrow().len() % budget];
                        let id = job.task.input[0].sst_id.raw();
                        started.borrow_mut().push(job);
                        let done = done.clone();
                        async move {
                            futures::future::poll_fn(|cx| {
                                if left == 0 { return Poll::Ready(()) }
                                left -= 1;
                                cx.waker().wake_by_ref();
                                Poll::Pending
                            })
                            .await;
                            done.borrow_mut().push(id);
                        }
                    }));
                    let got = started.borrow();
                    c.log(format!("round: started {:?}", got.iter().map(|j| j.task.input[0].sst_id.raw()).collect::<Vec<_>>()));
                    vp_ensure!(r.is_ok(), "round failed: {r:?}");
                    let n = budget.min(model.len());
                    vp_ensure!(got.len() == n, "{} jobs started with {} queued and a budget of {budget}", got.len(), model.len());
                    for j in got.iter() {
                        let (id, head, owner, ttl) = model.pop_front().unwrap();
                        vp_ensure!(j.task == task(id), "job {id} was due, {:?} started", j.task);
                        vp_ensure!(j.manifest_head == head && j.lease.owner == owner && j.lease.ttl_ms == ttl, "job {id} changed in the queue: {j:?}");
                        vp_ensure!(leases.insert(j.lease.id), "two jobs share a lease");
                    }
                    let mut d = done.borrow().clone();
                    d.sort_unstable();
                    let mut w: Vec<u64> = got.iter().map(|j| j.task.input[0].sst_id.raw()).collect();
                    w.sort_unstable();
                    vp_ensure!(d == w, "the round ended with {d:?} done of {w:?} started");
                    if n > 0 { c.nontrivial() }
                }
                _ => {
                    let head = rng.chance(1, 2).then(|| Timestamp::new(rng.u64ish()));
                    let (owner, ttl) = (format!("o{}", rng.below(3)), rng.u64ish());
                    let r = block_on(s.enqueue(task(next), head, owner.clone(), ttl));
                    c.log(format!("enqueue {next}: {r:?}"));
                    let want = if rx.is_none() {
                        matches!(r, Err(CompactionScheduleError::Closed))
                    } else if model.len() >= cap {
                        matches!(r, Err(CompactionScheduleError::Full))
                    } else {
                        model.push_back((next, head, owner, ttl));
                        r.is_ok()
                    };
                    vp_ensure!(want, "enqueue of {next}: {r:?} with {} of {cap} queued", model.len());
                    next += 1;
                }
            }
        }
        Ok(())
    });
}
