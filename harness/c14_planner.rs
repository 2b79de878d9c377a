//@attach src/compaction/planner.rs
//! C14: compaction plans are eligible, capped, duplicate-free and overlap-closed.
use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

struct F {
    id: u64,
    stats: Option<SsTableStats>,
}
fn mk(rng: &mut Rng, next_id: &mut u64, missing: bool) -> F {
    *next_id += 1;
    let (a, b) = (rng.range(0, 30) as i64, rng.range(0, 30) as i64);
    let (lo, hi) = (a.min(b), a.max(b));
    let stats = SsTableStats {
        rows: 1,
        bytes: rng.below(40),
        tombstones: 0,
        min_key: (!missing || rng.chance(4, 5)).then(|| KeyOwned::from(lo)),
        max_key: (!missing || rng.chance(4, 5)).then(|| KeyOwned::from(hi)),
        min_commit_ts: None,
        max_commit_ts: None,
    };
    F { id: *next_id, stats: (!missing || rng.chance(4, 5)).then_some(stats) }
}
fn range(f: &F) -> Option<(&KeyOwned, &KeyOwned)> {
    let s = f.stats.as_ref()?;
    Some((s.min_key.as_ref()?, s.max_key.as_ref()?))
}
fn bytes(fs: &[&F]) -> usize {
    fs.iter().map(|f| f.stats.as_ref().map(|s| s.bytes).unwrap_or(0)).sum()
}

fn check(c: &mut Case, levels: &[(usize, Vec<F>)], cfg: &LeveledPlannerConfig, min_level: usize, got: Option<CompactionTask>) -> Result<(), String> {
    let over = |l: usize, fs: &Vec<F>| -> bool {
        let all: Vec<&F> = fs.iter().collect();
        if l == 0 {
            fs.len() >= cfg.l0_trigger || cfg.l0_max_bytes.is_some_and(|b| bytes(&all) >= b)
        } else {
            match cfg.level_thresholds.get(l - 1) {
                None => false,
                Some(t) => fs.len() > *t || cfg.level_max_bytes.get(l - 1).copied().flatten().is_some_and(|b| bytes(&all) >= b),
            }
        }
    };
    // (level 0 is considered unless a minimum level was given)
    let want = levels.iter().filter(|(l, fs)| !fs.is_empty() && *l >= min_level && over(*l, fs)).map(|(l, _)| *l).min();
    let Some(task) = got else {
        vp_ensure!(want.is_none(), "no plan although level {want:?} is over its threshold");
        return Ok(());
    };
    c.nontrivial();
    c.log(format!("plan {task:?}"));
    vp_ensure!(want == Some(task.source_level), "planned level {} although the first level over its threshold is {want:?}", task.source_level);
    vp_ensure!(task.target_level == task.source_level + 1, "target level {} from source {}", task.target_level, task.source_level);
    let files = |l: usize| levels.iter().find(|(x, _)| *x == l).map(|(_, fs)| fs.as_slice()).unwrap_or(&[]);
    let (mut sel, mut pulled): (Vec<&F>, Vec<&F>) = (vec![], vec![]);
    for inp in &task.input {
        vp_ensure!(inp.level == task.source_level || inp.level == task.target_level, "input from level {}", inp.level);
        let Some(f) = files(inp.level).iter().find(|f| f.id == inp.sst_id.raw()) else {
            return Err(format!("planned table {:?} is not at level {}", inp.sst_id, inp.level));
        };
        let list = if inp.level == task.source_level { &mut sel } else { &mut pulled };
        vp_ensure!(!list.iter().any(|g| g.id == f.id), "table {} planned twice", f.id);
        list.push(f);
    }
    let cap = if task.source_level == 0 { cfg.l0_max_inputs } else { cfg.max_inputs_per_task };
    vp_ensure!(!sel.is_empty() && sel.len() <= cap.max(1), "{} source tables with a cap of {cap}", sel.len());
    if let Some(b) = cfg.max_task_bytes {
        vp_ensure!(sel.len() <= 1 || bytes(&sel) <= b, "{} source bytes with a cap of {b}", bytes(&sel));
    }
    if let Some((lo, hi)) = &task.key_range {
        for f in sel.iter().chain(pulled.iter()) {
            if let Some((a, b)) = range(f) {
                vp_ensure!(lo <= a && b <= hi, "table {} outside the planned key range", f.id);
            }
        }
    }
    if task.source_level > 0 && sel.iter().all(|f| range(f).is_some()) {
        for g in files(task.target_level) {
            let Some((ga, gb)) = range(g) else { continue };
            for f in &sel {
                let (fa, fb) = range(f).unwrap();
                vp_ensure!(!(ga <= fb && fa <= gb) || pulled.iter().any(|p| p.id == g.id), "table {} of level {} overlaps the selected table {} and is not in the plan", g.id, task.target_level, f.id);
            }
        }
    }
    Ok(())
}

#[test]
fn plans() {
    cases("c14::plans", 3000, |rng, c| {
        let missing = rng.chance(1, 3);
        let mut id = 0;
        let n_levels = rng.below(5);
        let mut levels: Vec<(usize, Vec<F>)> = vec![];
        for l in 0..n_levels {
            if rng.chance(1, 5) {
                continue;
            }
            let n = 1 + rng.below(if missing { 9 } else { 14 });
            levels.push((l, (0..n).map(|_| mk(rng, &mut id, missing)).collect()));
        }
        let opt = |rng: &mut Rng, n: usize| rng.chance(1, 2).then(|| rng.below(n));
        let cfg = LeveledPlannerConfig {
            l0_trigger: rng.below(16),
            l0_max_inputs: rng.below(12),
            l0_max_bytes: opt(rng, 400),
            level_thresholds: (0..rng.below(4)).map(|_| rng.below(14)).collect(),
            level_max_bytes: (0..rng.below(4)).map(|_| opt(rng, 400)).collect(),
            max_inputs_per_task: rng.below(12),
            max_task_bytes: opt(rng, 200),
        };
        let snap = CompactionSnapshot {
            levels: levels
                .iter()
                .map(|(l, fs)| LevelInfo::new(*l, fs.iter().map(|f| LevelFile::new(SsTableId::new(f.id), f.stats.clone())).collect()))
                .collect(),
        };
        c.log(format!("{cfg:?}"));
        c.log(format!("{snap:?}"));
        let planner = LeveledCompactionPlanner::new(cfg.clone());
        check(c, &levels, &cfg, 0, CompactionPlanner::plan(&planner, &snap))?;
        let kind = CompactionStrategy::Leveled(cfg.clone()).build();
        for m in 0..5 {
            c.log(format!("plan_with_min_level {m}"));
            check(c, &levels, &cfg, m, kind.plan_with_min_level(&snap, m))?;
        }
        Ok(())
    });
}
