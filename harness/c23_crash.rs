//@attach src/db/mod.rs
//! C23 on the whole crate: what a reopened database shows after a crash, at the end of an operation or inside its log write.
use std::{
    collections::BTreeMap,
    path::{Path as FsPath, PathBuf},
    sync::atomic::{AtomicU64, Ordering as AO},
};

use arrow_array::{Array, Int64Array};
use fusio::{disk::LocalFs, executor::tokio::TokioExecutor};

use super::*;
use crate::{
    inmem::policy::BatchesThreshold,
    vp_ensure,
    vp_mem::Kind,
    vp_util::{Case, Rng, cases},
    wal::WalSyncPolicy,
};

type Db = DB<LocalFs, TokioExecutor>;
type State = BTreeMap<usize, Option<i64>>;
type Image = BTreeMap<PathBuf, Vec<u8>>;

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vp-c23-{}-{}", std::process::id(), N.fetch_add(1, AO::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn read(&self) -> Image {
        fn walk(d: &FsPath, out: &mut Image) {
            for e in std::fs::read_dir(d).expect("read_dir").flatten() {
                let p = e.path();
                if p.is_dir() { walk(&p, out) } else { out.insert(p.clone(), std::fs::read(&p).unwrap_or_default()); }
            }
        }
        let mut out = Image::new();
        walk(&self.0, &mut out);
        out
    }
    fn write(&self, img: &Image) {
        std::fs::remove_dir_all(&self.0).expect("clear scratch");
        std::fs::create_dir_all(&self.0).expect("scratch directory");
        for (p, b) in img {
            std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
            std::fs::write(p, b).expect("scratch file");
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Clone, Debug)]
struct Cfg {
    kind: Kind,
    segment: usize,
    seal: usize,
    flush: Option<usize>,
    /// keep the log's state file
    state: bool,
    synced: bool,
}
async fn open(s: &Scratch, f: &Cfg) -> Result<Db, String> {
    let extractor = crate::extractor::projection_for_columns(f.kind.schema(), f.kind.key_cols()).map_err(|e| e.to_string())?;
    let config = DynModeConfig::new(f.kind.schema(), extractor).map_err(|e| e.to_string())?.with_commit_ack_mode(crate::transaction::CommitAckMode::Strict);
    let b = DB::<LocalFs, TokioExecutor>::builder(config).on_disk(s.0.to_string_lossy().into_owned()).map_err(|e| format!("{e:?}"))?;
    let w = WalConfig::default().segment_max_bytes(f.segment).sync_policy(if f.synced { WalSyncPolicy::Always } else { WalSyncPolicy::Disabled });
    let b = b.wal_config(if f.state { w } else { w.state_store(None) });
    let b = match f.flush { Some(n) => b.with_minor_compaction(n, 0), None => b.disable_minor_compaction() };
    let db = b.open_with_executor(Arc::new(TokioExecutor::default())).await.map_err(|e| format!("open: {e:?}"))?;
    let mut inner = db.into_inner();
    inner.set_seal_policy(Arc::new(BatchesThreshold { batches: f.seal }));
    Ok(DB::from_inner(Arc::new(inner)))
}
async fn shown(db: &Db, k: Kind) -> Result<State, String> {
    let batches = db.scan().collect().await.map_err(|e| format!("scan: {e:?}"))?;
    let mut out = State::new();
    for b in batches {
        let keys = k.extractor().project_view(&b, &(0..b.num_rows()).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        let v = b.column_by_name("v").and_then(|c| c.as_any().downcast_ref::<Int64Array>().cloned()).ok_or("no v column")?;
        for (i, key) in keys.iter().enumerate() {
            let r = k.rank(&key.to_owned())?;
            vp_ensure!(out.insert(r, (!v.is_null(i)).then(|| v.value(i))).is_none(), "key #{r} is shown twice");
        }
    }
    Ok(out)
}
/// one acknowledged operation, or one that must leave no trace
async fn step(db: &Db, f: &Cfg, st: &mut State, rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let k = f.kind;
    let n = k.n().min(8);
    let mut rows: BTreeMap<usize, Option<i64>> = BTreeMap::new();
    for _ in 0..rng.range(1, 3) {
        rows.insert(rng.below(n), rng.chance(4, 5).then(|| rng.range(0, 99) as i64));
    }
    let list: Vec<(usize, Option<i64>)> = rows.into_iter().collect();
    match rng.below(5) {
        0 => {
            c.log(format!("ingest {list:?}"));
            db.ingest(k.batch(&list)).await.map_err(|e| format!("ingest: {e:?}"))?;
            st.extend(list);
        }
        1 => {
            let tomb: Vec<bool> = list.iter().map(|_| rng.chance(1, 2)).collect();
            c.log(format!("ingest {list:?} with tombstones {tomb:?}"));
            db.ingest_with_tombstones(k.batch(&list), tomb.clone()).await.map_err(|e| format!("ingest: {e:?}"))?;
            for ((r, v), t) in list.iter().zip(tomb) {
                if t { st.remove(r); } else { st.insert(*r, *v); }
            }
        }
        x => {
            let mut tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            let mut next = st.clone();
            let mut what = String::new();
            for (r, v) in &list {
                if rng.chance(1, 3) {
                    tx.delete(k.key(*r)).map_err(|e| format!("{e:?}"))?;
                    next.remove(r);
                    what += &format!(" delete #{r}");
                } else {
                    tx.upsert(k.row(*r, *v)).map_err(|e| format!("{e:?}"))?;
                    next.insert(*r, *v);
                    what += &format!(" upsert #{r}={v:?}");
                }
            }
            if x == 4 && rng.chance(1, 2) {
                c.log(format!("transaction{what}, dropped"));
                drop(tx);
            } else {
                c.log(format!("transaction{what}, committed"));
                tx.commit().await.map_err(|e| format!("commit: {e:?}"))?;
                *st = next;
            }
        }
    }
    if rng.chance(1, 6) {
        c.log("prune the log");
        db.inner().prune_wal_segments_below_floor().await;
    }
    Ok(())
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime")
}
/// the log file an operation wrote, when it wrote exactly one and it existed or is new
fn written(before: &Image, after: &Image) -> Option<(PathBuf, usize, Vec<u8>)> {
    let mut it = after.iter().filter(|(p, b)| {
        let name = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        name.ends_with(".tonwal") && before.get(*p) != Some(*b)
    });
    let (p, b) = it.next()?;
    let old = before.get(p).map(|b| b.len()).unwrap_or(0);
    if it.next().is_some() || b.len() <= old || before.get(p).is_some_and(|o| o != &b[..old]) {
        return None;
    }
    Some((p.clone(), old, b.clone()))
}
fn run(rng: &mut Rng, c: &mut Case, flush: bool) -> Result<(), String> {
    let s = Scratch::new();
    let f = Cfg {
        kind: Kind::random(rng),
        segment: *rng.pick(&[300usize, 900, 1 << 20]),
        seal: *rng.pick(&[1usize, 2, 3, 1000]),
        state: rng.chance(1, 2),
        synced: true,
        flush: (flush && rng.chance(2, 3)).then(|| rng.range(1, 3) as usize),
    };
    c.log(format!("{f:?}"));
    let mut st = State::new();
    let mut prev = st.clone();
    for epoch in 0..rng.range(1, 4) {
        let r = rt();
        let mut before = Image::new();
        let res: Result<(), String> = r.block_on(async {
            let db = open(&s, &f).await?;
            let got = shown(&db, f.kind).await?;
            vp_ensure!(got == st || got == prev, "after reopening: {got:?}, acknowledged {st:?}");
            if got != st {
                c.log("the operation under way is not shown");
            }
            st = got;
            if epoch > 0 {
                c.nontrivial();
            }
            for _ in 0..rng.range(1, 6) {
                before = s.read();
                prev = st.clone();
                step(&db, &f, &mut st, rng, c).await?;
            }
            let got = shown(&db, f.kind).await?;
            vp_ensure!(got == st, "before the crash: {got:?}, acknowledged {st:?}");
            Ok(())
        });
        r.shutdown_background();
        res?;
        let after = s.read();
        let mut cut = false;
        if rng.chance(1, 2) && let Some((p, old, bytes)) = written(&before, &after) {
            let keep = rng.range(old as u64, bytes.len() as u64) as usize;
            c.log(format!("crash inside the log write of the last operation: {keep} of {old}..{} bytes", bytes.len()));
            before.insert(p, bytes[..keep].to_vec());
            s.write(&before);
            cut = true;
        } else {
            c.log("crash");
            s.write(&after);
        }
        if !cut {
            prev = st.clone();
        }
    }
    let r = rt();
    let res: Result<(), String> = r.block_on(async {
        let db = open(&s, &f).await?;
        let got = shown(&db, f.kind).await?;
        vp_ensure!(got == st || got == prev, "after reopening: {got:?}, acknowledged {st:?}");
        Ok(())
    });
    r.shutdown_background();
    res
}
#[test]
fn c23_log_only() {
    cases("c23_log_only", 40, |rng, c| run(rng, c, false));
}
#[test]
fn c23_with_flush() {
    cases("c23_with_flush", 40, |rng, c| run(rng, c, true));
}
/// without syncing, a crash may lose any end of the log; what is written afterwards must be shown, flushed versions or not
#[test]
fn c23_lost_tail() {
    cases("c23_lost_tail", 30, |rng, c| {
        let s = Scratch::new();
        let f = Cfg { kind: Kind::random(rng), segment: *rng.pick(&[900usize, 1 << 20]), seal: 1, flush: Some(1), state: rng.chance(1, 2), synced: false };
        c.log(format!("{f:?}"));
        let mut st = State::new();
        for epoch in 0..2 {
            let r = rt();
            let res: Result<(), String> = r.block_on(async {
                let db = open(&s, &f).await?;
                st = shown(&db, f.kind).await?;
                c.log(format!("shown after opening: {st:?}"));
                if epoch > 0 {
                    c.nontrivial();
                }
                for _ in 0..rng.range(1, 6) {
                    step(&db, &f, &mut st, rng, c).await?;
                    let got = shown(&db, f.kind).await?;
                    vp_ensure!(got == st, "shown after the operation: {got:?}, acknowledged {st:?}");
                }
                Ok(())
            });
            r.shutdown_background();
            res?;
            let mut img = s.read();
            let logs: Vec<PathBuf> = img.keys().filter(|p| p.extension().is_some_and(|e| e == "tonwal")).cloned().collect();
            let k = rng.below(logs.len().max(1));
            for (i, p) in logs.iter().enumerate() {
                if i > k {
                    img.remove(p);
                } else if i == k {
                    let n = img[p].len();
                    img.get_mut(p).unwrap().truncate(rng.below(n + 1));
                    c.log(format!("crash: of {} log files {} are left, the last with {} of {n} bytes", logs.len(), k + 1, img[p].len()));
                }
            }
            s.write(&img);
        }
        Ok(())
    });
}
