//@attach src/manifest/driver.rs
//! C16: manifest updates are atomic, ordered and never overwrite a concurrent commit.
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::Arc, sync::Mutex};

use fusio::{dynamic::MaybeSendFuture, fs::{CasCondition, FsCas}, mem::fs::InMemoryFs, path::Path};
use fusio_manifest::{
    BackoffPolicy, CheckpointStoreImpl, DefaultExecutor, HeadStoreImpl, LeaseStoreImpl, ManifestContext, SegmentStoreImpl,
};
use ulid::Ulid;

use super::{super::domain::SstEntry, *};
use crate::{
    ondisk::sstable::{SsTableId, SsTableStats},
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

/// Storage of the head that hands control to the other publishers a random number of times before each look at it.
#[derive(Clone)]
struct YieldFs {
    inner: InMemoryFs,
    rng: Arc<Mutex<Rng>>,
}
type Fut<'a, T> = Pin<Box<dyn MaybeSendFuture<Output = Result<T, fusio::Error>> + 'a>>;
impl FsCas for YieldFs {
    fn load_with_tag(&self, path: &Path) -> Fut<'_, Option<(Vec<u8>, String)>> {
        let path = path.clone();
        Box::pin(async move {
            let n = self.rng.lock().unwrap().below(4);
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
            self.inner.load_with_tag(&path).await
        })
    }
    fn put_conditional(&self, path: &Path, payload: &[u8], content_type: Option<&str>, metadata: Option<Vec<(String, String)>>, condition: CasCondition) -> Fut<'_, String> {
        self.inner.put_conditional(path, payload, content_type, metadata, condition)
    }
}
type M = Manifest<VersionCodec, HeadStoreImpl<YieldFs>, SegmentStoreImpl<InMemoryFs>, CheckpointStoreImpl<InMemoryFs>, LeaseStoreImpl<InMemoryFs, DefaultExecutor>, DefaultExecutor>;
fn open(fs: &InMemoryFs, rng: &Arc<Mutex<Rng>>) -> M {
    let head = HeadStoreImpl::new(YieldFs { inner: fs.clone(), rng: rng.clone() }, "head.json");
    let segment = SegmentStoreImpl::new(fs.clone(), "segments");
    let checkpoint = CheckpointStoreImpl::new(fs.clone(), "");
    let lease = LeaseStoreImpl::new(fs.clone(), "", BackoffPolicy::default(), DefaultExecutor::default());
    Manifest::open(Stores::new(head, segment, checkpoint, lease), Arc::new(ManifestContext::new(DefaultExecutor::default())))
}
fn seg(seq: u64) -> WalSegmentRef {
    WalSegmentRef::new(seq, Ulid::from(1000 + seq as u128), seq * 3, seq * 3 + 2)
}
fn gen_edits(rng: &mut Rng) -> Vec<VersionEdit> {
    (0..rng.range(1, 3))
        .map(|_| match rng.below(5) {
            0 | 1 => {
                let entries = (0..rng.range(1, 2))
                    .map(|_| {
                        let id = rng.range(1, 9);
                        SstEntry::new(SsTableId::new(id), Some(SsTableStats::default()), None, Path::parse(format!("d/{id}-{}", rng.below(1000))).unwrap(), None)
                    })
                    .collect();
                VersionEdit::AddSsts { level: rng.below(3) as u32, entries }
            }
            2 => VersionEdit::RemoveSsts { level: rng.below(3) as u32, sst_ids: (0..rng.below(3)).map(|_| SsTableId::new(rng.range(1, 9))).collect() },
            3 => {
                let mut segments: Vec<_> = (rng.range(1, 4)..rng.range(1, 6)).map(seg).collect();
                rng.shuffle(&mut segments);
                VersionEdit::SetWalSegments { segments }
            }
            _ => VersionEdit::SetTombstoneWatermark { watermark: rng.range(0, 50) },
        })
        .collect()
}
/// what the table holds: every published version by its timestamp
#[derive(Clone)]
struct Table {
    id: TableId,
    schema: u32,
    versions: BTreeMap<u64, VersionState>,
}
impl Table {
    fn head(&self) -> Option<u64> {
        self.versions.keys().next_back().copied()
    }
    /// the version `edits` produce on top of the head, None if the edits are refused
    fn after(&self, edits: &[VersionEdit]) -> Option<VersionState> {
        let mut v = self.head().map(|t| self.versions[&t].clone()).unwrap_or_else(|| VersionState::empty(self.id));
        let ts = v.commit_timestamp().get() + 1;
        v.apply_edits(edits).ok()?;
        v.set_commit_timestamp(Timestamp::new(ts));
        Some(v)
    }
}
async fn audit(m: &M, t: &Table, rng: &mut Rng, what: &str) -> Result<(), String> {
    let newest: Vec<VersionState> = t.versions.values().rev().cloned().collect();
    let limit = rng.below(t.versions.len() + 3);
    let want = if limit > 0 && limit < newest.len() { newest[..limit].to_vec() } else { newest.clone() };
    let got = m.list_versions(t.id, limit).await.map_err(|e| format!("{what}: list_versions failed: {e}"))?;
    vp_ensure!(got == want, "{what}: list_versions({limit}) gave {:?}, expected {:?}", got, want);
    let s = m.snapshot_latest(t.id).await.map_err(|e| format!("{what}: snapshot_latest failed: {e}"))?;
    vp_ensure!(s.latest_version.as_ref() == newest.first(), "{what}: the latest snapshot shows {:?}, published {:?}", s.latest_version, newest.first());
    check_head(&s.head, t, t.head(), what)?;
    let floor = newest.first().and_then(|v| v.cloned_wal_floor());
    let got = m.wal_floor(t.id).await.map_err(|e| format!("{what}: wal_floor failed: {e}"))?;
    vp_ensure!(got == floor, "{what}: wal floor {got:?}, expected {floor:?}");
    for at in 0..t.head().unwrap_or(0) + 2 {
        let s = m.snapshot_at_version(t.id, Timestamp::new(at)).await.map_err(|e| format!("{what}: snapshot_at_version failed: {e}"))?;
        vp_ensure!(s.latest_version.as_ref() == t.versions.get(&at), "{what}: the snapshot at {at} shows {:?}, published {:?}", s.latest_version, t.versions.get(&at));
        check_head(&s.head, t, t.head(), what)?;
    }
    Ok(())
}
fn check_head(h: &TableHead, t: &Table, at: Option<u64>, what: &str) -> Result<(), String> {
    let floor = at.and_then(|a| t.versions.get(&a)).and_then(|v| v.cloned_wal_floor());
    vp_ensure!(h.last_manifest_txn.map(|x| x.get()) == at && h.wal_floor == floor && h.table_id == t.id && h.schema_version == t.schema, "{what}: head {h:?}, expected version {at:?} with floor {floor:?}");
    Ok(())
}
enum Op {
    Publish { table: usize, handle: usize, cas: Option<Option<u64>>, edits: Vec<VersionEdit> },
    Snapshot { table: usize, handle: usize },
    Floor { table: usize, handle: usize },
    Init { table: usize, handle: usize },
}
enum Got {
    Published(ManifestResult<Timestamp>),
    Snap(ManifestResult<VersionSnapshot>),
    Floor(ManifestResult<Option<WalSegmentRef>>),
    Init(ManifestResult<()>),
}
fn run<'a>(hs: &'a [M; 2], ts: &'a [Table], op: &'a Op) -> Pin<Box<dyn Future<Output = Got> + 'a>> {
    Box::pin(async move {
        match op {
            Op::Publish { table, handle, cas, edits } => Got::Published(match cas {
                Some(x) => hs[*handle].apply_version_edits_cas(ts[*table].id, x.map(Timestamp::new), edits).await,
                None => hs[*handle].apply_version_edits(ts[*table].id, edits).await,
            }),
            Op::Snapshot { table, handle } => Got::Snap(hs[*handle].snapshot_latest(ts[*table].id).await),
            Op::Floor { table, handle } => Got::Floor(hs[*handle].wal_floor(ts[*table].id).await),
            Op::Init { table, handle } => {
                let h = TableHead { table_id: ts[*table].id, schema_version: 77, wal_floor: None, last_manifest_txn: None };
                Got::Init(hs[*handle].init_table_head(ts[*table].id, h).await)
            }
        }
    })
}

async fn history(rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let fs = InMemoryFs::new();
    let shared = Arc::new(Mutex::new(Rng::new(rng.next())));
    let hs = [open(&fs, &shared), open(&fs, &shared)];
    let mut ts: Vec<Table> = vec![];
    for k in 0..2u32 {
        let t = Table { id: TableId::from(Ulid::from(50 + (k as u128) * rng.range(1, 3) as u128)), schema: 1 + k, versions: BTreeMap::new() };
        vp_ensure!(hs[0].apply_version_edits(t.id, &[VersionEdit::SetTombstoneWatermark { watermark: 1 }]).await.is_err(), "an unknown table accepted edits");
        vp_ensure!(hs[0].snapshot_latest(t.id).await.is_err() && hs[0].snapshot_at_version(t.id, Timestamp::new(1)).await.is_err(), "an unknown table has a snapshot");
        hs[rng.below(2)]
            .init_table_head(t.id, TableHead { table_id: t.id, schema_version: t.schema, wal_floor: None, last_manifest_txn: None })
            .await
            .map_err(|e| format!("init_table_head: {e}"))?;
        ts.push(t);
    }
    for round in 0..rng.range(2, 6) {
        let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 4) };
        let mut ops = vec![];
        for _ in 0..n {
            let (table, handle) = (rng.below(2), rng.below(2));
            let head = ts[table].head();
            ops.push(match rng.below(10) {
                0 => Op::Snapshot { table, handle },
                1 => Op::Floor { table, handle },
                2 => Op::Init { table, handle },
                k => {
                    let cas = match (k, rng.below(4)) {
                        (3..=6, 0..=2) => Some(head),
                        (3..=6, _) => Some(match rng.below(3) { 0 => None, 1 => Some(head.unwrap_or(0) + 1), _ => Some(head.unwrap_or(1).saturating_sub(1)) }),
                        _ => None,
                    };
                    Op::Publish { table, handle, cas, edits: if rng.chance(1, 12) { vec![] } else { gen_edits(rng) } }
                }
            });
        }
        for op in &ops {
            c.log(match op {
                Op::Publish { table, handle, cas, edits } => format!("round {round}: table {table} handle {handle} publish expecting {cas:?}: {edits:?}"),
                Op::Snapshot { table, .. } => format!("round {round}: snapshot of table {table}"),
                Op::Floor { table, .. } => format!("round {round}: wal floor of table {table}"),
                Op::Init { table, .. } => format!("round {round}: init table {table} again"),
            });
        }
        if n > 1 { c.nontrivial(); }
        let before = ts.clone();
        let got = futures::future::join_all(ops.iter().map(|o| run(&hs, &before, o))).await;
        // published versions, in the order of their timestamps
        let mut won: Vec<(usize, u64, usize)> = vec![];
        for (i, (op, g)) in ops.iter().zip(&got).enumerate() {
            if let (Op::Publish { table, .. }, Got::Published(Ok(t))) = (op, g) {
                won.push((*table, t.get(), i));
            }
        }
        won.sort();
        for (table, t, i) in &won {
            let Op::Publish { cas, edits, .. } = &ops[*i] else { unreachable!() };
            let tab = &mut ts[*table];
            vp_ensure!(!edits.is_empty(), "an empty list of edits was published");
            if let Some(x) = cas {
                vp_ensure!(*x == tab.head(), "a compare-and-set expecting {x:?} succeeded over head {:?}", tab.head());
            }
            let Some(v) = tab.after(edits) else { return Err(format!("edits that cannot be applied were published as version {t}")) };
            vp_ensure!(v.commit_timestamp().get() == *t, "published at {t}, next version is {:?} (lost update or gap)", v.commit_timestamp());
            tab.versions.insert(*t, v);
        }
        let mut may = 0;
        for (op, g) in ops.iter().zip(&got) {
            match (op, g) {
                (Op::Publish { table, cas, edits, .. }, Got::Published(r)) => {
                    let ready = !edits.is_empty() && before[*table].after(edits).is_some() && cas.is_none_or(|x| x == before[*table].head());
                    may += ready as usize;
                    match r {
                        Ok(_) => {}
                        Err(ManifestError::CasConflict(_)) => {
                            vp_ensure!(cas.is_some_and(|x| x != before[*table].head() || ts[*table].head() != before[*table].head()), "a compare-and-set on the current head {:?} was refused", before[*table].head());
                        }
                        Err(ManifestError::Backend(e)) => vp_ensure!(n > 1, "a lone publisher failed: {e}"),
                        Err(e) => vp_ensure!(n > 1 || !ready, "a lone publisher failed: {e}"),
                    }
                }
                (Op::Snapshot { table, .. }, Got::Snap(r)) => {
                    let s = r.as_ref().map_err(|e| format!("snapshot failed: {e}"))?;
                    let at = s.head.last_manifest_txn.map(|x| x.get());
                    vp_ensure!(at >= before[*table].head() && (at.is_none() || ts[*table].versions.contains_key(&at.unwrap())), "a snapshot shows version {at:?}, which was not the head at any time during the call");
                    check_head(&s.head, &ts[*table], at, "concurrent snapshot")?;
                    vp_ensure!(s.latest_version.as_ref() == at.and_then(|a| ts[*table].versions.get(&a)), "a snapshot of version {at:?} shows {:?}", s.latest_version);
                }
                (Op::Floor { table, .. }, Got::Floor(r)) => {
                    let f = r.as_ref().map_err(|e| format!("wal_floor failed: {e}"))?;
                    let mut ok = before[*table].head().is_none() && f.is_none();
                    for v in ts[*table].versions.range(before[*table].head().unwrap_or(0)..).map(|x| x.1) {
                        ok |= v.cloned_wal_floor() == *f;
                    }
                    vp_ensure!(ok, "wal_floor {f:?} belongs to no version published at that time");
                }
                (Op::Init { .. }, Got::Init(r)) => vp_ensure!(n > 1 || r.is_ok(), "init_table_head failed: {:?}", r.as_ref().err()),
                _ => unreachable!(),
            }
        }
        vp_ensure!(may == 0 || !won.is_empty(), "every publisher of the round failed");
        let which = rng.below(2);
        for t in &ts {
            audit(&hs[which], t, rng, &format!("after round {round}")).await?;
        }
    }
    let fresh = open(&fs, &shared);
    for t in &ts {
        audit(&fresh, t, rng, "after reopening").await?;
    }
    Ok(())
}

#[test]
fn publishers_never_lose_an_update() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    cases("c16_history", 400, |rng, c| rt.block_on(history(rng, c)));
}
