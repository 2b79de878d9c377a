//@attach src/manifest/driver.rs
//! C25: the catalog gives every table name one identity and never redefines a table; the manifests of a database are kept apart.
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::Arc, sync::Mutex, time::Duration};

use fusio::{
    dynamic::MaybeSendFuture,
    fs::{CasCondition, Fs, FsCas},
    mem::fs::InMemoryFs,
    path::Path,
};
use fusio_manifest::{
    BackoffPolicy, CheckpointStoreImpl, DefaultExecutor, HeadStoreImpl, LeaseStoreImpl, ManifestContext, SegmentStoreImpl,
};
use futures::TryStreamExt;
use ulid::Ulid;

use super::{
    super::{
        bootstrap::{TonboManifest, init_fs_manifest},
        domain::{GcSstRef, SstEntry, TableRetionConfig},
    },
    *,
};
use crate::{
    ondisk::sstable::{SsTableId, SsTableStats},
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

fn gen_def(rng: &mut Rng) -> TableDefinition {
    const NAMES: [&str; 8] = ["orders", "Orders", "order", "orders2", "", "日", " orders", "orders\t"];
    const KEYS: [&[&str]; 5] = [&["id"], &["id", "ts"], &["ts", "id"], &["idts"], &[]];
    let k = KEYS[if rng.chance(1, 2) { 0 } else { rng.below(5) }];
    TableDefinition {
        name: NAMES[rng.below(8)].to_string(),
        schema_fingerprint: (if rng.chance(2, 3) { "f1" } else { ["f2", "F1", "f", ""][rng.below(4)] }).to_string(),
        primary_key_columns: k.iter().map(|s| s.to_string()).collect(),
        retention: match rng.below(6) {
            0 => Some(TableRetionConfig { max_versions: rng.range(1, 2), max_ttl: Duration::from_secs(rng.range(5, 6)) }),
            1 => Some(TableRetionConfig::default()),
            _ => None,
        },
        schema_version: if rng.chance(4, 5) { 1 } else { rng.range(0, 2) as u32 },
    }
}
fn matches(m: &TableMeta, d: &TableDefinition) -> bool {
    m.name == d.name && m.schema_fingerprint == d.schema_fingerprint && m.primary_key_columns == d.primary_key_columns && m.retention == d.retention && m.schema_version == d.schema_version
}
fn gen_plan(rng: &mut Rng) -> GcPlanState {
    GcPlanState {
        obsolete_ssts: (0..rng.below(3))
            .map(|i| GcSstRef { id: SsTableId::new(rng.range(1, 99)), level: i as u32, data_path: Path::parse(format!("d/{}", rng.below(50))).unwrap(), delete_path: rng.chance(1, 2).then(|| Path::from("d/x")) })
            .collect(),
        obsolete_wal_segments: (0..rng.below(3)).map(|_| WalSegmentRef::new(rng.range(0, 9), Ulid::from(7u128), 0, 3)).collect(),
    }
}
#[derive(Clone)]
struct T {
    def: TableDefinition,
    meta: TableMeta,
    versions: u64,
    plan: Option<GcPlanState>,
}
type B = TonboManifest<InMemoryFs, DefaultExecutor>;
async fn audit(m: &B, want: &BTreeMap<String, T>, what: &str) -> Result<(), String> {
    for (n, t) in want {
        let s = m.snapshot_latest(t.meta.table_id).await.map_err(|e| format!("{what}: table {n:?} has no snapshot: {e}"))?;
        vp_ensure!(s._table_meta == t.meta, "{what}: table {n:?} now reads {:?}, registered as {:?}", s._table_meta, t.meta);
        vp_ensure!(s.head.table_id == t.meta.table_id && s.head.schema_version == t.meta.schema_version, "{what}: head of {n:?}: {:?}", s.head);
        vp_ensure!(s.head.last_manifest_txn.map_or(0, |x| x.get()) == t.versions, "{what}: table {n:?} has {} versions, its head names {:?}", t.versions, s.head.last_manifest_txn);
    }
    let mut other = want.values().next().map(|t| t.meta.clone());
    if let Some(o) = &mut other {
        o.name = "cached".into();
        for t in want.values() {
            let s = m.snapshot_latest_with_fallback(t.meta.table_id, o).await.map_err(|e| format!("{what}: {e}"))?;
            vp_ensure!(s._table_meta == t.meta, "{what}: the cached metadata {:?} replaced the catalog's", s._table_meta);
        }
    }
    Ok(())
}
async fn history(rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let fs = InMemoryFs::new();
    let roots = [Path::default(), Path::from("db"), Path::from("db/manifest")];
    let picks = if rng.chance(1, 3) { vec![1, 2] } else { vec![rng.below(3)] };
    let ids = crate::id::FileIdGenerator::default();
    let mut want: Vec<BTreeMap<String, T>> = picks.iter().map(|_| BTreeMap::new()).collect();
    let mut hs: Vec<Vec<B>> = vec![];
    for p in &picks {
        let mut v = vec![];
        for _ in 0..2 {
            v.push(init_fs_manifest(fs.clone(), &roots[*p], DefaultExecutor::default()).await.map_err(|e| format!("init: {e}"))?);
        }
        hs.push(v);
    }
    for step in 0..rng.range(3, 14) {
        let d = rng.below(picks.len());
        let h = rng.below(2);
        let what = format!("step {step}, database {d}, handle {h}");
        let known: Vec<String> = want[d].keys().cloned().collect();
        match rng.below(10) {
            0 => {
                c.log(format!("{what}: reopened"));
                hs[d][h] = init_fs_manifest(fs.clone(), &roots[picks[d]], DefaultExecutor::default()).await.map_err(|e| format!("{what}: reopening: {e}"))?;
            }
            1 if !known.is_empty() => {
                let t = want[d].get_mut(&known[rng.below(known.len())]).unwrap();
                let e = SstEntry::new(SsTableId::new(rng.range(1, 9)), Some(SsTableStats::default()), None, Path::from("d/1"), None);
                let r = hs[d][h].apply_version_edits(t.meta.table_id, &[VersionEdit::AddSsts { level: 0, entries: vec![e] }]).await;
                t.versions += 1;
                vp_ensure!(r.as_ref().is_ok_and(|x| x.get() == t.versions), "{what}: publishing version {}: {r:?}", t.versions);
            }
            2 if !known.is_empty() => {
                let t = want[d].get_mut(&known[rng.below(known.len())]).unwrap();
                let p = gen_plan(rng);
                c.log(format!("{what}: plan for {:?}", t.meta.name));
                hs[d][h].record_gc_plan(t.meta.table_id, p.clone()).await.map_err(|e| format!("{what}: record_gc_plan: {e}"))?;
                t.plan = Some(p);
            }
            3 if !known.is_empty() => {
                let t = want[d].get_mut(&known[rng.below(known.len())]).unwrap();
                let got = hs[d][h].take_gc_plan(t.meta.table_id).await.map_err(|e| format!("{what}: take_gc_plan: {e}"))?;
                vp_ensure!(got == t.plan, "{what}: took plan {got:?} of {:?}, recorded {:?}", t.meta.name, t.plan);
                t.plan = None;
            }
            _ => {
                let mut def = gen_def(rng);
                if rng.chance(1, 2) && !known.is_empty() {
                    let t = &want[d][&known[rng.below(known.len())]];
                    let n = def.name;
                    def.name = t.def.name.clone();
                    if rng.chance(1, 2) { def = t.def.clone(); }
                    // one field off
                    match rng.below(8) {
                        0 => def.schema_version += 1,
                        1 => def.primary_key_columns.push("z".into()),
                        2 => def.retention = Some(TableRetionConfig { max_versions: 5, max_ttl: Duration::from_secs(77) }),
                        3 => def.schema_fingerprint.push('x'),
                        4 => def.name = n,
                        _ => {}
                    }
                }
                c.log(format!("{what}: register {def:?}"));
                let got = hs[d][h].register_table(&ids, &def).await;
                match want[d].get(&def.name) {
                    Some(t) => {
                        c.nontrivial();
                        if matches(&t.meta, &def) {
                            vp_ensure!(got.as_ref().is_ok_and(|m| *m == t.meta), "{what}: the registered table {:?} came back as {got:?}", t.meta);
                        } else {
                            vp_ensure!(matches!(got, Err(ManifestError::CatalogConflict(_))), "{what}: {:?} is registered, yet {def:?} gave {got:?}", t.meta);
                        }
                    }
                    None => {
                        let m = got.map_err(|e| format!("{what}: a new table was refused: {e}"))?;
                        vp_ensure!(matches(&m, &def), "{what}: registered {def:?} as {m:?}");
                        vp_ensure!(want.iter().all(|w| w.values().all(|t| t.meta.table_id != m.table_id)), "{what}: the id of another table was given out again");
                        want[d].insert(def.name.clone(), T { def, meta: m, versions: 0, plan: None });
                    }
                }
            }
        }
        for k in 0..picks.len() {
            let x = rng.below(2);
            audit(&hs[k][x], &want[k], &what).await?;
        }
    }
    // unknown tables
    for k in 0..picks.len() {
        let id = TableId::from(Ulid::from(3u128));
        vp_ensure!(hs[k][0].snapshot_latest(id).await.is_err(), "an unknown table has a snapshot");
        for t in want[k].values() {
            for (q, w) in want.iter().enumerate() {
                vp_ensure!(q == k || w.values().any(|u| u.meta.table_id == t.meta.table_id) || hs[q][0].snapshot_latest(t.meta.table_id).await.is_err(), "a table of one database appears in another");
            }
        }
    }
    // every object lies under one of the manifests' own directories
    for p in &picks {
        let base = roots[*p].as_ref().to_string();
        let pre = if base.is_empty() { "manifest".to_string() } else { format!("{base}/manifest") };
        for kind in ["version", "catalog"] {
            let files: Vec<_> = fs.list(&Path::parse(format!("{pre}/{kind}")).unwrap()).await.map_err(|e| format!("{e}"))?.try_collect().await.map_err(|e| format!("{e}"))?;
            vp_ensure!(kind != "catalog" || files.iter().any(|f| f.path.as_ref().ends_with("head.json")), "no head for {pre}/{kind}: {:?}", files.iter().map(|f| f.path.as_ref().to_string()).collect::<Vec<_>>());
        }
    }
    Ok(())
}
#[test]
fn catalog_histories() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    cases("catalog_histories", 300, |rng, c| rt.block_on(history(rng, c)));
}

#[derive(Clone)]
struct YieldFs {
    inner: InMemoryFs,
    rng: Arc<Mutex<Rng>>,
}
type Fut<'a, T> = Pin<Box<dyn MaybeSendFuture<Output = Result<T, fusio::Error>> + 'a>>;
impl FsCas for YieldFs {
    fn load_with_tag(&self, path: &Path) -> Fut<'_, Option<(Vec<u8>, String)>> {
        let path = path.clone();
        Box::pin(async move {
            let n = self.rng.lock().unwrap().below(4);
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
            self.inner.load_with_tag(&path).await
        })
    }
    fn put_conditional(&self, path: &Path, payload: &[u8], content_type: Option<&str>, metadata: Option<Vec<(String, String)>>, condition: CasCondition) -> Fut<'_, String> {
        self.inner.put_conditional(path, payload, content_type, metadata, condition)
    }
}
type M = Manifest<CatalogCodec, HeadStoreImpl<YieldFs>, SegmentStoreImpl<InMemoryFs>, CheckpointStoreImpl<InMemoryFs>, LeaseStoreImpl<InMemoryFs, DefaultExecutor>, DefaultExecutor>;
fn open(fs: &InMemoryFs, rng: &Arc<Mutex<Rng>>) -> M {
    let head = HeadStoreImpl::new(YieldFs { inner: fs.clone(), rng: rng.clone() }, "head.json");
    let segment = SegmentStoreImpl::new(fs.clone(), "segments");
    let checkpoint = CheckpointStoreImpl::new(fs.clone(), "");
    let lease = LeaseStoreImpl::new(fs.clone(), "", BackoffPolicy::default(), DefaultExecutor::default());
    Manifest::open(Stores::new(head, segment, checkpoint, lease), Arc::new(ManifestContext::new(DefaultExecutor::default())))
}
async fn root_of(m: &M) -> Result<Option<CatalogState>, String> {
    let s = m.inner.session_read().await.map_err(|e| format!("{e}"))?;
    let v = s.get(&CatalogKey::Root).await.map_err(|e| format!("{e}"))?;
    s.end().await.map_err(|e| format!("{e}"))?;
    v.map(|v| CatalogState::try_from(v).map_err(|e| format!("{e}"))).transpose()
}
async fn race(rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let fs = InMemoryFs::new();
    let shared = Arc::new(Mutex::new(Rng::new(rng.next())));
    let hs = [open(&fs, &shared), open(&fs, &shared)];
    let ids = crate::id::FileIdGenerator::default();
    let mut want: BTreeMap<String, TableMeta> = BTreeMap::new();
    for round in 0..rng.range(1, 5) {
        let n = rng.range(2, 4) as usize;
        let ops: Vec<(usize, Option<TableDefinition>)> = (0..n).map(|_| (rng.below(2), (!rng.chance(1, 6)).then(|| gen_def(rng)))).collect();
        for o in &ops {
            c.log(format!("round {round}: {o:?}"));
        }
        c.nontrivial();
        let futs: Vec<Pin<Box<dyn Future<Output = ManifestResult<Option<TableMeta>>> + '_>>> = ops
            .iter()
            .map(|(h, d)| {
                let (m, ids) = (&hs[*h], &ids);
                Box::pin(async move {
                    match d {
                        Some(d) => m.register_table(ids, d).await.map(Some),
                        None => m.init_catalog_root().await.map(|_| None),
                    }
                }) as Pin<Box<dyn Future<Output = _> + '_>>
            })
            .collect();
        let got = futures::future::join_all(futs).await;
        let mut seen = want.clone();
        for ((_, d), g) in ops.iter().zip(&got) {
            if let (Some(d), Ok(Some(m))) = (d, g) {
                vp_ensure!(matches(m, d), "{d:?} was registered as {m:?}");
                if let Some(o) = seen.insert(d.name.clone(), m.clone()) {
                    vp_ensure!(o == *m, "the name {:?} stands for both {o:?} and {m:?}", d.name);
                }
            }
        }
        for ((_, d), g) in ops.iter().zip(&got) {
            match (d, g) {
                (Some(d), Err(ManifestError::CatalogConflict(_))) => vp_ensure!(seen.get(&d.name).is_some_and(|m| !matches(m, d)), "a conflict was reported for {d:?}, where {:?} is registered", seen.get(&d.name)),
                (_, Err(ManifestError::Backend(_))) | (_, Ok(_)) => {}
                (_, Err(e)) => return Err(format!("unexpected error {e}")),
            }
        }
        want = seen;
        let h = rng.below(2);
        let cat = root_of(&hs[h]).await?.unwrap_or_default();
        let names: Vec<&String> = cat.tables.values().map(|e| &e.logical_table_name).collect();
        vp_ensure!(cat.tables.len() == want.len(), "the catalog lists {names:?}, registered were {:?}", want.keys());
        for (n, m) in &want {
            vp_ensure!(cat.tables.get(&m.table_id).is_some_and(|e| e.logical_table_name == *n), "table {n:?} is not in the catalog under its id");
            let got = hs[h].table_meta(m.table_id).await.map_err(|e| format!("table_meta: {e}"))?;
            vp_ensure!(got == *m, "metadata of {n:?} reads {got:?}, registered {m:?}");
        }
    }
    Ok(())
}
#[test]
fn concurrent_registrations() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    cases("concurrent_registrations", 400, |rng, c| rt.block_on(race(rng, c)));
}
