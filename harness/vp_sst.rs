//@attach src/lib.rs
//! Shared fixture: SSTables written from sealed segments into an in-memory file system, next to a model of each.
#![allow(dead_code)]
use std::{cmp::Reverse, sync::Arc};

use arrow_array::{Array, RecordBatch, UInt64Array};
use fusio::{dynamic::DynFs, executor::NoopExecutor, path::Path};
use futures::StreamExt;

use crate::{
    extractor::projection_for_columns,
    inmem::immutable::ImmutableSegment,
    key::KeyOwned,
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    ondisk::{
        scan::{DeleteStreamWithExtractor, SstableScan, SstableVisibleEntry},
        sstable::{SsTable, SsTableBuilder, SsTableConfig, SsTableDescriptor, SsTableId, open_parquet_stream},
    },
    vp_mem::{Kind, Versions, World},
    vp_util::{Case, Rng},
};

pub(crate) fn config(kind: Kind, row_group: usize) -> Arc<SsTableConfig> {
    let fs: Arc<dyn DynFs> = Arc::new(fusio::impls::mem::fs::InMemoryFs::new());
    Arc::new(
        SsTableConfig::new(kind.schema(), fs, Path::parse("sst").expect("path"))
            .with_key_extractor(kind.extractor())
            .with_max_row_group_rows(row_group),
    )
}

/// a sealed segment with its model; each (key, timestamp) at most once
pub(crate) struct Seg {
    pub seg: ImmutableSegment,
    pub model: Versions,
}

/// random versions; `used` keeps (key, ts) pairs unique over the whole case
pub(crate) fn segment(c: &mut Case, rng: &mut Rng, kind: Kind, used: &mut std::collections::BTreeSet<(usize, u64)>, keys: usize, size: usize, tsmax: u64) -> Result<Option<Seg>, String> {
    let mut w = World::new(kind, 4096);
    let mut ups = vec![];
    let mut dels = vec![];
    let base = rng.below(kind.n().saturating_sub(keys).max(1));
    let delw = *rng.pick(&[0u64, 1, 2, 5, 10]);
    for _ in 0..size {
        let t = match rng.below(30) {
            0 => 0,
            1 => u64::MAX,
            _ => rng.range(0, tsmax),
        };
        let r = base + rng.below(keys.min(kind.n() - base));
        if used.insert((r, t)) {
            if rng.chance(delw, 10) { dels.push((r, t)) } else { ups.push((r, t)) }
        }
    }
    if !ups.is_empty() {
        w.upsert(c, &ups, rng)?;
    }
    if !dels.is_empty() {
        w.delete(c, &dels)?;
    }
    w.seal(c)?;
    Ok(w.sealed.pop().map(|(seg, model)| Seg { seg, model }))
}

pub(crate) async fn write(cfg: &Arc<SsTableConfig>, id: u64, level: usize, segs: &[&Seg]) -> Result<(SsTable, Versions), String> {
    let mut b = SsTableBuilder::new(Arc::clone(cfg), SsTableDescriptor::new(SsTableId::new(id), level));
    let mut m = Versions::new();
    for s in segs {
        b.add_immutable(&s.seg).map_err(|e| format!("staging refused: {e}"))?;
        m.extend(s.model.iter().map(|(k, v)| (*k, *v)));
    }
    let t = b.finish(NoopExecutor).await.map_err(|e| format!("flush failed: {e}"))?;
    Ok((t, m))
}

async fn batches(cfg: &SsTableConfig, path: &Path) -> Result<Vec<RecordBatch>, String> {
    let mut s = open_parquet_stream(Arc::clone(cfg.fs()), path.clone(), None, None, None, None, NoopExecutor).await.map_err(|e| format!("open {path}: {e}"))?;
    let mut out = vec![];
    while let Some(b) = s.next().await {
        out.push(b.map_err(|e| format!("read {path}: {e}"))?);
    }
    Ok(out)
}

/// (rank, ts) of a batch's rows in order, and the rows' cells
fn rows_of(kind: Kind, b: &RecordBatch, cols: &[usize]) -> Result<Vec<(usize, u64, usize)>, String> {
    let ts = b.column_by_name(MVCC_COMMIT_COL).and_then(|a| a.as_any().downcast_ref::<UInt64Array>()).ok_or("no commit column")?;
    let p = projection_for_columns(b.schema(), cols.to_vec()).map_err(|e| format!("{e}"))?;
    let idx: Vec<usize> = (0..b.num_rows()).collect();
    let keys = p.project_view(b, &idx).map_err(|e| format!("{e}"))?;
    keys.into_iter()
        .enumerate()
        .map(|(i, k)| {
            let k = KeyOwned::from_key_row(&k).map_err(|e| format!("{e}"))?;
            Ok((kind.rank(&k)?, ts.value(i), i))
        })
        .collect()
}

/// The files of the table hold exactly `m`, in version order; statistics describe it.
pub(crate) async fn check_contents(kind: Kind, cfg: &SsTableConfig, t: &SsTable, m: &Versions) -> Result<(), String> {
    let d = t.descriptor();
    let mut rows: Vec<(usize, u64)> = vec![];
    for b in batches(cfg, d.data_path().ok_or("no data file")?).await? {
        let v = b.column_by_name("v").and_then(|a| a.as_any().downcast_ref::<arrow_array::Int64Array>()).ok_or("no v column")?;
        for (r, ts, i) in rows_of(kind, &b, &kind.key_cols())? {
            match m.get(&(r, Reverse(ts))) {
                Some(Some(x)) if *x == (!v.is_null(i)).then(|| v.value(i)) => {}
                o => return Err(format!("row of key {r} at {ts} in the file should be {o:?}")),
            }
            rows.push((r, ts));
        }
    }
    let want: Vec<(usize, u64)> = m.iter().filter(|e| e.1.is_some()).map(|e| (e.0.0, e.0.1.0)).collect();
    if rows != want {
        return Err(format!("rows in the file {rows:?} instead of {want:?}"));
    }
    let mut dels: Vec<(usize, u64)> = vec![];
    if let Some(p) = d.delete_path() {
        let n = kind.key_cols().len();
        for b in batches(cfg, p).await? {
            dels.extend(rows_of(kind, &b, &(0..n).collect::<Vec<_>>())?.into_iter().map(|(r, t, _)| (r, t)));
        }
    }
    let want: Vec<(usize, u64)> = m.iter().filter(|e| e.1.is_none()).map(|e| (e.0.0, e.0.1.0)).collect();
    if dels != want {
        return Err(format!("deletes in the file {dels:?} instead of {want:?}"));
    }
    let s = d.stats().ok_or("no statistics")?;
    let rank = |k: &Option<KeyOwned>| k.as_ref().map(|k| kind.rank(k)).transpose();
    let got = (s.rows, s.tombstones, rank(&s.min_key)?, rank(&s.max_key)?, s.min_commit_ts.map(|t| t.get()), s.max_commit_ts.map(|t| t.get()));
    let want = (
        rows.len(),
        dels.len(),
        m.keys().map(|k| k.0).min(),
        m.keys().map(|k| k.0).max(),
        m.keys().map(|k| k.1.0).min(),
        m.keys().map(|k| k.1.0).max(),
    );
    if got != want {
        return Err(format!("statistics (rows, tombstones, min key, max key, min ts, max ts) {got:?} instead of {want:?}"));
    }
    Ok(())
}

pub(crate) async fn scan(kind: Kind, cfg: &SsTableConfig, t: &SsTable, ts: u64) -> Result<SstableScan<NoopExecutor>, String> {
    let d = t.descriptor();
    let data = open_parquet_stream(Arc::clone(cfg.fs()), d.data_path().ok_or("no data file")?.clone(), None, None, None, None, NoopExecutor).await.map_err(|e| format!("{e}"))?;
    let del = match d.delete_path() {
        None => None,
        Some(p) => Some(DeleteStreamWithExtractor {
            stream: open_parquet_stream(Arc::clone(cfg.fs()), p.clone(), None, None, None, None, NoopExecutor).await.map_err(|e| format!("{e}"))?,
            extractor: kind.delete_projection(),
        }),
    };
    Ok(SstableScan::new(data, del, kind.extractor(), (0..kind.schema().fields().len()).collect(), None, Timestamp::new(ts)))
}

/// a scan at `ts` gives exactly `want`
pub(crate) async fn check_scan(kind: Kind, cfg: &SsTableConfig, t: &SsTable, ts: u64, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let mut s = Box::pin(scan(kind, cfg, t, ts).await?);
    let mut i = 0;
    while let Some(e) = s.next().await {
        let e = e.map_err(|e| format!("scan failed: {e}"))?;
        let (r, t, cells) = match e {
            SstableVisibleEntry::Row(row) => {
                let (r, t) = (kind.rank(&row.key_ts().key().to_owned())?, row.key_ts().timestamp().get());
                (r, t, Some(row.into_row_owned().map_err(|e| format!("{e:?}"))?.0.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>()))
            }
            SstableVisibleEntry::Tombstone(k) => (kind.rank(k.key())?, k.timestamp().get(), None),
        };
        let Some(w) = want.get(i) else {
            return Err(format!("scan at {ts}: extra entry for key {r} at {t}"));
        };
        if (r, t, &cells) != (w.0, w.1, &w.2.map(|v| kind.cells(w.0, v))) {
            return Err(format!("scan at {ts}: entry {i} is key {r} at {t} {cells:?} instead of {w:?}"));
        }
        i += 1;
    }
    if i != want.len() {
        return Err(format!("scan at {ts}: missing entry {:?}", want[i]));
    }
    Ok(())
}
