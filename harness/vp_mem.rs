//@attach src/lib.rs
//! Shared fixture: a DynMem over one of several key layouts next to a model of the versions written to it.
#![allow(dead_code)]
use std::{collections::BTreeMap, ops::Bound, sync::Arc};

use arrow_array::{ArrayRef, Int32Array, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::{DynCell, DynRowRaw};

use crate::{
    extractor::{KeyProjection, projection_for_columns},
    inmem::{
        immutable::memtable::{ImmutableMemTable, ImmutableVisibleEntry},
        mutable::memtable::{DynMem, DynRowScanEntry},
    },
    key::{KeyOwned, KeyTsViewRaw},
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    query::stream::{OwnedImmutableScan, OwnedMutableScan},
    vp_util::{Case, Rng},
};

/// How keys look. Model keys are ranks into a sorted list of real keys.
#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum Kind {
    /// id: Utf8 (key), v: Int64
    Str,
    /// v: Int64, a: Int64, b: Utf8; key (b, a)
    Pair,
    /// id: Int32 (key), v: Int64
    Int,
    /// id: Int64 (key), v: Int64; many keys
    Wide,
    /// id: Float64 (key), v: Int64
    Real,
}
pub(crate) const WIDE: usize = 6000;
fn wide(r: usize) -> i64 {
    r as i64 * 3 - 5000
}

pub(crate) const STRS: &[&str] = &["", "\u{0}", "a", "a\u{0}", "aa", "ab", "b", "ba", "é", "\u{10ffff}"];
pub(crate) const INTS: &[i32] = &[i32::MIN, -7, -1, 0, 1, 2, 100, i32::MAX];
pub(crate) const REALS: &[f64] = &[f64::NEG_INFINITY, -2.6456287537752347e102, -1.5, 0.0, 5e-324, 0.1, 1.0, 2.6456287537752347e102, f64::INFINITY, f64::NAN];
const PB: &[&str] = &["", "a", "ab", "b"];
const PA: &[i64] = &[i64::MIN, -1, 0, 5];

impl Kind {
    pub(crate) fn random(rng: &mut Rng) -> Kind {
        *rng.pick(&[Kind::Str, Kind::Pair, Kind::Int, Kind::Real])
    }
    pub(crate) fn n(self) -> usize {
        match self {
            Kind::Str => STRS.len(),
            Kind::Int => INTS.len(),
            Kind::Wide => WIDE,
            Kind::Real => REALS.len(),
            Kind::Pair => PB.len() * PA.len(),
        }
    }
    pub(crate) fn key(self, r: usize) -> KeyOwned {
        match self {
            Kind::Str => KeyOwned::from(STRS[r]),
            Kind::Int => KeyOwned::from(INTS[r]),
            Kind::Wide => KeyOwned::from(wide(r)),
            Kind::Real => KeyOwned::from(REALS[r]),
            Kind::Pair => KeyOwned::tuple(vec![KeyOwned::from(PB[r / PA.len()]), KeyOwned::from(PA[r % PA.len()])]),
        }
    }
    pub(crate) fn rank(self, k: &KeyOwned) -> Result<usize, String> {
        if let (Kind::Wide, Some(v)) = (self, format!("{k:?}").split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| !s.is_empty()).last().and_then(|s| s.parse::<i64>().ok())) {
            let r = ((v + 5000) / 3).clamp(0, WIDE as i64 - 1) as usize;
            if &self.key(r) == k {
                return Ok(r);
            }
        }
        (0..self.n()).find(|r| &self.key(*r) == k).ok_or_else(|| format!("unknown key {k:?}"))
    }
    pub(crate) fn schema(self) -> SchemaRef {
        let v = Field::new("v", DataType::Int64, true);
        Arc::new(Schema::new(match self {
            Kind::Str => vec![Field::new("id", DataType::Utf8, false), v],
            Kind::Int => vec![Field::new("id", DataType::Int32, false), v],
            Kind::Wide => vec![Field::new("id", DataType::Int64, false), v],
            Kind::Real => vec![Field::new("id", DataType::Float64, false), v],
            Kind::Pair => vec![v, Field::new("a", DataType::Int64, false), Field::new("b", DataType::Utf8, false)],
        }))
    }
    pub(crate) fn key_cols(self) -> Vec<usize> {
        match self {
            Kind::Str | Kind::Int | Kind::Wide | Kind::Real => vec![0],
            Kind::Pair => vec![2, 1],
        }
    }
    fn key_arrays(self, ranks: &[usize]) -> Vec<ArrayRef> {
        match self {
            Kind::Str => vec![Arc::new(StringArray::from_iter_values(ranks.iter().map(|r| STRS[*r])))],
            Kind::Int => vec![Arc::new(Int32Array::from_iter_values(ranks.iter().map(|r| INTS[*r])))],
            Kind::Wide => vec![Arc::new(Int64Array::from_iter_values(ranks.iter().map(|r| wide(*r))))],
            Kind::Real => vec![Arc::new(arrow_array::Float64Array::from_iter_values(ranks.iter().map(|r| REALS[*r])))],
            Kind::Pair => vec![
                Arc::new(StringArray::from_iter_values(ranks.iter().map(|r| PB[*r / PA.len()]))),
                Arc::new(Int64Array::from_iter_values(ranks.iter().map(|r| PA[*r % PA.len()]))),
            ],
        }
    }
    pub(crate) fn batch(self, rows: &[(usize, Option<i64>)]) -> RecordBatch {
        let ranks: Vec<usize> = rows.iter().map(|r| r.0).collect();
        let mut k = self.key_arrays(&ranks);
        let v: ArrayRef = Arc::new(Int64Array::from(rows.iter().map(|r| r.1).collect::<Vec<_>>()));
        let cols = match self {
            Kind::Str | Kind::Int | Kind::Wide | Kind::Real => vec![k.remove(0), v],
            Kind::Pair => {
                let b = k.remove(0);
                vec![v, k.remove(0), b]
            }
        };
        RecordBatch::try_new(self.schema(), cols).expect("batch")
    }
    pub(crate) fn extractor(self) -> Arc<dyn KeyProjection> {
        projection_for_columns(self.schema(), self.key_cols()).expect("extractor").into()
    }
    pub(crate) fn delete_schema(self) -> SchemaRef {
        let mut fields: Vec<Field> = self.extractor().key_schema().fields().iter().map(|f| f.as_ref().clone()).collect();
        fields.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
        Arc::new(Schema::new(fields))
    }
    pub(crate) fn delete_batch(self, rows: &[(usize, u64)]) -> RecordBatch {
        let ranks: Vec<usize> = rows.iter().map(|r| r.0).collect();
        let mut cols = self.key_arrays(&ranks);
        cols.push(Arc::new(UInt64Array::from_iter_values(rows.iter().map(|r| r.1))));
        RecordBatch::try_new(self.delete_schema(), cols).expect("delete batch")
    }
    pub(crate) fn delete_projection(self) -> Arc<dyn KeyProjection> {
        let n = self.key_cols().len();
        projection_for_columns(self.delete_schema(), (0..n).collect()).expect("delete projection").into()
    }
    pub(crate) fn mem(self, capacity: usize) -> DynMem {
        DynMem::with_capacity(self.schema(), self.extractor(), self.delete_projection(), capacity)
    }
    /// a full owned row
    pub(crate) fn row(self, r: usize, v: Option<i64>) -> typed_arrow_dyn::DynRow {
        let v = v.map(DynCell::I64);
        typed_arrow_dyn::DynRow(match self {
            Kind::Str => vec![Some(DynCell::Str(STRS[r].into())), v],
            Kind::Int => vec![Some(DynCell::I32(INTS[r])), v],
            Kind::Wide => vec![Some(DynCell::I64(wide(r))), v],
            Kind::Real => vec![Some(DynCell::F64(REALS[r])), v],
            Kind::Pair => vec![v, Some(DynCell::I64(PA[r % PA.len()])), Some(DynCell::Str(PB[r / PA.len()].into()))],
        })
    }
    pub(crate) fn cells(self, r: usize, v: Option<i64>) -> Vec<String> {
        let v = format!("{:?}", v.map(DynCell::I64));
        let s = |s: &str| format!("{:?}", Some(DynCell::Str(s.to_string())));
        match self {
            Kind::Str => vec![s(STRS[r]), v],
            Kind::Int => vec![format!("{:?}", Some(DynCell::I32(INTS[r]))), v],
            Kind::Wide => vec![format!("{:?}", Some(DynCell::I64(wide(r)))), v],
            Kind::Real => vec![format!("{:?}", Some(DynCell::F64(REALS[r]))), v],
            Kind::Pair => vec![v, format!("{:?}", Some(DynCell::I64(PA[r % PA.len()]))), s(PB[r / PA.len()])],
        }
    }
    /// columns of a full row, checked against rank r; returns v
    pub(crate) fn row_matches(self, row: DynRowRaw, r: usize, v: Option<i64>) -> Result<(), String> {
        let got: Vec<String> = row.into_owned().map_err(|e| format!("{e:?}"))?.0.iter().map(|c| format!("{c:?}")).collect();
        if got != self.cells(r, v) {
            return Err(format!("row {got:?} instead of {:?}", self.cells(r, v)));
        }
        Ok(())
    }
}

/// versions by (key rank, timestamp descending): Some(v) upsert, None delete
pub(crate) type Versions = BTreeMap<(usize, std::cmp::Reverse<u64>), Option<Option<i64>>>;

/// (rank, commit ts, Some(value) for a row, None for a tombstone) of every key visible at `ts` inside the bounds
pub(crate) fn visible(m: &Versions, ts: u64, lo: &Bound<usize>, hi: &Bound<usize>) -> Vec<(usize, u64, Option<Option<i64>>)> {
    let mut out: Vec<(usize, u64, Option<Option<i64>>)> = vec![];
    for ((r, t), op) in m {
        if t.0 > ts || out.last().is_some_and(|l| l.0 == *r) || !inside(*r, lo, hi) {
            continue;
        }
        out.push((*r, t.0, *op));
    }
    out
}
pub(crate) fn inside(r: usize, lo: &Bound<usize>, hi: &Bound<usize>) -> bool {
    (match lo {
        Bound::Included(x) => *x <= r,
        Bound::Excluded(x) => *x < r,
        Bound::Unbounded => true,
    }) && (match hi {
        Bound::Included(x) => r <= *x,
        Bound::Excluded(x) => r < *x,
        Bound::Unbounded => true,
    })
}
/// random bounds that do not exclude each other
pub(crate) fn bounds(rng: &mut Rng, n: usize) -> (Bound<usize>, Bound<usize>) {
    loop {
        let mk = |rng: &mut Rng| match rng.below(3) {
            0 => Bound::Included(rng.below(n)),
            1 => Bound::Excluded(rng.below(n)),
            _ => Bound::Unbounded,
        };
        let (a, b) = (mk(rng), mk(rng));
        let ok = match (&a, &b) {
            (Bound::Unbounded, _) | (_, Bound::Unbounded) => true,
            (Bound::Included(x), Bound::Included(y)) => x <= y,
            (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) => x < y,
        };
        if ok {
            return (a, b);
        }
    }
}
pub(crate) fn key_bound(k: Kind, b: &Bound<usize>) -> Bound<KeyOwned> {
    match b {
        Bound::Included(r) => Bound::Included(k.key(*r)),
        Bound::Excluded(r) => Bound::Excluded(k.key(*r)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

type Got = (KeyTsViewRaw, Option<DynRowRaw>);
pub(crate) fn scan_mem(k: Kind, mem: &DynMem, ts: u64, b: Option<(&Bound<usize>, &Bound<usize>)>, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let guard = mem.read();
    let it = match b {
        None => guard.scan_visible(None, Timestamp::new(ts)),
        Some((lo, hi)) => guard.scan_visible_in_range(None, Timestamp::new(ts), key_bound(k, lo), key_bound(k, hi)),
    }
    .map_err(|e| format!("scan refused: {e:?}"))?;
    let got = it.map(|e| {
        Ok(match e.map_err(|e| format!("scan error {e:?}"))? {
            DynRowScanEntry::Row(k, r) => (k, Some(r)),
            DynRowScanEntry::Tombstone(k) => (k, None),
        })
    });
    compare(k, got, want)
}
pub(crate) fn scan_imm(k: Kind, seg: &ImmutableMemTable, ts: u64, b: Option<(&Bound<usize>, &Bound<usize>)>, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let it = match b {
        None => seg.scan_visible(None, Timestamp::new(ts)),
        Some((lo, hi)) => seg.scan_visible_in_range(None, Timestamp::new(ts), key_bound(k, lo), key_bound(k, hi)),
    }
    .map_err(|e| format!("scan refused: {e:?}"))?;
    let got = it.map(|e| {
        Ok(match e.map_err(|e| format!("scan error {e:?}"))? {
            ImmutableVisibleEntry::Row(k, r) => (k, Some(r)),
            ImmutableVisibleEntry::Tombstone(k) => (k, None),
        })
    });
    compare(k, got, want)
}
/// the same scans as readers get them
pub(crate) fn read_mem(k: Kind, mem: &DynMem, ts: u64, b: Option<(&Bound<usize>, &Bound<usize>)>, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let guard = mem.read();
    let it = match b {
        None => OwnedMutableScan::from_guard(guard, None, Timestamp::new(ts)),
        Some((lo, hi)) => OwnedMutableScan::from_guard_range(guard, None, Timestamp::new(ts), key_bound(k, lo), key_bound(k, hi)),
    }
    .map_err(|e| format!("scan refused: {e:?}"))?;
    let got = it.map(|e| {
        Ok(match e.map_err(|e| format!("scan error {e:?}"))? {
            DynRowScanEntry::Row(k, r) => (k, Some(r)),
            DynRowScanEntry::Tombstone(k) => (k, None),
        })
    });
    compare(k, got, want)
}
pub(crate) fn read_imm(k: Kind, seg: &Arc<ImmutableMemTable>, ts: u64, b: Option<(&Bound<usize>, &Bound<usize>)>, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let it = match b {
        None => OwnedImmutableScan::from_arc(Arc::clone(seg), None, Timestamp::new(ts)),
        Some((lo, hi)) => OwnedImmutableScan::from_arc_range(Arc::clone(seg), None, Timestamp::new(ts), key_bound(k, lo), key_bound(k, hi)),
    }
    .map_err(|e| format!("scan refused: {e:?}"))?;
    let got = it.map(|e| {
        Ok(match e.map_err(|e| format!("scan error {e:?}"))? {
            ImmutableVisibleEntry::Row(k, r) => (k, Some(r)),
            ImmutableVisibleEntry::Tombstone(k) => (k, None),
        })
    });
    compare(k, got, want)
}
fn compare(k: Kind, got: impl Iterator<Item = Result<Got, String>>, want: &[(usize, u64, Option<Option<i64>>)]) -> Result<(), String> {
    let mut i = 0;
    for g in got {
        let (view, row) = g?;
        let r = k.rank(&view.key().to_owned())?;
        let t = view.timestamp().get();
        let Some(w) = want.get(i) else {
            // a tombstone past the expected ones would still be wrong
            return Err(format!("extra entry for key {r} at {t}"));
        };
        if (r, t, row.is_some()) != (w.0, w.1, w.2.is_some()) {
            return Err(format!("entry {i} is key {r} at {t} (row: {}) instead of {w:?}", row.is_some()));
        }
        if let (Some(row), Some(v)) = (row, w.2) {
            k.row_matches(row, r, v)?;
        }
        i += 1;
    }
    if i != want.len() {
        return Err(format!("missing entry {:?} (got {i} of {})", want[i], want.len()));
    }
    Ok(())
}

/// A mutable buffer, the segments sealed out of it so far, and the model of each.
pub(crate) struct World {
    pub kind: Kind,
    pub mem: DynMem,
    pub live: Versions,
    pub sealed: Vec<(ImmutableMemTable, Versions)>,
    next_v: i64,
}

impl World {
    pub(crate) fn new(kind: Kind, capacity: usize) -> Self {
        World { kind, mem: kind.mem(capacity), live: Versions::new(), sealed: vec![], next_v: 0 }
    }
    fn value(&mut self, rng: &mut Rng) -> Option<i64> {
        self.next_v += 1;
        (!rng.chance(1, 8)).then_some(self.next_v)
    }
    fn took(&mut self, c: &mut Case, sealed: Option<ImmutableMemTable>) {
        if let Some(seg) = sealed {
            c.log("  (sealed)");
            let m = std::mem::take(&mut self.live);
            self.sealed.push((seg, m));
        }
    }
    pub(crate) fn upsert(&mut self, c: &mut Case, rows: &[(usize, u64)], rng: &mut Rng) -> Result<(), String> {
        let vals: Vec<(usize, Option<i64>)> = rows.iter().map(|(r, _)| (*r, self.value(rng))).collect();
        c.log(format!("upsert {:?}", rows.iter().zip(&vals).map(|((r, t), v)| (*r, *t, v.1)).collect::<Vec<_>>()));
        let batch = self.kind.batch(&vals);
        let same = rows.first().is_some_and(|f| rows.iter().all(|r| r.1 == f.1));
        let sealed = if same && rng.chance(1, 2) {
            self.mem.insert_batch(batch, Timestamp::new(rows[0].1))
        } else {
            self.mem.insert_batch_with_mvcc(batch, UInt64Array::from_iter_values(rows.iter().map(|r| r.1)))
        }
        .map_err(|e| format!("insert refused: {e:?}"))?;
        self.took(c, sealed);
        for ((r, t), v) in rows.iter().zip(vals) {
            self.live.insert((*r, std::cmp::Reverse(*t)), Some(v.1));
        }
        Ok(())
    }
    pub(crate) fn delete(&mut self, c: &mut Case, rows: &[(usize, u64)]) -> Result<(), String> {
        c.log(format!("delete {rows:?}"));
        let sealed = self.mem.insert_delete_batch(self.kind.delete_batch(rows)).map_err(|e| format!("delete refused: {e:?}"))?;
        self.took(c, sealed);
        for (r, t) in rows {
            self.live.insert((*r, std::cmp::Reverse(*t)), None);
        }
        Ok(())
    }
    /// a batch the memtable has to refuse (wrong schema); nothing may change
    pub(crate) fn bad(&mut self, c: &mut Case) -> Result<(), String> {
        c.log("insert a batch of another schema");
        let s = Arc::new(Schema::new(vec![Field::new("other", DataType::Int64, false)]));
        let b = RecordBatch::try_new(s, vec![Arc::new(Int64Array::from(vec![1]))]).unwrap();
        if self.mem.insert_batch_with_mvcc(b, UInt64Array::from(vec![1])).is_ok() {
            return Err("a batch of another schema was accepted".into());
        }
        Ok(())
    }
    pub(crate) fn seal(&mut self, c: &mut Case) -> Result<(), String> {
        c.log("seal");
        let s = self.mem.seal_now().map_err(|e| format!("seal failed: {e:?}"))?;
        if s.is_none() && !self.live.is_empty() {
            return Err("sealing a non-empty buffer gave no segment".into());
        }
        if s.is_some() && self.live.is_empty() {
            return Err("sealing an empty buffer gave a segment".into());
        }
        self.took(c, s);
        Ok(())
    }
    /// `n` random operations
    pub(crate) fn history(&mut self, c: &mut Case, rng: &mut Rng, n: usize) -> Result<(), String> {
        let tsmax = [3u64, 12, 40][rng.below(3)];
        let ts = |rng: &mut Rng| match rng.below(12) {
            0 => 0,
            1 => u64::MAX,
            _ => rng.range(0, tsmax),
        };
        let keys = 1 + rng.below(self.kind.n());
        for _ in 0..n {
            let k = if rng.chance(1, 20) { 0 } else { 1 + rng.below(6) };
            let one = ts(rng);
            let same = rng.chance(1, 2);
            let rows: Vec<(usize, u64)> = (0..k).map(|_| (rng.below(keys), if same { one } else { ts(rng) })).collect();
            match rng.below(12) {
                0 => self.seal(c)?,
                1 => self.bad(c)?,
                2..=7 => self.upsert(c, &rows, rng)?,
                _ => self.delete(c, &rows)?,
            }
        }
        Ok(())
    }
    /// timestamps worth reading at
    pub(crate) fn read_points(&self, rng: &mut Rng) -> Vec<u64> {
        let mut t: Vec<u64> = self.live.keys().chain(self.sealed.iter().flat_map(|s| s.1.keys())).map(|k| k.1.0).collect();
        let more: Vec<u64> = t.iter().flat_map(|x| [x.saturating_sub(1), x.saturating_add(1)]).collect();
        t.extend(more);
        t.push(0);
        t.push(u64::MAX);
        t.sort_unstable();
        t.dedup();
        rng.shuffle(&mut t);
        t.truncate(6);
        t
    }
}
