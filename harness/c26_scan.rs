//@attach src/db/mod.rs
//! C26 on the whole crate: a scan of the database, of a snapshot and of a transaction against a model of the committed rows.
use std::{collections::BTreeMap, sync::Arc};

use aisle::Expr;
use arrow_array::{Array, Int64Array, RecordBatch};
use arrow_schema::{Schema, SchemaRef};
use datafusion_common::ScalarValue;
use fusio::{executor::NoopExecutor, mem::fs::InMemoryFs, path::Path};
use futures::TryStreamExt;

use super::*;
use crate::{
    inmem::policy::BatchesThreshold,
    ondisk::sstable::{SsTableConfig, SsTableDescriptor, SsTableId},
    vp_ensure,
    vp_mem::{INTS, Kind, STRS},
    vp_util::{Case, Rng, block_on, cases},
};

type Db = DB<InMemoryFs, NoopExecutor>;
type State = BTreeMap<usize, Option<i64>>;

async fn open(k: Kind, seal: usize) -> Db {
    let extractor = crate::extractor::projection_for_columns(k.schema(), k.key_cols()).expect("extractor");
    let config = DynModeConfig::new(k.schema(), extractor).expect("config");
    DB::new_with_policy(config, Arc::new(NoopExecutor), Arc::new(BatchesThreshold { batches: seal })).await.expect("db")
}
/// a cell as the predicates see it
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Null,
    Int(i64),
    Text(String),
    Real(f64),
}
fn cell(k: Kind, r: usize, v: Option<i64>, col: &str) -> Val {
    if col == "v" {
        return v.map(Val::Int).unwrap_or(Val::Null);
    }
    match (k, col) {
        (Kind::Str, _) => Val::Text(STRS[r].into()),
        (Kind::Int, _) => Val::Int(INTS[r] as i64),
        (Kind::Wide, _) => Val::Int(r as i64 * 3 - 5000),
        (Kind::Real, _) => Val::Real(crate::vp_mem::REALS[r]),
        (Kind::Pair, c) => {
            let row = k.row(r, v);
            match &row.0[if c == "a" { 1 } else { 2 }] {
                Some(typed_arrow_dyn::DynCell::I64(x)) => Val::Int(*x),
                Some(typed_arrow_dyn::DynCell::Str(s)) => Val::Text(s.clone()),
                _ => Val::Null,
            }
        }
    }
}
/// a literal with its scalar form
#[derive(Clone, Debug)]
struct Lit(Val, ScalarValue);
#[derive(Clone, Debug)]
enum P {
    True,
    False,
    Cmp(String, usize, Lit),
    Between(String, Lit, Lit, bool),
    In(String, Vec<Lit>),
    Starts(String, String),
    Null(String, bool),
    And(Vec<P>),
    Or(Vec<P>),
    Not(Box<P>),
}
fn cmp(a: &Val, b: &Val) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => Some(x.cmp(y)),
        (Val::Text(x), Val::Text(y)) => Some(x.cmp(y)),
        (Val::Real(x), Val::Real(y)) => Some(x.total_cmp(y)),
        _ => None,
    }
}
fn holds(op: usize, o: std::cmp::Ordering) -> bool {
    use std::cmp::Ordering::*;
    match op {
        0 => o == Equal,
        1 => o != Equal,
        2 => o == Less,
        3 => o != Greater,
        4 => o == Greater,
        _ => o != Less,
    }
}
fn and3(xs: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut acc = Some(true);
    for x in xs {
        acc = if acc == Some(false) || x == Some(false) { Some(false) } else if acc.is_none() || x.is_none() { None } else { Some(true) };
    }
    acc
}
impl P {
    fn expr(&self) -> Expr {
        match self {
            P::True => Expr::True,
            P::False => Expr::False,
            P::Cmp(c, op, l) => {
                let (c, l) = (c.clone(), l.1.clone());
                match op {
                    0 => Expr::eq(c, l),
                    1 => Expr::not_eq(c, l),
                    2 => Expr::lt(c, l),
                    3 => Expr::lt_eq(c, l),
                    4 => Expr::gt(c, l),
                    _ => Expr::gt_eq(c, l),
                }
            }
            P::Between(c, a, b, i) => Expr::between(c.clone(), a.1.clone(), b.1.clone(), *i),
            P::In(c, ls) => Expr::in_list(c.clone(), ls.iter().map(|l| l.1.clone()).collect()),
            P::Starts(c, p) => Expr::starts_with(c.clone(), p.clone()),
            P::Null(c, n) => Expr::IsNull { column: c.clone(), negated: *n },
            P::And(ps) => Expr::and(ps.iter().map(|p| p.expr()).collect()),
            P::Or(ps) => Expr::or(ps.iter().map(|p| p.expr()).collect()),
            P::Not(p) => Expr::not(p.expr()),
        }
    }
    fn eval(&self, f: &dyn Fn(&str) -> Val) -> Option<bool> {
        match self {
            P::True => Some(true),
            P::False => Some(false),
            P::Cmp(c, op, l) => cmp(&f(c), &l.0).map(|o| holds(*op, o)),
            P::Between(c, a, b, i) => {
                let v = f(c);
                let (x, y) = (cmp(&v, &a.0), cmp(&v, &b.0));
                and3([x.map(|o| holds(if *i { 5 } else { 4 }, o)), y.map(|o| holds(if *i { 3 } else { 2 }, o))].into_iter())
            }
            P::In(c, ls) => {
                let v = f(c);
                if v == Val::Null {
                    return None;
                }
                and3(ls.iter().map(|l| cmp(&v, &l.0).map(|o| !holds(0, o)))).map(|b| !b)
            }
            P::Starts(c, p) => match f(c) {
                Val::Text(s) => Some(s.starts_with(p.as_str())),
                _ => None,
            },
            P::Null(c, n) => Some((f(c) == Val::Null) != *n),
            P::And(ps) => and3(ps.iter().map(|p| p.eval(f))),
            P::Or(ps) => and3(ps.iter().map(|p| p.eval(f).map(|b| !b))).map(|b| !b),
            P::Not(p) => p.eval(f).map(|b| !b),
        }
    }
    /// refers to a column outside the key
    fn looks_at_value(&self) -> bool {
        match self {
            P::True | P::False => false,
            P::Cmp(c, ..) | P::Between(c, ..) | P::In(c, _) | P::Starts(c, _) | P::Null(c, _) => c == "v",
            P::And(ps) | P::Or(ps) => ps.iter().any(|p| p.looks_at_value()),
            P::Not(p) => p.looks_at_value(),
        }
    }
    fn lit(rng: &mut Rng, k: Kind, col: &str) -> Lit {
        let text = col == "b" || (col == "id" && k == Kind::Str);
        let narrow = col == "id" && k == Kind::Int;
        if col == "id" && k == Kind::Real {
            let x = *rng.pick(crate::vp_mem::REALS);
            return if rng.chance(1, 12) { Lit(Val::Null, ScalarValue::Float64(None)) } else { Lit(Val::Real(x), ScalarValue::Float64(Some(x))) };
        }
        if rng.chance(1, 12) {
            // a null of the column's own type
            return Lit(Val::Null, if text { ScalarValue::Utf8(None) } else if narrow { ScalarValue::Int32(None) } else { ScalarValue::Int64(None) });
        }
        if text {
            let s = *rng.pick(&["", "a", "aa", "ab", "b", "ba", "c", "é", "\u{0}", "\u{10ffff}"]);
            return Lit(Val::Text(s.into()), ScalarValue::from(s));
        }
        let x = *rng.pick(&[-7i64, -1, 0, 1, 2, 3, 4, 5, 6, 100, i32::MIN as i64, i32::MAX as i64]);
        if narrow && rng.chance(3, 4) {
            return Lit(Val::Int(x), ScalarValue::from(x as i32));
        }
        Lit(Val::Int(x), ScalarValue::from(x))
    }
    fn random(rng: &mut Rng, k: Kind, depth: usize, value: bool) -> P {
        if depth > 0 && rng.chance(1, 2) {
            let n = if rng.chance(1, 10) { 0 } else { rng.range(1, 3) };
            let kids: Vec<P> = (0..n).map(|_| P::random(rng, k, depth - 1, value)).collect();
            return match rng.below(3) {
                0 => P::Or(kids),
                1 => P::Not(Box::new(P::random(rng, k, depth - 1, value))),
                _ => P::And(kids),
            };
        }
        let mut cols: Vec<&str> = match k {
            Kind::Pair => vec!["a", "b"],
            _ => vec!["id"],
        };
        if value {
            cols.push("v");
        }
        let c = *rng.pick(&cols);
        let col = c.to_string();
        let text = c == "b" || (c == "id" && k == Kind::Str);
        match rng.below(12) {
            0 => P::True,
            1 => P::False,
            2 | 3 => P::Between(col, P::lit(rng, k, c), P::lit(rng, k, c), rng.chance(1, 2)),
            4 => P::In(col, (0..rng.below(4)).map(|_| P::lit(rng, k, c)).collect()),
            5 if text => P::Starts(col, rng.pick(&["", "a", "aa", "b", "é", "\u{10ffff}"]).to_string()),
            6 => P::Null(col, rng.chance(1, 2)),
            _ => P::Cmp(col, rng.below(6), P::lit(rng, k, c)),
        }
    }
}
/// what a scan must deliver, as printed cells per row
fn wanted(k: Kind, st: &State, p: &P, cols: &[usize], limit: Option<usize>) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    for (r, v) in st {
        if p.eval(&|c: &str| cell(k, *r, *v, c)) == Some(true) {
            let all = k.cells(*r, *v);
            out.push(cols.iter().map(|i| all[*i].clone()).collect());
        }
    }
    out.truncate(limit.unwrap_or(usize::MAX));
    out
}
fn rows_of(b: &RecordBatch) -> Result<Vec<Vec<String>>, String> {
    let mut out = vec![vec![]; b.num_rows()];
    for c in b.columns() {
        for (i, row) in out.iter_mut().enumerate() {
            let v = ScalarValue::try_from_array(c, i).map_err(|e| e.to_string())?;
            row.push(match v {
                ScalarValue::Int32(x) => format!("{:?}", x.map(typed_arrow_dyn::DynCell::I32)),
                ScalarValue::Int64(x) => format!("{:?}", x.map(typed_arrow_dyn::DynCell::I64)),
                ScalarValue::Utf8(x) => format!("{:?}", x.map(typed_arrow_dyn::DynCell::Str)),
                ScalarValue::Float64(x) => format!("{:?}", x.map(typed_arrow_dyn::DynCell::F64)),
                other => format!("{other:?}"),
            });
        }
    }
    Ok(out)
}
struct Ask {
    p: P,
    cols: Vec<usize>,
    schema: Option<SchemaRef>,
    limit: Option<usize>,
}
impl Ask {
    fn random(rng: &mut Rng, k: Kind, value: bool) -> Ask {
        let n = k.schema().fields().len();
        let p = if rng.chance(1, 4) { P::True } else { P::random(rng, k, 2, value) };
        let mut cols: Vec<usize> = (0..n).collect();
        let mut schema = None;
        if rng.chance(1, 2) {
            rng.shuffle(&mut cols);
            cols.truncate(rng.range(1, n as u64) as usize);
            schema = Some(Arc::new(Schema::new(cols.iter().map(|i| k.schema().field(*i).clone()).collect::<Vec<_>>())));
        }
        let limit = rng.chance(1, 3).then(|| rng.below(5));
        Ask { p, cols, schema, limit }
    }
    async fn check<'a>(&self, what: &str, k: Kind, st: &State, b: ScanBuilder<'a, InMemoryFs, NoopExecutor>, c: &mut Case) -> Result<(), String> {
        let mut b = b.filter(self.p.expr());
        if let Some(s) = &self.schema {
            b = b.projection(s.clone());
        }
        if let Some(n) = self.limit {
            b = b.limit(n);
        }
        let ask = format!("{what}: filter {:?}, columns {:?}, limit {:?}", self.p, self.schema.as_ref().map(|_| &self.cols), self.limit);
        c.log(ask.clone());
        let batches = b.collect().await.map_err(|e| format!("{ask}: {e:?}"))?;
        let mut got = vec![];
        for x in &batches {
            got.extend(rows_of(x)?);
        }
        let want = wanted(k, st, &self.p, &self.cols, self.limit);
        if !want.is_empty() && want.len() < st.len() {
            c.nontrivial();
        }
        vp_ensure!(got == want, "{ask}: got {got:?} instead of {want:?}");
        Ok(())
    }
}
async fn flush(db: &Db, k: Kind, id: u64) -> Result<bool, String> {
    let inner = db.inner();
    if inner.num_immutable_segments() == 0 {
        return Ok(false);
    }
    let fs: Arc<dyn fusio::DynFs> = Arc::clone(&inner.fs);
    let cfg = Arc::new(SsTableConfig::new(k.schema(), fs, Path::from("sst")));
    inner.flush_immutables_with_descriptor(cfg, SsTableDescriptor::new(SsTableId::new(id), 0)).await.map_err(|e| format!("flush: {e:?}"))?;
    Ok(true)
}
fn run(rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let k = Kind::random(rng);
    let n = k.n().min(8);
    let seal = *rng.pick(&[1usize, 2, 3, 1000]);
    c.log(format!("{k:?}, sealing after {seal} batches"));
    block_on(async {
        let db = open(k, seal).await;
        let mut st = State::new();
        // rows written since the last flush, and rows in tables, per key
        let mut fresh: BTreeMap<usize, usize> = BTreeMap::new();
        let mut stored: BTreeMap<usize, usize> = BTreeMap::new();
        let mut snaps: Vec<(TxSnapshot, State)> = Vec::new();
        let mut tables = 0u64;
        // the very first commit has timestamp 0 and is visible to snapshots taken before it (noted in DESIGN.md): make it first
        db.ingest(k.batch(&[(0, Some(0))])).await.map_err(|e| format!("ingest: {e:?}"))?;
        st.insert(0, Some(0));
        fresh.insert(0, 1);
        for _ in 0..rng.range(3, 14) {
            let mut rows: BTreeMap<usize, Option<i64>> = BTreeMap::new();
            for _ in 0..rng.range(1, 4) {
                rows.insert(rng.below(n), rng.chance(5, 6).then(|| rng.range(0, 6) as i64));
            }
            let list: Vec<(usize, Option<i64>)> = rows.into_iter().collect();
            match rng.below(10) {
                0..=2 => {
                    c.log(format!("ingest {list:?}"));
                    db.ingest(k.batch(&list)).await.map_err(|e| format!("ingest: {e:?}"))?;
                    for (r, v) in &list {
                        st.insert(*r, *v);
                        *fresh.entry(*r).or_default() += 1;
                    }
                }
                3 | 4 => {
                    let tomb: Vec<bool> = list.iter().map(|_| rng.chance(1, 2)).collect();
                    c.log(format!("ingest {list:?} with tombstones {tomb:?}"));
                    db.ingest_with_tombstones(k.batch(&list), tomb.clone()).await.map_err(|e| format!("ingest: {e:?}"))?;
                    for ((r, v), t) in list.iter().zip(tomb) {
                        if t {
                            st.remove(r);
                        } else {
                            st.insert(*r, *v);
                            *fresh.entry(*r).or_default() += 1;
                        }
                    }
                }
                5 | 6 => {
                    let mut tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
                    let mut next = st.clone();
                    let mut what = String::new();
                    for (r, v) in &list {
                        if rng.chance(1, 3) {
                            tx.delete(k.key(*r)).map_err(|e| format!("{e:?}"))?;
                            next.remove(r);
                            what += &format!(" delete #{r}");
                        } else {
                            tx.upsert(k.row(*r, *v)).map_err(|e| format!("{e:?}"))?;
                            next.insert(*r, *v);
                            what += &format!(" upsert #{r}={v:?}");
                        }
                    }
                    c.log(format!("transaction{what}"));
                    let ask = Ask::random(rng, k, stored.values().all(|n| *n < 2));
                    ask.check("scan of the transaction", k, &next, tx.scan(), c).await?;
                    if rng.chance(1, 3) {
                        c.log("dropped");
                    } else {
                        tx.commit().await.map_err(|e| format!("commit: {e:?}"))?;
                        c.log("committed");
                        for (r, _) in &list {
                            if next.contains_key(r) {
                                *fresh.entry(*r).or_default() += 1;
                            }
                        }
                        st = next;
                    }
                }
                7 => {
                    c.log("snapshot");
                    snaps.push((db.begin_snapshot().await.map_err(|e| format!("{e:?}"))?, st.clone()));
                }
                8 => db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?,
                _ => {
                    // a flush takes sealed segments only; counting everything written so far is on the safe side
                    tables += 1;
                    if flush(&db, k, tables).await? {
                        c.log("flush");
                        for (r, n) in std::mem::take(&mut fresh) {
                            *stored.entry(r).or_default() += n;
                        }
                        // known findings C09/C19: a snapshot does not see what is flushed after it was taken
                        snaps.clear();
                    }
                }
            }
            // known finding c26_stored_versions: predicates on value columns over several stored versions of a key
            let value = stored.values().all(|n| *n < 2);
            for _ in 0..2 {
                let ask = Ask::random(rng, k, value);
                ask.check("scan", k, &st, db.scan(), c).await?;
            }
            if !snaps.is_empty() {
                let (s, old) = rng.pick(&snaps);
                let ask = Ask::random(rng, k, value);
                ask.check("scan of a snapshot", k, old, s.scan(&db), c).await?;
            }
        }
        Ok(())
    })
}
#[test]
fn c26_scan() {
    cases("c26_scan", 150, run);
}
async fn put(db: &Db, k: Kind, r: usize, v: i64) -> Result<(), String> {
    db.ingest(k.batch(&[(r, Some(v))])).await.map_err(|e| format!("ingest: {e:?}"))
}
async fn ask_all(db: &Db, k: Kind, p: P) -> Result<Vec<Vec<String>>, String> {
    let _ = k;
    let mut got = vec![];
    for b in db.scan().filter(p.expr()).collect().await.map_err(|e| format!("scan: {e:?}"))? {
        got.extend(rows_of(&b)?);
    }
    Ok(got)
}
/// known finding: a predicate on a value column is applied to stored rows before their versions are merged
#[test]
fn c26_stored_versions() {
    cases("c26_stored_versions", 5, |rng, c| {
        let k = Kind::random(rng);
        let r = rng.below(k.n().min(8));
        c.log(format!("{k:?}: write key #{r} = 1, seal, flush; write key #{r} = 2, seal, flush; scan where v = 1"));
        c.nontrivial();
        block_on(async {
            let db = open(k, 1).await;
            for (i, v) in [1, 2].into_iter().enumerate() {
                put(&db, k, r, v).await?;
                db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?;
                vp_ensure!(flush(&db, k, i as u64 + 1).await?, "nothing was flushed");
            }
            let all = ask_all(&db, k, P::True).await?;
            vp_ensure!(all == vec![k.cells(r, Some(2))], "without a predicate: {all:?}");
            let got = ask_all(&db, k, P::Cmp("v".into(), 0, Lit(Val::Int(1), ScalarValue::from(1i64)))).await?;
            vp_ensure!(got.is_empty(), "a replaced version that meets the predicate was delivered: {got:?}");
            Ok(())
        })
    });
}
/// known finding: rows flushed after a snapshot was taken are in neither of the places the snapshot reads
#[test]
fn c26_flushed_snapshot() {
    cases("c26_flushed_snapshot", 5, |rng, c| {
        let k = Kind::random(rng);
        let r = rng.below(k.n().min(8));
        c.log(format!("{k:?}: write key #{r} = 1, seal, take a snapshot, flush, scan the snapshot"));
        c.nontrivial();
        block_on(async {
            let db = open(k, 1).await;
            put(&db, k, r, 1).await?;
            db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?;
            let s = db.begin_snapshot().await.map_err(|e| format!("{e:?}"))?;
            vp_ensure!(flush(&db, k, 1).await?, "nothing was flushed");
            let mut got = vec![];
            for b in s.scan(&db).collect().await.map_err(|e| format!("scan: {e:?}"))? {
                got.extend(rows_of(&b)?);
            }
            vp_ensure!(got == vec![k.cells(r, Some(1))], "a snapshot does not see rows flushed after it was taken: {got:?}");
            Ok(())
        })
    });
}
