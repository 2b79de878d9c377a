//@attach src/transaction/mod.rs
//! C19 on the whole crate: reads inside a transaction against a model of the snapshot and the staged operations.
use std::{collections::BTreeMap as Model, sync::Arc};

use fusio::{executor::NoopExecutor, mem::fs::InMemoryFs};

use super::*;
use crate::{
    db::DB,
    inmem::policy::BatchesThreshold,
    mode::DynModeConfig,
    vp_ensure,
    vp_mem::Kind,
    vp_util::{Rng, block_on, cases},
};

type Db = DB<InMemoryFs, NoopExecutor>;
fn cells(row: &DynRow) -> Vec<String> {
    row.0.iter().map(|c| format!("{c:?}")).collect()
}
async fn open(k: Kind, batches: usize) -> Db {
    let extractor = crate::extractor::projection_for_columns(k.schema(), k.key_cols()).expect("extractor");
    let config = DynModeConfig::new(k.schema(), extractor).expect("config");
    DB::new_with_policy(config, Arc::new(NoopExecutor), Arc::new(BatchesThreshold { batches })).await.expect("db")
}
fn val(rng: &mut Rng) -> Option<i64> {
    if rng.chance(1, 5) { None } else { Some(rng.range(0, 6) as i64) }
}
#[test]
fn c19_transaction_reads() {
    cases("c19_transaction_reads", 120, |rng, c| {
        let k = Kind::random(rng);
        let per = rng.range(1, 6) as usize;
        c.log(format!("keys {k:?}, memtable sealed after {per} batches"));
        block_on(async {
            let db = open(k, per).await;
            let mut m: Model<usize, Option<i64>> = Model::new();
            // the snapshot, written by earlier transactions
            for _ in 0..rng.below(8) {
                let mut tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
                for _ in 0..rng.range(1, 4) {
                    let r = rng.below(k.n().min(6));
                    if rng.chance(2, 3) {
                        let v = val(rng);
                        c.log(format!("committed: key #{r} = {v:?}"));
                        tx.upsert(k.row(r, v)).map_err(|e| format!("{e:?}"))?;
                        m.insert(r, v);
                    } else {
                        c.log(format!("committed: delete key #{r}"));
                        tx.delete(k.key(r)).map_err(|e| format!("{e:?}"))?;
                        m.remove(&r);
                    }
                }
                tx.commit().await.map_err(|e| format!("commit: {e:?}"))?;
                if rng.chance(1, 2) {
                    c.log("seal if due");
                    db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?;
                }
            }
            c.log(format!("{} sealed segments", db.inner().num_immutable_segments()));
            if db.inner().num_immutable_segments() > 0 {
                c.nontrivial();
            }
            let mut tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            for step in 0..rng.range(1, 6) {
                for r in 0..k.n().min(6) {
                    let got = tx.get(&k.key(r)).await.map_err(|e| format!("{e:?}"))?;
                    let want = m.get(&r).map(|v| k.cells(r, *v));
                    vp_ensure!(got.as_ref().map(cells) == want, "after {step} staged operations get(#{r}) is {:?}, last written {want:?}", got.as_ref().map(cells));
                }
                let batches = tx.scan().collect().await.map_err(|e| format!("{e:?}"))?;
                let mut got = Vec::new();
                for b in &batches {
                    for i in 0..b.num_rows() {
                        got.push(cells(&row_from_batch(b, i).map_err(|e| format!("{e:?}"))?));
                    }
                }
                let want: Vec<Vec<String>> = m.iter().map(|(r, v)| k.cells(*r, *v)).collect();
                vp_ensure!(got == want, "after {step} staged operations scan shows {got:?} instead of {want:?}");
                let r = rng.below(k.n().min(6));
                if rng.chance(1, 2) {
                    let v = val(rng);
                    c.log(format!("staged: key #{r} = {v:?}"));
                    if rng.chance(1, 2) {
                        tx.upsert(k.row(r, v)).map_err(|e| format!("{e:?}"))?;
                    } else {
                        tx.upsert_batch(&k.batch(&[(r, Some(9)), (r, v)])).map_err(|e| format!("{e:?}"))?;
                    }
                    m.insert(r, v);
                } else {
                    c.log(format!("staged: delete key #{r}"));
                    tx.delete(k.key(r)).map_err(|e| format!("{e:?}"))?;
                    m.remove(&r);
                }
            }
            Ok(())
        })
    });
}

/// known finding: `get` looks at the mutable buffer and the sealed segments only, not at flushed tables
#[test]
fn c19_flushed() {
    cases("c19_flushed", 5, |rng, c| {
        let k = Kind::random(rng);
        let r = rng.below(k.n());
        c.log(format!("{k:?}: commit key #{r}, seal, flush, get"));
        c.nontrivial();
        block_on(async {
            let db = open(k, 1).await;
            let mut tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            tx.upsert(k.row(r, Some(1))).map_err(|e| format!("{e:?}"))?;
            tx.commit().await.map_err(|e| format!("{e:?}"))?;
            db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?;
            let fs: Arc<dyn fusio::DynFs> = Arc::new(InMemoryFs::new());
            let cfg = Arc::new(crate::ondisk::sstable::SsTableConfig::new(k.schema(), fs, fusio::path::Path::from("sst")));
            let flushed = crate::compaction::MinorCompactor::new(1, 0, 9).maybe_compact(db.inner(), cfg).await.map_err(|e| format!("{e:?}"))?;
            vp_ensure!(flushed.is_some(), "nothing was flushed");
            let tx = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            let got = tx.get(&k.key(r)).await.map_err(|e| format!("{e:?}"))?;
            vp_ensure!(got.is_some(), "get does not see a flushed row");
            Ok(())
        })
    });
}
