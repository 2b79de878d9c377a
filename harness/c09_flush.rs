//@attach src/transaction/mod.rs
//! C09 on the whole crate: a conflicting commit is detected wherever its version has gone since.
use std::sync::Arc;

use fusio::{executor::NoopExecutor, mem::fs::InMemoryFs};

use super::*;
use crate::{
    db::DB,
    inmem::policy::BatchesThreshold,
    mode::DynModeConfig,
    vp_ensure,
    vp_mem::Kind,
    vp_util::{block_on, cases},
};

async fn open(k: Kind) -> DB<InMemoryFs, NoopExecutor> {
    let extractor = crate::extractor::projection_for_columns(k.schema(), k.key_cols()).expect("extractor");
    let config = DynModeConfig::new(k.schema(), extractor).expect("config");
    DB::new_with_policy(config, Arc::new(NoopExecutor), Arc::new(BatchesThreshold { batches: 1 })).await.expect("db")
}
/// first committer wins, for keys in the mutable buffer and in sealed segments
#[test]
fn c09_transactions() {
    cases("c09_transactions", 80, |rng, c| {
        let k = Kind::random(rng);
        let n = k.n().min(6);
        c.log(format!("{k:?}"));
        block_on(async {
            let db = open(k).await;
            // each open transaction: the keys it will write, and the keys committed since it began
            let mut open: Vec<(Transaction<InMemoryFs, NoopExecutor>, std::collections::BTreeSet<usize>, std::collections::BTreeSet<usize>)> = Vec::new();
            // the very first commit has timestamp 0 and is visible to snapshots taken before it (noted in DESIGN.md): make it first
            let mut first = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            first.upsert(k.row(0, Some(0))).map_err(|e| format!("{e:?}"))?;
            first.commit().await.map_err(|e| format!("{e:?}"))?;
            for _ in 0..rng.range(4, 14) {
                match rng.below(4) {
                    0 | 1 => {
                        c.log(format!("begin (now {} open)", open.len() + 1));
                        open.push((db.begin_transaction().await.map_err(|e| format!("{e:?}"))?, Default::default(), Default::default()));
                    }
                    2 => db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?,
                    _ if open.is_empty() => {}
                    _ => {
                        let i = rng.below(open.len());
                        let (mut tx, mut keys, since) = open.remove(i);
                        for _ in 0..rng.range(1, 2) {
                            let r = rng.below(n);
                            keys.insert(r);
                            if rng.chance(1, 3) {
                                tx.delete(k.key(r)).map_err(|e| format!("{e:?}"))?;
                            } else {
                                tx.upsert(k.row(r, Some(1))).map_err(|e| format!("{e:?}"))?;
                            }
                        }
                        let clash = keys.iter().any(|r| since.contains(r));
                        let got = tx.commit().await;
                        c.log(format!("commit {i} writing {keys:?}, written since it began {since:?}: {got:?}"));
                        match got {
                            Ok(()) => {
                                vp_ensure!(!clash, "a conflicting transaction was committed");
                                for o in &mut open {
                                    o.2.extend(keys.iter().copied());
                                }
                            }
                            Err(TransactionCommitError::WriteConflict(key)) => {
                                c.nontrivial();
                                vp_ensure!(clash && since.contains(&k.rank(&key)?), "conflict blamed on {key:?}");
                            }
                            Err(e) => return Err(format!("commit: {e:?}")),
                        }
                    }
                }
            }
            Ok(())
        })
    });
}
/// known finding: a conflicting version that was flushed to a table in between is not looked at
#[test]
fn c09_flushed() {
    cases("c09_flushed", 5, |rng, c| {
        let k = Kind::random(rng);
        let r = rng.below(k.n());
        c.log(format!("{k:?}: T1 begins; T2 writes key #{r} and commits; seal, flush; T1 writes key #{r} and commits"));
        c.nontrivial();
        block_on(async {
            let db = open(k).await;
            let mut first = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            first.upsert(k.row(0, Some(0))).map_err(|e| format!("{e:?}"))?;
            first.commit().await.map_err(|e| format!("{e:?}"))?;
            let mut t1 = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            let mut t2 = db.begin_transaction().await.map_err(|e| format!("{e:?}"))?;
            t2.upsert(k.row(r, Some(1))).map_err(|e| format!("{e:?}"))?;
            t2.commit().await.map_err(|e| format!("{e:?}"))?;
            db.inner().maybe_seal_after_insert().map_err(|e| format!("{e:?}"))?;
            let fs: Arc<dyn fusio::DynFs> = Arc::new(InMemoryFs::new());
            let cfg = Arc::new(crate::ondisk::sstable::SsTableConfig::new(k.schema(), fs, fusio::path::Path::from("sst")));
            let flushed = crate::compaction::MinorCompactor::new(1, 0, 9).maybe_compact(db.inner(), cfg).await.map_err(|e| format!("{e:?}"))?;
            vp_ensure!(flushed.is_some(), "nothing was flushed");
            t1.upsert(k.row(r, Some(2))).map_err(|e| format!("{e:?}"))?;
            let got = t1.commit().await;
            vp_ensure!(got.is_err(), "conflict with a flushed version was missed");
            Ok(())
        })
    });
}
