//@attach src/transaction/mod.rs
//! C19: staged state is the last staged operation per key; the overlay scan and the commit payloads show exactly it.
use std::collections::BTreeMap as Model;

use arrow_schema::Schema;

use super::*;
use crate::{
    vp_ensure,
    vp_mem::Kind,
    vp_util::{Case, Rng, cases},
};

fn cells(row: &DynRow) -> Vec<String> {
    row.0.iter().map(|c| format!("{c:?}")).collect()
}
fn val(rng: &mut Rng) -> Option<i64> {
    if rng.chance(1, 5) { None } else { Some(rng.range(0, 6) as i64) }
}
type Staged = Model<usize, Option<Option<i64>>>;
fn history(c: &mut Case, rng: &mut Rng, k: Kind, n: usize, snap: u64) -> Result<(StagedMutations, Staged), String> {
    let mut s = StagedMutations::new(Timestamp::new(snap));
    let mut m = Staged::new();
    let span = rng.range(1, k.n().min(40) as u64) as usize;
    for _ in 0..n {
        let r = rng.below(span);
        if rng.chance(2, 3) {
            let v = val(rng);
            c.log(format!("upsert key #{r} = {v:?}"));
            s.upsert(k.key(r), k.row(r, v));
            m.insert(r, Some(v));
        } else {
            c.log(format!("delete key #{r}"));
            s.delete(k.key(r));
            m.insert(r, None);
        }
        check_staged(&s, &m, k, snap)?;
    }
    Ok((s, m))
}
fn check_staged(s: &StagedMutations, m: &Staged, k: Kind, snap: u64) -> Result<(), String> {
    vp_ensure!(s.snapshot_ts().get() == snap, "snapshot timestamp changed to {}", s.snapshot_ts().get());
    vp_ensure!(s.len() == m.len() && s.is_empty() == m.is_empty(), "{} staged entries instead of {}", s.len(), m.len());
    for r in 0..k.n().min(41) {
        match (s.get(&k.key(r)), m.get(&r)) {
            (None, None) | (Some(DynMutation::Delete(())), Some(None)) => {}
            (Some(DynMutation::Upsert(row)), Some(Some(v))) => vp_ensure!(cells(row) == k.cells(r, *v), "staged key #{r} is {:?}", cells(row)),
            (g, w) => return Err(format!("staged key #{r} is {g:?}, last operation {w:?}")),
        }
    }
    let order: Vec<usize> = s.iter().map(|(key, _)| k.rank(key)).collect::<Result<_, _>>()?;
    vp_ensure!(order == m.keys().copied().collect::<Vec<_>>(), "entries iterate as {order:?}");
    let order: Vec<usize> = s.entries().keys().map(|key| k.rank(key)).collect::<Result<_, _>>()?;
    vp_ensure!(order == m.keys().copied().collect::<Vec<_>>(), "entries are {order:?}");
    Ok(())
}
fn check_scan(c: &mut Case, rng: &mut Rng, s: &StagedMutations, m: &Staged, k: Kind) -> Result<(), String> {
    let schema = k.schema();
    let n = schema.fields().len();
    // no target, the same schema, or some of its columns in some order
    let cols: Option<Vec<usize>> = match rng.below(3) {
        0 => None,
        1 => Some((0..n).collect()),
        _ => {
            let mut all: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut all);
            all.truncate(rng.range(1, n as u64) as usize);
            Some(all)
        }
    };
    let ts = rng.u64ish();
    let target = cols.as_ref().map(|cs| std::sync::Arc::new(Schema::new(cs.iter().map(|i| schema.field(*i).clone()).collect::<Vec<_>>())));
    c.log(format!("scan at {ts}, columns {cols:?}"));
    let scan = TransactionScan::new(s.entries(), &schema, Timestamp::new(ts), target.as_ref()).map_err(|e| format!("{e:?}"))?;
    // keep the scan alive: raw rows borrow from it
    let mut scan = scan;
    let mut want = m.iter();
    loop {
        let got = scan.next();
        match (got, want.next()) {
            (None, None) => break,
            (Some(Ok(TransactionScanEntry::Tombstone(v))), Some((r, None))) => {
                vp_ensure!(v.key().to_owned() == k.key(*r) && v.timestamp().get() == ts, "tombstone {:?}@{} for key #{r}", v.key(), v.timestamp().get());
            }
            (Some(Ok(TransactionScanEntry::Row((v, raw)))), Some((r, Some(x)))) => {
                vp_ensure!(v.key().to_owned() == k.key(*r) && v.timestamp().get() == ts, "row {:?}@{} for key #{r}", v.key(), v.timestamp().get());
                let all = k.cells(*r, *x);
                let want: Vec<String> = match &cols {
                    None => all,
                    Some(cs) => cs.iter().map(|i| all[*i].clone()).collect(),
                };
                let got = raw.into_owned().map_err(|e| format!("{e:?}"))?;
                vp_ensure!(cells(&got) == want, "row of key #{r} shown as {:?} instead of {want:?}", cells(&got));
                c.nontrivial();
            }
            (g, w) => return Err(format!("scan yields {g:?} where the staged entry is {w:?}")),
        }
    }
    Ok(())
}
#[test]
fn c19_staging_and_overlay() {
    cases("c19_staging_and_overlay", 400, |rng, c| {
        let k = Kind::random(rng);
        let n = rng.below(30);
        let snap = rng.u64ish();
        let (s, m) = history(c, rng, k, n, snap)?;
        check_scan(c, rng, &s, &m, k)?;
        check_scan(c, rng, &s, &m, k)?;
        Ok(())
    });
}
#[test]
fn c19_rows_stay_valid() {
    // raw rows handed out earlier stay readable while the scan goes on
    cases("c19_rows_stay_valid", 40, |rng, c| {
        let k = Kind::random(rng);
        let (s, m) = history(c, rng, k, 40, 7)?;
        let schema = k.schema();
        let mut scan = TransactionScan::new(s.entries(), &schema, Timestamp::new(9), None).map_err(|e| format!("{e:?}"))?;
        let mut held = Vec::new();
        for e in scan.by_ref() {
            held.push(e.map_err(|e| format!("{e:?}"))?);
        }
        vp_ensure!(held.len() == m.len(), "{} entries instead of {}", held.len(), m.len());
        for (e, (r, x)) in held.into_iter().zip(m.iter()) {
            match (e, x) {
                (TransactionScanEntry::Row((_, raw)), Some(v)) => {
                    c.nontrivial();
                    k.row_matches(raw, *r, *v)?
                }
                (TransactionScanEntry::Tombstone(_), None) => {}
                (e, x) => return Err(format!("{e:?} for {x:?}")),
            }
        }
        Ok(())
    });
}
#[test]
fn c19_payloads() {
    cases("c19_payloads", 300, |rng, c| {
        let k = Kind::random(rng);
        let n = rng.below(25);
        let (s, m) = history(c, rng, k, n, 3)?;
        let (rows, keys) = s.into_mutations();
        let ups: Vec<(usize, Option<i64>)> = m.iter().filter_map(|(r, v)| v.map(|v| (*r, v))).collect();
        let dels: Vec<usize> = m.iter().filter(|(_, v)| v.is_none()).map(|(r, _)| *r).collect();
        let got: Vec<Vec<String>> = rows.iter().map(cells).collect();
        let want: Vec<Vec<String>> = ups.iter().map(|(r, v)| k.cells(*r, *v)).collect();
        vp_ensure!(got == want, "upserts to commit {got:?} instead of {want:?}");
        let got: Vec<usize> = keys.iter().map(|x| k.rank(x)).collect::<Result<_, _>>()?;
        vp_ensure!(got == dels, "deletes to commit {got:?} instead of {dels:?}");
        let batch = build_record_batch(&k.schema(), rows).map_err(|e| format!("{e:?}"))?;
        vp_ensure!(batch == k.batch(&ups), "upsert batch {batch:?}");
        let ts = rng.u64ish();
        let batch = build_delete_batch(&k.delete_schema(), k.key_cols().len(), keys, Timestamp::new(ts)).map_err(|e| format!("{e:?}"))?;
        let want: Vec<(usize, u64)> = dels.iter().map(|r| (*r, ts)).collect();
        vp_ensure!(batch == k.delete_batch(&want), "delete batch {batch:?} instead of {want:?}");
        if !dels.is_empty() && !ups.is_empty() {
            c.nontrivial();
        }
        Ok(())
    });
}
#[test]
fn c19_bad_delete_keys() {
    // a key of the wrong shape or with a null component is refused, wherever it stands
    cases("c19_bad_delete_keys", 150, |rng, c| {
        let k = Kind::random(rng);
        let n = rng.range(1, 6) as usize;
        let bad = rng.below(n);
        let how = rng.below(3);
        let comps = k.key_cols().len();
        let keys: Vec<KeyOwned> = (0..n)
            .map(|i| {
                if i != bad {
                    return k.key(rng.below(k.n()));
                }
                match how {
                    0 => KeyOwned::tuple(vec![k.key(0), KeyOwned::from("x")]),
                    1 if comps > 1 => KeyOwned::from("x"),
                    _ => {
                        let fields = k.extractor().key_schema().fields().iter().map(|f| f.as_ref().clone().with_nullable(true)).collect::<Vec<_>>();
                        let mut row = k.key(0).as_row().cells().iter().cloned().collect::<Vec<_>>();
                        row[rng.below(comps)] = None;
                        KeyOwned::new(DynRowOwned::from_dyn_row(fields.into(), DynRow(row)).expect("null key"))
                    }
                }
            })
            .collect();
        c.log(format!("{keys:?}"));
        c.nontrivial();
        let r = build_delete_batch(&k.delete_schema(), comps, keys, Timestamp::new(5));
        vp_ensure!(r.is_err(), "delete batch built from a bad key: {r:?}");
        Ok(())
    });
}
