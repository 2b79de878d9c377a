//@attach src/inmem/mutable/memtable.rs
//! C22: the figures the sealing policies read are those of the writes since the last seal.
use super::*;
use crate::{vp_ensure, vp_mem::Kind, vp_util::cases};

#[test]
fn figures() {
    cases("c22::figures", 300, |rng, c| {
        let kind = Kind::random(rng);
        let mem = kind.mem(64);
        let (mut batches, mut rows, mut replaced) = (0usize, 0u64, 0u64);
        let mut keys = std::collections::BTreeSet::new();
        let mut bytes = 0usize;
        let mut ts = 1u64;
        for _ in 0..1 + rng.below(12) {
            let mut grown = false;
            match rng.below(8) {
                0 => {
                    mem.seal_now().map_err(|e| format!("seal: {e:?}"))?;
                    c.log("seal");
                    (batches, rows, replaced, bytes) = (0, 0, 0, 0);
                    keys.clear();
                }
                k => {
                    let mut ranks: Vec<usize> = (0..kind.n()).collect();
                    rng.shuffle(&mut ranks);
                    ranks.truncate(1 + rng.below(4));
                    ts += 1;
                    let del = k < 3;
                    c.log(format!("{} {ranks:?} at {ts}", if del { "delete" } else { "insert" }));
                    if del {
                        mem.insert_delete_batch(kind.delete_batch(&ranks.iter().map(|r| (*r, ts)).collect::<Vec<_>>())).map_err(|e| format!("delete: {e:?}"))?;
                    } else {
                        mem.insert_batch(kind.batch(&ranks.iter().map(|r| (*r, Some(*r as i64))).collect::<Vec<_>>()), Timestamp::new(ts)).map_err(|e| format!("insert: {e:?}"))?;
                    }
                    batches += 1;
                    for r in ranks {
                        rows += 1;
                        if keys.insert(r) { grown = true } else { replaced += 1 }
                    }
                    c.nontrivial();
                }
            }
            let s = mem.build_stats(None);
            vp_ensure!(s.dyn_batches == Some(batches), "{:?} batches reported, {batches} written", s.dyn_batches);
            vp_ensure!(s.entries == keys.len() && s.inserts == rows && s.replaces == replaced, "{s:?}, but {} keys, {rows} rows, {replaced} replacements", keys.len());
            vp_ensure!(if grown { s.approx_key_bytes >= bytes } else { s.approx_key_bytes == bytes }, "{} key bytes reported after {bytes}, new keys: {grown}", s.approx_key_bytes);
            bytes = s.approx_key_bytes;
        }
        Ok(())
    });
}
