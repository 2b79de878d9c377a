//@attach src/ondisk/sstable.rs
//! C12: tables written from sealed segments hold exactly those versions; scans see the right ones.
use std::{collections::BTreeSet, ops::Bound};

use crate::{
    vp_mem::{Kind, visible},
    vp_sst::{check_contents, check_scan, config, segment, write},
    vp_util::{block_on, cases},
};

fn read_points(m: &crate::vp_mem::Versions, rng: &mut crate::vp_util::Rng, n: usize) -> Vec<u64> {
    let mut t: Vec<u64> = m.keys().map(|k| k.1.0).flat_map(|x| [x, x.saturating_sub(1), x.saturating_add(1)]).collect();
    t.extend([0, u64::MAX]);
    t.sort_unstable();
    t.dedup();
    rng.shuffle(&mut t);
    t.truncate(n);
    t
}

#[test]
fn c12_flush_small() {
    cases("c12_flush_small", 300, |rng, c| {
        let kind = Kind::random(rng);
        let cfg = config(kind, *rng.pick(&[1, 2, 5, 1 << 20]));
        let mut used = BTreeSet::new();
        let n = 1 + rng.below(4);
        let keys = 1 + rng.below(kind.n());
        let mut segs = vec![];
        for _ in 0..n {
            let size = 1 + rng.below(12);
            let tsmax = *rng.pick(&[2u64, 10, 1000]);
            segs.extend(segment(c, rng, kind, &mut used, keys, size, tsmax)?);
        }
        if segs.is_empty() {
            return Ok(());
        }
        if segs.len() > 1 { c.nontrivial() }
        block_on(async {
            let (t, m) = write(&cfg, 7, 0, &segs.iter().collect::<Vec<_>>()).await?;
            if t.descriptor().id().raw() != 7 || t.descriptor().level() != 0 {
                return Err(format!("descriptor names another table: {:?}", t.descriptor()));
            }
            check_contents(kind, &cfg, &t, &m).await?;
            for ts in read_points(&m, rng, 5) {
                check_scan(kind, &cfg, &t, ts, &visible(&m, ts, &Bound::Unbounded, &Bound::Unbounded)).await?;
            }
            Ok(())
        })
    });
}

#[test]
fn c12_flush_wide() {
    cases("c12_flush_wide", 12, |rng, c| {
        let kind = Kind::Wide;
        let cfg = config(kind, *rng.pick(&[100, 1500, 1 << 20]));
        let mut used = BTreeSet::new();
        let mut segs = vec![];
        for _ in 0..1 + rng.below(3) {
            let keys = *rng.pick(&[50, 3000, 6000]);
            let size = *rng.pick(&[3, 200, 2500, 9000]);
            segs.extend(segment(c, rng, kind, &mut used, keys, size, 40)?);
        }
        if segs.is_empty() {
            return Ok(());
        }
        c.nontrivial();
        block_on(async {
            let (t, m) = write(&cfg, 9, 3, &segs.iter().collect::<Vec<_>>()).await?;
            check_contents(kind, &cfg, &t, &m).await?;
            for ts in read_points(&m, rng, 3) {
                check_scan(kind, &cfg, &t, ts, &visible(&m, ts, &Bound::Unbounded, &Bound::Unbounded)).await?;
            }
            Ok(())
        })
    });
}

#[test]
fn c12_names() {
    cases("c12_names", 300, |rng, c| {
        let cfg = config(Kind::Int, 1 << 20);
        let ts: Vec<(usize, u64)> = (0..2 + rng.below(4)).map(|_| (*rng.pick(&[0usize, 1, 2, 10, 11, 1 << 20]), rng.u64ish())).collect();
        c.log(format!("{ts:?}"));
        c.nontrivial();
        let mut seen = std::collections::BTreeMap::new();
        for (level, id) in &ts {
            let (dir, data, del) = super::build_table_paths(&cfg, *level, &super::SsTableId::new(*id)).map_err(|e| format!("path: {e}"))?;
            for (p, what) in [(data, 0), (del, 1)] {
                if !p.as_ref().starts_with(dir.as_ref()) {
                    return Err(format!("table {id} of level {level} is stored at {p}, outside {dir}"));
                }
                if let Some(o) = seen.insert(p.to_string(), (*level, *id, what)) {
                    if o != (*level, *id, what) {
                        return Err(format!("{p} is shared by {o:?} and {:?}", (level, id, what)));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Without a configured key, a table is sorted by exactly the columns its delete markers name.
#[test]
fn c12_sort_columns() {
    use std::sync::Arc;

    use arrow_array::{ArrayRef, Int64Array, RecordBatch};
    use arrow_schema::{DataType, Field, Schema};
    cases("c12_sort_columns", 300, |rng, c| {
        let mut names = vec!["ID", "id", "Id", "id ", "idx", "_id", "i", "d"];
        rng.shuffle(&mut names);
        names.truncate(1 + rng.below(8));
        let mut key: Vec<usize> = (0..names.len()).collect();
        rng.shuffle(&mut key);
        key.truncate(1 + rng.below(3));
        c.log(format!("columns {names:?}, key {key:?}"));
        c.nontrivial();
        let schema = |it: &[usize]| Arc::new(Schema::new(it.iter().map(|i| Field::new(names[*i], DataType::Int64, false)).collect::<Vec<_>>()));
        let all: Vec<usize> = (0..names.len()).collect();
        let data = RecordBatch::try_new(schema(&all), all.iter().map(|i| Arc::new(Int64Array::from(vec![*i as i64])) as ArrayRef).collect()).map_err(|e| e.to_string())?;
        let mut cfg = super::SsTableConfig::clone(&config(Kind::Int, 8));
        cfg.key_extractor = None;
        let seg = super::StagedSegment { data_with_commit: data, deletes: super::DeleteSidecar::empty(&(schema(&key) as _)) };
        let got = super::resolve_data_sort_extractor(&cfg, &[seg]).map_err(|e| format!("no key: {e}"))?;
        if got.key_indices() != key {
            return Err(format!("sorted by columns {:?}", got.key_indices()));
        }
        Ok(())
    })
}
