//@attach src/ondisk/bloom.rs
//! C20: several ranges read at once are the bytes of each; bloom filters and the cache of filters answer for their own key only.
use std::collections::VecDeque as Dq;

use arrow_array::{Int64Array, RecordBatch};
use arrow_schema::{DataType, Field, Schema};
use aisle::AsyncBloomFilterProvider;
use fusio::{
    DynFs,
    executor::tokio::TokioExecutor,
    fs::OpenOptions,
    impls::mem::fs::InMemoryFs,
    path::Path,
};
use parquet::{
    arrow::ArrowWriter,
    file::{
        metadata::ParquetMetaDataReader,
        properties::{EnabledStatistics, WriterProperties},
    },
};

use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
async fn store(fs: &dyn DynFs, path: &Path, data: &[u8]) -> BatchedAsyncReader<TokioExecutor> {
    let mut f = fs.open_options(path, OpenOptions::default().create(true).write(true).truncate(true)).await.unwrap();
    let (r, _) = fusio::Write::write_all(&mut f, data.to_vec()).await;
    r.unwrap();
    fusio::Write::close(&mut f).await.unwrap();
    let f = fs.open(path).await.unwrap();
    BatchedAsyncReader::new(f, data.len() as u64, TokioExecutor::default()).await.unwrap()
}

#[test]
fn ranges_read_together_are_the_ranges_read_alone() {
    let rt = rt();
    cases("c20_ranges", 400, |rng, c: &mut Case| {
        let big = rng.chance(1, 2);
        let len = if big { rng.range(70_000, 400_000) } else { rng.range(1, 300) };
        let mut noise = Rng::new(rng.next());
        let data: Vec<u8> = (0..len).map(|_| noise.next() as u8).collect();
        let mut ranges: Vec<Range<u64>> = vec![];
        for _ in 0..rng.below(9) {
            let near = ranges.last().map(|r: &Range<u64>| (r.start, r.end));
            let start = match (rng.below(8), near) {
                (0, Some((_, e))) => e,                                     // adjacent
                (1, Some((s, e))) => s + (e - s) / 2,                       // overlapping
                (2, Some((s, _))) => s,                                     // same start
                (3, Some((_, e))) => (e + 64 * 1024 + rng.range(0, 2)).saturating_sub(1), // around the gap that is read through
                (4, Some((s, _))) => s.saturating_sub(rng.range(0, 40)),
                _ => rng.range(0, len),
            }
            .min(len);
            let end = match rng.below(6) {
                0 => start,
                1 => near.map(|n| n.1).unwrap_or(0).max(start),
                2 => start + rng.range(0, len),
                _ => start + rng.range(0, 40),
            }
            .min(len);
            ranges.push(start..end);
        }
        let past = rng.chance(1, 10);
        if past {
            let k = rng.below(ranges.len() + 1);
            ranges.insert(k, rng.range(0, len)..len + rng.range(1, 5));
        }
        c.log(format!("file of {len} bytes, ranges {ranges:?}"));
        if ranges.len() > 1 { c.nontrivial(); }
        rt.block_on(async {
            let fs = InMemoryFs::new();
            let path = Path::parse("f").unwrap();
            let mut r = store(&fs, &path, &data).await;
            let got = r.get_byte_ranges(ranges.clone()).await;
            if past {
                vp_ensure!(got.is_err(), "a range past the end of the file was answered");
                return Ok(());
            }
            let got = got.map_err(|e| format!("reading ranges inside the file failed: {e}"))?;
            vp_ensure!(got.len() == ranges.len(), "{} answers to {} ranges", got.len(), ranges.len());
            for (i, (g, w)) in got.iter().zip(&ranges).enumerate() {
                vp_ensure!(g.as_ref() == &data[w.start as usize..w.end as usize], "range {i} ({w:?}) came back as other bytes");
                let alone = r.get_bytes(w.clone()).await.map_err(|e| format!("reading {w:?} alone failed: {e}"))?;
                vp_ensure!(alone == *g, "range {i} ({w:?}) differs from the same range read alone");
            }
            Ok(())
        })
    });
}

/// a parquet file with `groups` row groups and two columns, whose filters all differ; column 1 has filters only if `both`
fn parquet(groups: usize, salt: i64, both: bool) -> Vec<u8> {
    let schema = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, false), Field::new("b", DataType::Int64, false)]));
    let mut props = WriterProperties::builder().set_statistics_enabled(EnabledStatistics::Chunk).set_column_bloom_filter_enabled("a".into(), true).set_column_bloom_filter_ndv("a".into(), 16);
    if both { props = props.set_column_bloom_filter_enabled("b".into(), true).set_column_bloom_filter_ndv("b".into(), 16); }
    let props = props.build();
    let mut out = vec![];
    let mut w = ArrowWriter::try_new(&mut out, schema.clone(), Some(props)).unwrap();
    for g in 0..groups as i64 {
        let a: Vec<i64> = (0..8).map(|i| salt * 1_000_000 + g * 1000 + i).collect();
        let b: Vec<i64> = (0..8).map(|i| salt * 1_000_000 + g * 1000 + 500 + i).collect();
        w.write(&RecordBatch::try_new(schema.clone(), vec![Arc::new(Int64Array::from(a)), Arc::new(Int64Array::from(b))]).unwrap()).unwrap();
        w.flush().unwrap();
    }
    w.close().unwrap();
    out
}
fn meta(data: &[u8]) -> ParquetMetaData {
    ParquetMetaDataReader::new().parse_and_finish(&Bytes::copy_from_slice(data)).unwrap()
}
fn truth(data: &[u8], m: &ParquetMetaData, g: usize, col: usize) -> Option<String> {
    let cc = m.row_group(g).column(col);
    let (o, l) = (cc.bloom_filter_offset()? as usize, cc.bloom_filter_length()? as usize);
    Some(format!("{:?}", Sbbf::from_bytes(&data[o..o + l]).unwrap()))
}

#[test]
fn filters_are_those_of_the_file() {
    let rt = rt();
    cases("c20_filters", 40, |rng, c: &mut Case| {
        rt.block_on(async {
            let fs = InMemoryFs::new();
            let cap = rng.range(1, 6) as usize;
            let cache = Arc::new(TokioExecutor::mutex(BloomFilterCache::new(cap)));
            let mut files = vec![];
            for f in 0..2 {
                let groups = rng.range(1, 4) as usize;
                let data = parquet(groups, 1 + f as i64, rng.chance(2, 3));
                let path = Path::parse(format!("sst/{f}")).unwrap();
                let reader = store(&fs, &path, &data).await;
                let m = meta(&data);
                let p = SstBloomFilterProvider::<TokioExecutor>::new(path, Arc::new(m.clone()), reader, cache.clone());
                files.push((data, m, p, groups));
            }
            for _ in 0..rng.range(2, 8) {
                let f = rng.below(2);
                let (data, m, p, groups) = &mut files[f];
                if rng.chance(1, 2) {
                    let (g, col) = (rng.below(*groups), rng.below(2));
                    c.log(format!("cache of {cap}: file {f} group {g} column {col}"));
                    let got = p.bloom_filter(g, col).await.map(|x| format!("{x:?}"));
                    vp_ensure!(got == truth(data, m, g, col), "the filter of file {f} group {g} column {col} is another one");
                } else {
                    let req: Vec<(usize, usize)> = (0..rng.below(6)).map(|_| (rng.below(*groups), rng.below(2))).collect();
                    c.log(format!("cache of {cap}: file {f} batch {req:?}"));
                    if req.len() > 1 { c.nontrivial(); }
                    let got = p.bloom_filters_batch(&req).await;
                    for k in got.keys() {
                        vp_ensure!(req.contains(k), "a filter nobody asked for: {k:?}");
                    }
                    for k in &req {
                        vp_ensure!(got.get(k).map(|x| format!("{x:?}")) == truth(data, m, k.0, k.1), "in a batch, the filter of file {f} at {k:?} is another one");
                    }
                }
            }
            Ok(())
        })
    });
}

#[test]
fn filter_cache_answers_for_its_key() {
    let data = parquet(12, 7, false);
    let m = meta(&data);
    let pool: Vec<Sbbf> = (0..12)
        .map(|g| {
            let cc = m.row_group(g).column(0);
            let (o, l) = (cc.bloom_filter_offset().unwrap() as usize, cc.bloom_filter_length().unwrap() as usize);
            Sbbf::from_bytes(&data[o..o + l]).unwrap()
        })
        .collect();
    let names: Vec<String> = pool.iter().map(|f| format!("{f:?}")).collect();
    cases("c20_bloom_cache", 600, |rng, c: &mut Case| {
        let cap = rng.below(5);
        let mut cache = BloomFilterCache::new(cap);
        let cap = cap.max(1);
        let mut model: Dq<((usize, usize, usize), usize)> = Dq::new();
        for _ in 0..rng.range(3, 25) {
            let k = (rng.below(2), rng.below(2), rng.below(2));
            let key = |k: (usize, usize, usize)| BloomCacheKey { path: Path::parse(format!("p{}", k.0)).unwrap(), row_group: k.1, column: k.2 };
            if rng.chance(1, 3) {
                c.log(format!("capacity {cap}: get {k:?}"));
            } else {
                let v = rng.below(pool.len());
                c.log(format!("capacity {cap}: put {k:?} = filter {v}"));
                cache.insert(key(k), pool[v].clone());
                match model.iter_mut().find(|x| x.0 == k) {
                    Some(x) => x.1 = v,
                    None => {
                        model.push_back((k, v));
                        if model.len() > cap { model.pop_front(); c.nontrivial(); }
                    }
                }
            }
            let mut held = 0;
            for k in (0..8).map(|b| (b & 1, b >> 1 & 1, b >> 2)) {
                let got = cache.get(&key(k)).map(|f| format!("{f:?}"));
                held += got.is_some() as usize;
                let want = model.iter().find(|x| x.0 == k).map(|x| names[x.1].clone());
                vp_ensure!(got == want, "key {k:?}: cached {}, expected {}", got.is_some(), want.is_some());
            }
            vp_ensure!(held <= cap, "{held} entries in a cache of {cap}");
        }
        Ok(())
    });
}
