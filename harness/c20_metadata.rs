//@attach src/ondisk/metadata.rs
//! C20: the metadata cache answers with what was stored for the path, and holds no more than its capacity.
use std::collections::VecDeque as Dq;

use fusio::path::Path;
use parquet::file::metadata::{FileMetaData, ParquetMetaData};

use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, cases},
};

#[test]
fn metadata_cache_answers_for_its_path() {
    let root = Arc::new(parquet::schema::types::Type::group_type_builder("schema").build().unwrap());
    let descr = Arc::new(parquet::schema::types::SchemaDescriptor::new(root));
    cases("c20_metadata_cache", 1000, |rng, c: &mut Case| {
        let cap = rng.below(5);
        let mut cache = ParquetMetadataCache::new(cap);
        let cap = cap.max(1);
        let mut model: Dq<(usize, Arc<ParquetMetaData>)> = Dq::new();
        for step in 0..rng.range(3, 25) {
            let k = rng.below(7);
            let path = |k: usize| Path::parse(format!("sst/{k}")).unwrap();
            if rng.chance(1, 3) {
                c.log(format!("capacity {cap}: get {k}"));
            } else {
                let v = Arc::new(ParquetMetaData::new(FileMetaData::new(1, step as i64, None, None, descr.clone(), None), vec![]));
                c.log(format!("capacity {cap}: put {k} = {step}"));
                cache.insert(&path(k), v.clone());
                match model.iter_mut().find(|x| x.0 == k) {
                    Some(x) => x.1 = v,
                    None => {
                        model.push_back((k, v));
                        if model.len() > cap { model.pop_front(); c.nontrivial(); }
                    }
                }
            }
            let mut held = 0;
            for k in 0..7 {
                let got = cache.get(&path(k)).map(|m| m.file_metadata().num_rows());
                held += got.is_some() as usize;
                let want = model.iter().find(|x| x.0 == k).map(|x| x.1.file_metadata().num_rows());
                vp_ensure!(got == want, "path {k}: cached {got:?}, expected {want:?}");
            }
            vp_ensure!(held <= cap, "{held} entries in a cache of {cap}");
        }
        Ok(())
    });
}
