//@attach src/mode/mod.rs
//! C25: two schemas have one fingerprint exactly when they are the same schema.
use std::{collections::HashMap, sync::Arc};

use arrow_schema::{DataType, Field, Schema};

use super::*;
use crate::{vp_ensure, vp_util::{Rng, cases}};

fn meta(rng: &mut Rng) -> HashMap<String, String> {
    let mut keys = ["a", "b", "c", "tonbo.key"];
    rng.shuffle(&mut keys);
    (0..rng.below(4)).map(|i| (keys[i].to_string(), format!("{}", rng.below(2)))).collect()
}
fn ty(rng: &mut Rng, depth: usize) -> DataType {
    match rng.below(if depth == 0 { 5 } else { 7 }) {
        0 => DataType::Int64,
        1 => DataType::Int32,
        2 => DataType::Utf8,
        3 => DataType::LargeUtf8,
        4 => DataType::FixedSizeBinary(1 + rng.below(2) as i32),
        5 => DataType::List(Arc::new(field(rng, depth - 1))),
        _ => DataType::Struct((0..1 + rng.below(2)).map(|_| field(rng, depth - 1)).collect::<Vec<_>>().into()),
    }
}
fn field(rng: &mut Rng, depth: usize) -> Field {
    let name = *rng.pick(&["id", "v", "w", "\""]);
    Field::new(name, ty(rng, depth), rng.chance(1, 2)).with_metadata(if rng.chance(1, 3) { meta(rng) } else { HashMap::new() })
}
fn change(rng: &mut Rng, f: &[Field]) -> (Vec<Field>, &'static str) {
    let mut f = f.to_vec();
    let i = rng.below(f.len());
    let what = match rng.below(7) {
        0 => { rng.shuffle(&mut f); "order" }
        1 => { let n = !f[i].is_nullable(); f[i] = f[i].clone().with_nullable(n); "nullability" }
        2 => { let t = ty(rng, 1); f[i] = f[i].clone().with_data_type(t); "type" }
        3 => { let n = *rng.pick(&["id", "v", "w", "x"]); f[i] = f[i].clone().with_name(n); "name" }
        4 => { let m = meta(rng); f[i] = f[i].clone().with_metadata(m); "metadata" }
        5 => { f.remove(i); "removal" }
        _ => { let x = field(rng, 1); f.push(x); "addition" }
    };
    (f, what)
}

#[test]
fn fingerprints() {
    cases("c25::fingerprints", 1500, |rng, c| {
        let f: Vec<Field> = (0..1 + rng.below(4)).map(|_| field(rng, 2)).collect();
        let m = meta(rng);
        let (g, what) = if rng.chance(1, 5) { (f.clone(), "none") } else { change(rng, &f) };
        // the same pairs, put into a map in another order
        let mut pairs: Vec<_> = m.clone().into_iter().collect();
        rng.shuffle(&mut pairs);
        let m2: HashMap<String, String> = if rng.chance(1, 6) { meta(rng) } else { pairs.into_iter().collect() };
        let a: SchemaRef = Arc::new(Schema::new_with_metadata(f, m));
        let b: SchemaRef = Arc::new(Schema::new_with_metadata(g, m2));
        c.log(format!("change: {what}; {a:?} and {b:?}"));
        c.nontrivial();
        let (x, y) = (fingerprint_schema(&a), fingerprint_schema(&b));
        vp_ensure!(x == fingerprint_schema(&a), "one schema, two fingerprints");
        vp_ensure!((x == y) == (a == b), "schemas {} and fingerprints {}", if a == b { "equal" } else { "different" }, if x == y { "equal" } else { "different" });
        Ok(())
    });
}

/// the definition names the key's columns in the key's order and carries the schema's fingerprint
#[test]
fn definitions() {
    cases("c25::definitions", 300, |rng, c| {
        let n = 1 + rng.below(5);
        let f: Vec<Field> = (0..n).map(|i| Field::new(format!("c{i}"), if rng.chance(1, 2) { DataType::Int64 } else { DataType::Utf8 }, false)).collect();
        let s: SchemaRef = Arc::new(Schema::new(f));
        let mut cols: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut cols);
        cols.truncate(1 + rng.below(n.min(3)));
        let p = crate::extractor::projection_for_columns(s.clone(), cols.clone()).map_err(|e| format!("{e}"))?;
        let config = DynModeConfig::new(s.clone(), p).map_err(|e| format!("{e}"))?;
        let name = *rng.pick(&["", "t", " t ", "T", "a/b"]);
        c.log(format!("key columns {cols:?} of {n}, table {name:?}"));
        if cols.len() > 1 { c.nontrivial(); }
        let d = table_definition(&config, name);
        let want: Vec<String> = cols.iter().map(|i| format!("c{i}")).collect();
        vp_ensure!(d.primary_key_columns == want, "key columns {:?}", d.primary_key_columns);
        vp_ensure!(d.name == name && d.schema_fingerprint == fingerprint_schema(&s), "name or fingerprint");
        vp_ensure!(d.retention.is_none() && d.schema_version == 0, "retention or version");
        Ok(())
    });
}
