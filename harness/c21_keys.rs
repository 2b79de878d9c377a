//@attach src/mode/mod.rs
//! C21: keys are exactly the declared columns of a row; declarations are validated and read back as written.
use std::collections::{BTreeSet, HashMap};

use arrow_array::*;
use typed_arrow_dyn::DynCell;

use super::*;
use crate::{
    extractor::row_from_batch,
    schema::SchemaBuilder,
    vp_ensure,
    vp_util::{Case, Rng, cases},
};

type Cell = Option<DynCell>;

const TYPES: &[DataType] = &[
    DataType::Boolean,
    DataType::Int32,
    DataType::Int64,
    DataType::UInt32,
    DataType::UInt64,
    DataType::Float32,
    DataType::Float64,
    DataType::Utf8,
    DataType::Binary,
    DataType::LargeUtf8,
    DataType::LargeBinary,
    DataType::FixedSizeBinary(2),
];
/// types that cannot be part of a key
const UNSUPPORTED: &[DataType] = &[DataType::Int8, DataType::Int16, DataType::UInt8, DataType::UInt16, DataType::Date32, DataType::Float16, DataType::Null];
const NAMES: &[&str] = &["id", "a", "b", "a,b", "a\"b", "[x]", "x y", "é", "\\", "ID", "'q'", "1", "true"];

fn cell(rng: &mut Rng, t: &DataType) -> DynCell {
    match t {
        DataType::Boolean => DynCell::Bool(rng.chance(1, 2)),
        DataType::Int32 => DynCell::I32(rng.u64ish() as i32),
        DataType::Int64 => DynCell::I64(rng.u64ish() as i64),
        DataType::UInt32 => DynCell::U32(rng.u64ish() as u32),
        DataType::UInt64 => DynCell::U64(rng.u64ish()),
        DataType::Float32 => DynCell::F32(rng.range(0, 9) as f32 - 4.5),
        DataType::Float64 => DynCell::F64(rng.range(0, 9) as f64 - 4.5),
        DataType::Utf8 | DataType::LargeUtf8 => DynCell::Str((0..rng.below(4)).map(|_| *rng.pick(&['a', 'b', 'é'])).collect()),
        DataType::FixedSizeBinary(n) => DynCell::Bin((0..*n).map(|_| rng.next() as u8).collect()),
        _ => DynCell::Bin((0..rng.below(4)).map(|_| rng.next() as u8).collect()),
    }
}
macro_rules! arr {
    ($v:expr, $a:ty, $p:path) => {
        Arc::new(<$a>::from($v.iter().map(|c| match c { Some($p(x)) => Some(x.clone()), _ => None }).collect::<Vec<_>>())) as ArrayRef
    };
}
fn array(t: &DataType, v: &[Cell]) -> ArrayRef {
    let bin = || v.iter().map(|c| match c { Some(DynCell::Bin(x)) => Some(x.clone()), _ => None });
    match t {
        DataType::Boolean => arr!(v, BooleanArray, DynCell::Bool),
        DataType::Int32 => arr!(v, Int32Array, DynCell::I32),
        DataType::Int64 => arr!(v, Int64Array, DynCell::I64),
        DataType::UInt32 => arr!(v, UInt32Array, DynCell::U32),
        DataType::UInt64 => arr!(v, UInt64Array, DynCell::U64),
        DataType::Float32 => arr!(v, Float32Array, DynCell::F32),
        DataType::Float64 => arr!(v, Float64Array, DynCell::F64),
        DataType::Utf8 => arr!(v, StringArray, DynCell::Str),
        DataType::LargeUtf8 => arr!(v, LargeStringArray, DynCell::Str),
        DataType::Binary => Arc::new(bin().collect::<BinaryArray>()),
        DataType::LargeBinary => Arc::new(bin().collect::<LargeBinaryArray>()),
        DataType::FixedSizeBinary(n) => Arc::new(FixedSizeBinaryArray::try_from_sparse_iter_with_size(bin(), *n).unwrap()),
        other => arrow_array::new_null_array(other, v.len()),
    }
}
fn show(row: &[Cell]) -> String {
    format!("{row:?}")
}
struct Table {
    schema: SchemaRef,
    cols: Vec<Vec<Cell>>,
    n: usize,
}
impl Table {
    fn random(rng: &mut Rng, types: &[DataType], nulls: bool) -> Table {
        let w = 1 + rng.below(5);
        let n = rng.below(6);
        let mut names: Vec<&str> = NAMES.to_vec();
        rng.shuffle(&mut names);
        let mut fields = Vec::new();
        let mut cols = Vec::new();
        for i in 0..w {
            let t = rng.pick(types).clone();
            let nullable = nulls && rng.chance(1, 2);
            cols.push((0..n).map(|_| if nullable && rng.chance(1, 4) { None } else { Some(cell(rng, &t)) }).collect());
            fields.push(Field::new(names[i], t, nullable));
        }
        Table { schema: Arc::new(Schema::new(fields)), cols, n }
    }
    fn batch(&self) -> RecordBatch {
        let arrays = self.cols.iter().zip(self.schema.fields()).map(|(c, f)| array(f.data_type(), c)).collect();
        RecordBatch::try_new_with_options(self.schema.clone(), arrays, &RecordBatchOptions::new().with_row_count(Some(self.n))).expect("batch")
    }
    fn key(&self, cols: &[usize], row: usize) -> Vec<Cell> {
        cols.iter().map(|c| self.cols[*c][row].clone()).collect()
    }
}
/// the batch with the commit timestamp column after its own
fn with_commit_ts(b: &RecordBatch) -> RecordBatch {
    let mut f: Vec<Field> = b.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
    f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
    let mut c = b.columns().to_vec();
    c.push(Arc::new(UInt64Array::from_iter_values((0..b.num_rows()).map(|i| 1000 + i as u64))));
    RecordBatch::try_new(Arc::new(Schema::new(f)), c).expect("batch")
}
fn choose(rng: &mut Rng, w: usize) -> Vec<usize> {
    let mut c: Vec<usize> = (0..w).collect();
    rng.shuffle(&mut c);
    c.truncate(1 + rng.below(w.min(3)));
    c
}
fn check_keys(p: &dyn KeyProjection, b: &RecordBatch, rows: &[usize], want: &[Vec<Cell>], what: &str) -> Result<(), String> {
    let got = p.project_view(b, rows);
    let bad = want.iter().any(|r| r.iter().any(|c| c.is_none()));
    if bad {
        vp_ensure!(got.is_err(), "{what}: a null key component was accepted in rows {rows:?}");
        return Ok(());
    }
    let got = got.map_err(|e| format!("{what}: keys of rows {rows:?} refused: {e}"))?;
    vp_ensure!(got.len() == want.len(), "{what}: {} keys for {} rows", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let owned = g.to_owned();
        let cells: Vec<Cell> = owned.as_row().cells().to_vec();
        vp_ensure!(show(&cells) == show(w), "{what}: key of row {} is {}, expected {}", rows[i], show(&cells), show(w));
    }
    Ok(())
}

#[test]
fn keys_are_the_declared_columns() {
    cases("c21::keys_are_the_declared_columns", 1500, |rng, c| {
        let nulls = rng.chance(1, 3);
        let t = Table::random(rng, TYPES, nulls);
        let w = t.schema.fields().len();
        let cols = choose(rng, w);
        c.log(format!("schema {:?}; key columns {cols:?}; rows {:?}", t.schema, t.cols));
        if t.n > 0 {
            c.nontrivial();
        }
        let proj: Arc<dyn KeyProjection> = projection_for_columns(t.schema.clone(), cols.clone()).map_err(|e| format!("declaration refused: {e}"))?.into();
        vp_ensure!(proj.key_indices() == cols, "key indices {:?}", proj.key_indices());
        let ks = proj.key_schema();
        let want_fields: Vec<&Field> = cols.iter().map(|i| t.schema.field(*i)).collect();
        vp_ensure!(ks.fields().iter().map(|f| f.as_ref()).collect::<Vec<_>>() == want_fields, "key schema {ks:?}");
        let b = t.batch();
        let mut rows: Vec<usize> = (0..rng.below(5)).filter(|_| t.n > 0).map(|_| rng.below(t.n.max(1))).collect();
        let want: Vec<Vec<Cell>> = rows.iter().map(|r| t.key(&cols, *r)).collect();
        check_keys(&*proj, &b, &rows, &want, "data batch")?;
        check_keys(&*proj, &with_commit_ts(&b), &rows, &want, "data batch with commit timestamps")?;
        // delete batches carry the key columns only, in key order, and the commit timestamp
        let ds = build_delete_schema(&ks);
        let dproj = projection_for_columns(ds.clone(), (0..cols.len()).collect()).map_err(|e| format!("delete projection refused: {e}"))?;
        let mut arrays: Vec<ArrayRef> = cols.iter().map(|i| b.column(*i).clone()).collect();
        arrays.push(Arc::new(UInt64Array::from_iter_values((0..t.n).map(|i| i as u64))));
        let db = RecordBatch::try_new(ds, arrays).map_err(|e| format!("delete schema does not hold the key columns and the commit timestamp: {e}"))?;
        check_keys(&*dproj, &db, &rows, &want, "delete batch")?;
        // the key columns as a batch of the key schema
        let kproj = projection_for_columns(ks.clone(), (0..cols.len()).collect()).map_err(|e| format!("key projection refused: {e}"))?;
        let kb = RecordBatch::try_new(ks, cols.iter().map(|i| b.column(*i).clone()).collect()).map_err(|e| format!("key schema: {e}"))?;
        check_keys(&*kproj, &kb, &rows, &want, "key batch")?;
        // rows beyond the batch
        rows.push(t.n);
        vp_ensure!(proj.project_view(&b, &rows).is_err(), "a row beyond the batch was accepted");
        Ok(())
    });
}

#[test]
fn foreign_batches_are_refused() {
    cases("c21::foreign_batches_are_refused", 600, |rng, c| {
        let t = Table::random(rng, TYPES, false);
        let w = t.schema.fields().len();
        let cols = choose(rng, w);
        let proj = projection_for_columns(t.schema.clone(), cols.clone()).map_err(|e| format!("declaration refused: {e}"))?;
        let b = t.batch();
        let mut f: Vec<Field> = t.schema.fields().iter().map(|f| f.as_ref().clone()).collect();
        let mut a = b.columns().to_vec();
        let what = match rng.below(7) {
            0 => {
                f.push(Field::new(MVCC_COMMIT_COL, DataType::Int64, false));
                a.push(Arc::new(Int64Array::from(vec![1; t.n])));
                "commit timestamps of another type"
            }
            1 => {
                f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, true));
                a.push(Arc::new(UInt64Array::from(vec![1; t.n])));
                "nullable commit timestamps"
            }
            2 => {
                f.push(Field::new("extra", DataType::UInt64, false));
                a.push(Arc::new(UInt64Array::from(vec![1; t.n])));
                "a further column"
            }
            3 => {
                f.insert(0, Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
                a.insert(0, Arc::new(UInt64Array::from(vec![1; t.n])));
                "commit timestamps before the columns"
            }
            4 => {
                f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
                a.push(Arc::new(UInt64Array::from(vec![1; t.n])));
                let k = rng.below(w);
                f[k] = f[k].clone().with_name("renamed");
                "another column name"
            }
            5 => {
                let k = rng.below(w);
                f[k] = f[k].clone().with_nullable(true);
                "another nullability"
            }
            _ => {
                let k = rng.below(w);
                f.remove(k);
                a.remove(k);
                "a column less"
            }
        };
        c.log(format!("{:?} against a batch with {what}", t.schema));
        c.nontrivial();
        let s = Arc::new(Schema::new(f));
        vp_ensure!(proj.validate_schema(&s).is_err(), "a schema with {what} was accepted");
        let o = RecordBatch::try_new_with_options(s, a, &RecordBatchOptions::new().with_row_count(Some(t.n))).map_err(|e| format!("fixture: {e}"))?;
        vp_ensure!(proj.project_view(&o, &[]).is_err(), "keys were taken from a batch with {what}");
        vp_ensure!(proj.validate_schema(&t.schema).is_ok() && proj.validate_schema(&with_commit_ts(&b).schema()).is_ok(), "the declared schema was refused");
        Ok(())
    });
}

fn keyed(cfg: Result<DynModeConfig, KeyExtractError>, schema: &SchemaRef, want: &Option<Vec<usize>>, what: &str) -> Result<(), String> {
    match (cfg, want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(w)) => Err(format!("{what}: key columns {w:?} refused: {e}")),
        (Ok(cfg), None) => Err(format!("{what}: accepted with key columns {:?}", cfg.extractor.key_indices())),
        (Ok(cfg), Some(w)) => {
            vp_ensure!(cfg.extractor.key_indices() == w, "{what}: key columns {:?}, expected {w:?}", cfg.extractor.key_indices());
            vp_ensure!(cfg.schema.fields() == schema.fields(), "{what}: the schema changed");
            let names: Vec<String> = w.iter().map(|i| schema.field(*i).name().clone()).collect();
            let def = table_definition(&cfg, "t");
            vp_ensure!(def.primary_key_columns == names && def.name == "t", "{what}: table definition {:?}", def);
            let ks = cfg.extractor.key_schema();
            let (s, d, _, _) = cfg.build().map_err(|e| format!("{what}: build failed: {e}"))?;
            vp_ensure!(s.fields() == schema.fields(), "{what}: built schema {s:?}");
            vp_ensure!(
                d.fields().len() == w.len() + 1
                    && d.fields().iter().take(w.len()).eq(ks.fields().iter())
                    && d.field(w.len()).name() == MVCC_COMMIT_COL
                    && d.field(w.len()).data_type() == &DataType::UInt64,
                "{what}: delete schema {d:?}"
            );
            Ok(())
        }
    }
}
fn supported(s: &SchemaRef, c: &[usize]) -> bool {
    !c.is_empty() && c.iter().all(|i| *i < s.fields().len() && TYPES.iter().any(|t| t == s.field(*i).data_type()))
}
fn want(s: &SchemaRef, c: &[usize]) -> Option<Vec<usize>> {
    supported(s, c).then(|| c.to_vec())
}

#[test]
fn declarations() {
    cases("c21::declarations", 2500, |rng, c| {
        let mut types = TYPES.to_vec();
        types.extend_from_slice(UNSUPPORTED);
        let tys = if rng.chance(2, 3) { TYPES } else { &types[..] };
        let t = Table::random(rng, tys, true);
        let s = t.schema.clone();
        let w = s.fields().len();
        let mut cols = choose(rng, w);
        if rng.chance(1, 10) {
            cols.push(w + rng.below(2));
        }
        if rng.chance(1, 20) {
            cols.clear();
        }
        c.log(format!("schema {s:?}; key columns {cols:?}"));
        c.nontrivial();
        let name = |i: usize| if i < w { s.field(i).name().clone() } else { "no such column".to_string() };
        let names: Vec<String> = cols.iter().map(|i| name(*i)).collect();
        // by index
        match projection_for_columns(s.clone(), cols.clone()) {
            Ok(_) => vp_ensure!(supported(&s, &cols), "key columns {cols:?} were accepted"),
            Err(e) => vp_ensure!(!supported(&s, &cols), "key columns {cols:?} were refused: {e}"),
        }
        if cols.len() == 1 {
            keyed(DynModeConfig::from_key_col(s.clone(), cols[0]), &s, &want(&s, &cols), "from_key_col")?;
            keyed(DynModeConfig::from_key_name(s.clone(), &names[0]), &s, &want(&s, &cols), "from_key_name")?;
        }
        // by the builder, in its forms
        let b = SchemaBuilder::from_schema(s.clone());
        let b = match rng.below(3) {
            0 => b.composite_key(names.clone()),
            1 => names.iter().fold(b, |b, n| b.add_key_part(n.as_str())),
            _ => match names.first() {
                Some(n) => names[1..].iter().fold(b.primary_key("replaced").primary_key(n.as_str()), |b, n| b.add_key_part(n.as_str())),
                None => b.composite_key(Vec::<String>::new()),
            },
        };
        keyed(b.clone().build(), &s, &want(&s, &cols), "SchemaBuilder")?;
        let m = b.with_metadata().build();
        let written = m.as_ref().ok().map(|m| m.schema());
        keyed(m, &s, &want(&s, &cols), "SchemaBuilder::with_metadata")?;
        if let Some(ws) = written {
            c.log(format!("metadata {:?}", ws.metadata()));
            keyed(DynModeConfig::from_schema(ws.clone()), &s, &want(&s, &cols), "the declaration written to the metadata")?;
            keyed(DynModeConfig::from_metadata(ws), &s, &want(&s, &cols), "the declaration written to the metadata")?;
        }
        Ok(())
    });
}

#[test]
fn markers() {
    cases("c21::markers", 2000, |rng, c| {
        let t = Table::random(rng, TYPES, true);
        let w = t.schema.fields().len();
        let cols = choose(rng, w);
        // ordinals in the order of `cols`, not necessarily dense
        let mut ords: BTreeSet<u32> = BTreeSet::new();
        while ords.len() < cols.len() {
            ords.insert(if rng.chance(1, 2) { rng.below(12) as u32 } else { rng.u64ish() as u32 });
        }
        let ords: Vec<u32> = ords.into_iter().collect();
        let bare = rng.chance(1, 5);
        let mut f: Vec<Field> = t.schema.fields().iter().map(|f| f.as_ref().clone()).collect();
        for (k, i) in cols.iter().enumerate() {
            let v = if bare && (k == 0 || rng.chance(1, 2)) { rng.pick(&["true", "TRUE", "True", "yes", "YES", "Yes"]).to_string() } else { ords[k].to_string() };
            let v = if rng.chance(1, 4) { format!(" {v} ") } else { v };
            f[*i].set_metadata(HashMap::from([("tonbo.key".to_string(), v), ("other".to_string(), "1".to_string())]));
        }
        for (i, f) in f.iter_mut().enumerate() {
            if !cols.contains(&i) && rng.chance(1, 3) {
                f.set_metadata(HashMap::from([("tonbo.key".to_string(), rng.pick(&["false", "no", "", "-1"]).to_string()), ("comment".to_string(), "x".to_string())]));
            }
        }
        let mut md = HashMap::new();
        if rng.chance(1, 2) {
            md.insert("tonbo.keys".to_string(), t.schema.field(rng.below(w)).name().clone());
        }
        let s: SchemaRef = Arc::new(Schema::new_with_metadata(f, md));
        c.log(format!("schema {s:?}; expected key columns {cols:?}"));
        c.nontrivial();
        // several markers need ordinals
        let expect = if bare && cols.len() > 1 { None } else { want(&s, &cols) };
        keyed(DynModeConfig::from_metadata(s.clone()), &s, &expect, "field markers")?;
        keyed(DynModeConfig::from_schema(s.clone()), &s, &expect, "field markers")?;
        // without markers and without a list there is no key
        let plain = Arc::new(Schema::new(t.schema.fields().clone()));
        vp_ensure!(DynModeConfig::from_schema(plain).is_err(), "a schema without a declaration was accepted");
        // a single bare name
        let k = rng.below(w);
        let one: Vec<usize> = (0..w).filter(|i| ["id", "a", "b", "ID", "x y", "é"].contains(&t.schema.field(*i).name().as_str()) && *i == k).collect();
        if !one.is_empty() {
            let s = Arc::new(Schema::new_with_metadata(t.schema.fields().clone(), HashMap::from([("tonbo.keys".to_string(), t.schema.field(k).name().clone())])));
            keyed(DynModeConfig::from_schema(s.clone()), &s, &want(&s, &one), "tonbo.keys with one name")?;
        }
        Ok(())
    });
}

#[test]
fn rows_hold_the_user_columns() {
    cases("c21::rows_hold_the_user_columns", 800, |rng, c: &mut Case| {
        let t = Table::random(rng, &TYPES[..9], true);
        let b = t.batch();
        c.log(format!("schema {:?}; rows {:?}", t.schema, t.cols));
        if t.n > 0 {
            c.nontrivial();
        }
        for r in 0..t.n {
            let want: Vec<Cell> = t.cols.iter().map(|x| x[r].clone()).collect();
            for b in [&b, &with_commit_ts(&b)] {
                let got = row_from_batch(b, r).map_err(|e| format!("row {r}: {e}"))?;
                vp_ensure!(show(&got.0) == show(&want), "row {r} is {}, expected {}", show(&got.0), show(&want));
            }
        }
        vp_ensure!(row_from_batch(&b, t.n).is_err(), "a row beyond the batch was read");
        Ok(())
    });
}

#[test]
fn fingerprints() {
    cases("c21::fingerprints", 400, |rng, c| {
        let t = Table::random(rng, TYPES, true);
        c.log(format!("{:?}", t.schema));
        c.nontrivial();
        let md = |rng: &mut Rng| {
            let mut e: Vec<(String, String)> = (0..6).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
            rng.shuffle(&mut e);
            e.into_iter().collect::<HashMap<_, _>>()
        };
        let (m1, m2) = (md(rng), md(rng));
        let s1: SchemaRef = Arc::new(Schema::new_with_metadata(t.schema.fields().clone(), m1));
        let s2: SchemaRef = Arc::new(Schema::new_with_metadata(t.schema.fields().clone(), m2));
        vp_ensure!(fingerprint_schema(&s1) == fingerprint_schema(&s2), "the same schema has two fingerprints");
        let mut f: Vec<Field> = t.schema.fields().iter().map(|f| f.as_ref().clone()).collect();
        let k = rng.below(f.len());
        f[k] = if rng.chance(1, 2) { f[k].clone().with_nullable(!f[k].is_nullable()) } else { f[k].clone().with_name("renamed") };
        let s3: SchemaRef = Arc::new(Schema::new_with_metadata(f, s1.metadata().clone()));
        vp_ensure!(fingerprint_schema(&s1) != fingerprint_schema(&s3), "two schemas share a fingerprint");
        Ok(())
    });
}
