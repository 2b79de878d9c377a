//@attach src/key/mod.rs
//! C11: key order, equality and hashing agree, for owned and borrowed keys and versions.
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::Arc,
};

use arrow_array::*;
use arrow_schema::{DataType, Field, Schema};

use super::*;
use crate::{
    mvcc::Timestamp,
    vp_ensure,
    vp_util::{Rng, cases},
};

#[derive(Clone, Debug)]
enum Col {
    Bool(Vec<bool>),
    I32(Vec<i32>),
    I64(Vec<i64>),
    U32(Vec<u32>),
    U64(Vec<u64>),
    F32(Vec<f32>),
    F64(Vec<f64>),
    Str(Vec<String>),
    LargeStr(Vec<String>),
    Bin(Vec<Vec<u8>>),
    LargeBin(Vec<Vec<u8>>),
    Fixed(Vec<Vec<u8>>),
}

fn col(rng: &mut Rng, n: usize) -> Col {
    let fs32 = [0.0f32, -0.0, 1.0, -1.0, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1.5e30];
    let fs64 = [0.0f64, -0.0, 1.0, -1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1.5e300];
    let bytes = |rng: &mut Rng| (0..rng.below(4)).map(|_| *rng.pick(&[0u8, 1, 97, 98, 127, 128, 255])).collect::<Vec<u8>>();
    let string = |rng: &mut Rng| (0..rng.below(4)).map(|_| *rng.pick(&['a', 'b', '\u{0}', 'é', '\u{10ffff}'])).collect::<String>();
    match rng.below(12) {
        0 => Col::Bool((0..n).map(|_| rng.chance(1, 2)).collect()),
        1 => Col::I32((0..n).map(|_| rng.u64ish() as i32).collect()),
        2 => Col::I64((0..n).map(|_| rng.u64ish() as i64).collect()),
        3 => Col::U32((0..n).map(|_| rng.u64ish() as u32).collect()),
        4 => Col::U64((0..n).map(|_| rng.u64ish()).collect()),
        5 => Col::F32((0..n).map(|_| *rng.pick(&fs32)).collect()),
        6 => Col::F64((0..n).map(|_| *rng.pick(&fs64)).collect()),
        7 => Col::Str((0..n).map(|_| string(rng)).collect()),
        8 => Col::LargeStr((0..n).map(|_| string(rng)).collect()),
        9 => Col::Bin((0..n).map(|_| bytes(rng)).collect()),
        10 => Col::LargeBin((0..n).map(|_| bytes(rng)).collect()),
        _ => Col::Fixed((0..n).map(|_| (0..3).map(|_| *rng.pick(&[0u8, 1, 255])).collect()).collect()),
    }
}
fn f64cmp(a: f64, b: f64) -> Ordering {
    a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
}
impl Col {
    fn array(&self) -> (DataType, ArrayRef) {
        match self.clone() {
            Col::Bool(v) => (DataType::Boolean, Arc::new(BooleanArray::from(v))),
            Col::I32(v) => (DataType::Int32, Arc::new(Int32Array::from(v))),
            Col::I64(v) => (DataType::Int64, Arc::new(Int64Array::from(v))),
            Col::U32(v) => (DataType::UInt32, Arc::new(UInt32Array::from(v))),
            Col::U64(v) => (DataType::UInt64, Arc::new(UInt64Array::from(v))),
            Col::F32(v) => (DataType::Float32, Arc::new(Float32Array::from(v))),
            Col::F64(v) => (DataType::Float64, Arc::new(Float64Array::from(v))),
            Col::Str(v) => (DataType::Utf8, Arc::new(StringArray::from(v))),
            Col::LargeStr(v) => (DataType::LargeUtf8, Arc::new(LargeStringArray::from(v))),
            Col::Bin(v) => (DataType::Binary, Arc::new(BinaryArray::from_iter_values(v))),
            Col::LargeBin(v) => (DataType::LargeBinary, Arc::new(LargeBinaryArray::from_iter_values(v))),
            Col::Fixed(v) => (DataType::FixedSizeBinary(3), Arc::new(FixedSizeBinaryArray::try_from_iter(v.into_iter()).unwrap())),
        }
    }
    /// the reference order
    fn cmp(&self, i: usize, j: usize) -> Ordering {
        match self {
            Col::Bool(v) => v[i].cmp(&v[j]),
            Col::I32(v) => v[i].cmp(&v[j]),
            Col::I64(v) => v[i].cmp(&v[j]),
            Col::U32(v) => v[i].cmp(&v[j]),
            Col::U64(v) => v[i].cmp(&v[j]),
            Col::F32(v) => f64cmp(v[i] as f64, v[j] as f64),
            Col::F64(v) => f64cmp(v[i], v[j]),
            Col::Str(v) | Col::LargeStr(v) => v[i].as_bytes().cmp(v[j].as_bytes()),
            Col::Bin(v) | Col::LargeBin(v) | Col::Fixed(v) => v[i].cmp(&v[j]),
        }
    }
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

#[test]
fn order_laws() {
    cases("c11::order_laws", 1200, |rng, c| {
        let k = 1 + rng.below(3);
        let n = 2 + rng.below(6);
        let cols: Vec<Col> = (0..k).map(|_| col(rng, n)).collect();
        c.log(format!("{cols:?}"));
        c.nontrivial();
        let (fields, arrays): (Vec<Field>, Vec<ArrayRef>) =
            cols.iter().enumerate().map(|(i, x)| { let (t, a) = x.array(); (Field::new(format!("c{i}"), t, false), a) }).unzip();
        let batch = RecordBatch::try_new(Arc::new(Schema::new(fields)), arrays).map_err(|e| format!("fixture: {e}"))?;
        let proj = crate::extractor::projection_for_columns(batch.schema(), (0..k).collect()).map_err(|e| format!("projection: {e}"))?;
        let rows = proj.project_view(&batch, &(0..n).collect::<Vec<_>>()).map_err(|e| format!("projection: {e}"))?;
        let owned: Vec<KeyOwned> = rows.iter().map(|r| r.to_owned()).collect();
        let ts: Vec<Timestamp> = (0..n).map(|_| Timestamp::new(rng.range(0, 2))).collect();
        for i in 0..n {
            for j in 0..n {
                let want = cols.iter().fold(Ordering::Equal, |o, x| o.then_with(|| x.cmp(i, j)));
                let got = [
                    rows[i].cmp(&rows[j]),
                    owned[i].cmp(&owned[j]),
                    rows[i].partial_cmp(&rows[j]).ok_or("rows incomparable")?,
                    owned[i].partial_cmp(&owned[j]).ok_or("keys incomparable")?,
                    rows[i].partial_cmp(&owned[j]).ok_or("row and key incomparable")?,
                    owned[i].partial_cmp(&rows[j]).ok_or("key and row incomparable")?,
                ];
                vp_ensure!(got.iter().all(|o| *o == want), "rows {i} and {j}: order {got:?}, expected {want:?}");
                let eq = [rows[i] == rows[j], owned[i] == owned[j], rows[i] == owned[j], owned[i] == rows[j]];
                vp_ensure!(eq.iter().all(|e| *e == (want == Ordering::Equal)), "rows {i} and {j}: equality {eq:?}, order {want:?}");
                if want == Ordering::Equal {
                    vp_ensure!(h(&rows[i]) == h(&rows[j]) && h(&owned[i]) == h(&rows[j]), "rows {i} and {j} are equal and hash differently");
                }
                let wantv = want.then(ts[j].cmp(&ts[i]));
                let (vi, vj) = (KeyTsViewRaw::new(rows[i].clone(), ts[i]), KeyTsViewRaw::new(rows[j].clone(), ts[j]));
                let (oi, oj) = (KeyTsOwned::new(owned[i].clone(), ts[i]), KeyTsOwned::new(owned[j].clone(), ts[j]));
                let gotv = [vi.cmp(&vj), oi.cmp(&oj), oi.as_raw_view().cmp(&vj), vi.partial_cmp(&vj).unwrap(), oi.partial_cmp(&oj).unwrap()];
                vp_ensure!(gotv.iter().all(|o| *o == wantv), "versions {i}@{:?} and {j}@{:?}: order {gotv:?}, expected {wantv:?}", ts[i], ts[j]);
                let eqv = [vi == vj, oi == oj];
                vp_ensure!(eqv.iter().all(|e| *e == (wantv == Ordering::Equal)), "versions {i} and {j}: equality {eqv:?}, order {wantv:?}");
                if wantv == Ordering::Equal {
                    vp_ensure!(h(&vi) == h(&vj) && h(&oi) == h(&oj), "versions {i} and {j} are equal and hash differently");
                }
            }
        }
        // prefixes order before longer keys (composite keys of different width)
        if k > 1 {
            let p1 = crate::extractor::projection_for_columns(batch.schema(), vec![0]).map_err(|e| format!("projection: {e}"))?;
            let short = p1.project_view(&batch, &[0]).map_err(|e| format!("projection: {e}"))?;
            vp_ensure!(short[0] < rows[0] && rows[0] > short[0] && short[0] != rows[0], "a key is not greater than its prefix");
        }
        Ok(())
    });
}

#[test]
fn tuple_and_serde() {
    cases("c11::tuple_and_serde", 600, |rng, c| {
        let one = |rng: &mut Rng| match rng.below(9) {
            8 => match rng.below(8) {
                0 => KeyOwned::from(i64::MIN),
                1 => KeyOwned::from(i64::MAX),
                2 => KeyOwned::from(i32::MIN),
                3 => KeyOwned::from(i32::MAX),
                4 => KeyOwned::from(u64::MAX),
                5 => KeyOwned::from(u32::MAX),
                6 => KeyOwned::from(String::from_utf8(vec![0, 34, 92, 10, 0xf4, 0x8f, 0xbf, 0xbf]).unwrap()),
                _ => KeyOwned::from(-1i64),
            },
            6 => KeyOwned::from(f64::from_bits(rng.next())),
            5 => KeyOwned::from(f32::from_bits(rng.next() as u32)),
            0 => KeyOwned::from(rng.u64ish() as i64),
            1 => KeyOwned::from(rng.u64ish()),
            2 => KeyOwned::from(rng.chance(1, 2)),
            3 => KeyOwned::from(format!("s{}", rng.below(9))),
            4 => KeyOwned::from(rng.u64ish() as i32),
            _ => KeyOwned::from((0..rng.below(5)).map(|_| rng.next() as u8).collect::<Vec<u8>>()),
        };
        let parts: Vec<KeyOwned> = (0..1 + rng.below(4)).map(|_| one(rng)).collect();
        c.log(format!("{parts:?}"));
        c.nontrivial();
        let key = KeyOwned::tuple(parts.clone());
        vp_ensure!(key.len() == parts.len(), "tuple of {} has {} components", parts.len(), key.len());
        let json = serde_json::to_string(&key).map_err(|e| format!("serialize: {e}"))?;
        let back: KeyOwned = serde_json::from_str(&json).map_err(|e| format!("deserialize: {e}"))?;
        vp_ensure!(back == key && back.cmp(&key) == Ordering::Equal && h(&back) == h(&key), "key changed by serialisation: {json}");
        // floats stored as decimal text are still read
        let old: KeyOwned = serde_json::from_str("[{\"F64\":1.5},{\"F32\":-2.25}]").map_err(|e| format!("old form: {e}"))?;
        vp_ensure!(old == KeyOwned::tuple(vec![KeyOwned::from(1.5f64), KeyOwned::from(-2.25f32)]), "old form read as {old:?}");
        let row = KeyRow::from_owned(&key).map_err(|e| format!("row: {e}"))?;
        vp_ensure!(row == key && row.to_owned() == key, "borrowed form differs");
        Ok(())
    });
}
