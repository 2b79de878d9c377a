//@attach src/query/stream/package.rs
//! C24: filtering, projecting, limiting and batching of merged rows, against an evaluator of its own.
use std::{cmp::Ordering, sync::Arc};

use aisle::Expr;
use arrow_array::{Array, RecordBatch, cast::AsArray, types::*};
use arrow_schema::{DataType, Field, Schema, SchemaRef, TimeUnit};
use datafusion_common::ScalarValue;
use fusio::executor::NoopExecutor;
use futures::StreamExt;
use typed_arrow_dyn::{DynCell, DynRow};

use super::PackageStream;
use crate::{
    extractor::{KeyProjection, projection_for_columns},
    inmem::mutable::memtable::DynMem,
    mvcc::Timestamp,
    query::stream::{OwnedMutableScan, ScanStream, merge::MergeStream},
    test::build_batch,
    vp_util::{Rng, block_on, cases},
};

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    Bool(bool),
    Int(i128),
    Flt(f64),
    Str(String),
    Bin(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    Bin,
    Date32,
    Time32,
    Date64,
    Time64,
    Ts(u8),
    Dur(u8),
}
/// types that compare with literals of other types
const TS: &[T] = &[T::Bool, T::I8, T::I16, T::I32, T::I64, T::U8, T::U16, T::U32, T::U64, T::F32, T::F64, T::Str, T::Bin];
/// types that compare with literals of their own type
const OWN: &[T] = &[T::Date32, T::Time32, T::Date64, T::Time64, T::Ts(0), T::Ts(1), T::Ts(2), T::Ts(3), T::Dur(0), T::Dur(1), T::Dur(2), T::Dur(3)];
const STRS: &[&str] = &["", "a", "ab", "abc", "b", "é", "éa", "\u{10ffff}"];

fn unit(u: u8) -> TimeUnit {
    [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond][u as usize]
}

impl T {
    fn arrow(self) -> DataType {
        match self {
            T::Bool => DataType::Boolean,
            T::I8 => DataType::Int8,
            T::I16 => DataType::Int16,
            T::I32 => DataType::Int32,
            T::I64 => DataType::Int64,
            T::U8 => DataType::UInt8,
            T::U16 => DataType::UInt16,
            T::U32 => DataType::UInt32,
            T::U64 => DataType::UInt64,
            T::F32 => DataType::Float32,
            T::F64 => DataType::Float64,
            T::Str => DataType::Utf8,
            T::Bin => DataType::Binary,
            T::Date32 => DataType::Date32,
            T::Time32 => DataType::Time32(TimeUnit::Millisecond),
            T::Date64 => DataType::Date64,
            T::Time64 => DataType::Time64(TimeUnit::Microsecond),
            T::Ts(u) => DataType::Timestamp(unit(u), None),
            T::Dur(u) => DataType::Duration(unit(u)),
        }
    }
    fn own(self) -> bool {
        OWN.contains(&self)
    }
    fn text(self) -> bool {
        matches!(self, T::Bool | T::Str | T::Bin)
    }
    fn range(self) -> (i128, i128) {
        match self {
            T::I8 => (i8::MIN as i128, i8::MAX as i128),
            T::I16 => (i16::MIN as i128, i16::MAX as i128),
            T::I32 | T::Date32 | T::Time32 => (i32::MIN as i128, i32::MAX as i128),
            T::I64 | T::Date64 | T::Time64 | T::Ts(_) | T::Dur(_) => (i64::MIN as i128, i64::MAX as i128),
            T::U8 => (0, u8::MAX as i128),
            T::U16 => (0, u16::MAX as i128),
            T::U32 => (0, u32::MAX as i128),
            _ => (0, u64::MAX as i128),
        }
    }
    /// values around the places where integers and floats part
    fn int(rng: &mut Rng) -> i128 {
        let p = 1i128 << *rng.pick(&[0u32, 1, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 55, 62, 63, 64]);
        let s = if rng.chance(1, 2) { 1 } else { -1 };
        match rng.below(8) {
            0 => rng.below(5) as i128 - 2,
            1 => s * (p + (1i128 << rng.below(12)) * (rng.below(5) as i128 - 2)),
            2 => s * (rng.next() as i128 >> rng.below(64)),
            3 => s * (((rng.next() as f64) as i128) + (rng.below(3) as i128 - 1)),
            _ => s * (p + rng.below(5) as i128 - 2),
        }
    }
    fn flt(rng: &mut Rng) -> f64 {
        let x = T::int(rng) as f64;
        let r = match rng.below(12) {
            0 => f64::INFINITY,
            1 => f64::NEG_INFINITY,
            2 => *rng.pick(&[5e-324, f64::MIN_POSITIVE, 1e-310, -5e-324, f64::MAX, f64::MIN, 1e30, -1e30, f64::EPSILON]),
            3 => x + 0.5,
            4 => x - 0.25,
            5 => f64::from_bits(x.to_bits().wrapping_add(1)),
            6 => f64::from_bits(x.to_bits().wrapping_sub(1)),
            7 => x / 3.0,
            8 => *rng.pick(&[0.1, 0.5, 1.5, -0.5, 2.5, 0.999]),
            _ => x,
        };
        if r.is_nan() || r == 0.0 { 0.0 } else { r }
    }
    fn value(self, rng: &mut Rng) -> V {
        match self {
            T::Bool => V::Bool(rng.chance(1, 2)),
            T::Str => V::Str((*rng.pick(STRS)).to_string()),
            T::Bin => V::Bin((0..rng.below(4)).map(|_| *rng.pick(&[0u8, 1, 127, 128, 255])).collect()),
            T::F64 => V::Flt(T::flt(rng)),
            T::F32 => V::Flt((T::flt(rng) as f32) as f64 + 0.0),
            _ => {
                let (lo, hi) = self.range();
                V::Int(match rng.below(6) {
                    0 => lo,
                    1 => hi,
                    2 => lo + rng.below(3) as i128,
                    3 => hi - rng.below(3) as i128,
                    _ => {
                        let x = T::int(rng);
                        if x < lo || x > hi { lo + (x.rem_euclid(hi - lo + 1)) } else { x }
                    }
                })
            }
        }
    }
    fn cell(self, v: &V) -> Option<DynCell> {
        Some(match (self, v) {
            (_, V::Null) => return None,
            (T::Bool, V::Bool(b)) => DynCell::Bool(*b),
            (T::I8, V::Int(x)) => DynCell::I8(*x as i8),
            (T::I16, V::Int(x)) => DynCell::I16(*x as i16),
            (T::I32 | T::Date32 | T::Time32, V::Int(x)) => DynCell::I32(*x as i32),
            (T::I64 | T::Date64 | T::Time64 | T::Ts(_) | T::Dur(_), V::Int(x)) => DynCell::I64(*x as i64),
            (T::U8, V::Int(x)) => DynCell::U8(*x as u8),
            (T::U16, V::Int(x)) => DynCell::U16(*x as u16),
            (T::U32, V::Int(x)) => DynCell::U32(*x as u32),
            (T::U64, V::Int(x)) => DynCell::U64(*x as u64),
            (T::F32, V::Flt(x)) => DynCell::F32(*x as f32),
            (T::F64, V::Flt(x)) => DynCell::F64(*x),
            (T::Str, V::Str(s)) => DynCell::Str(s.clone()),
            (T::Bin, V::Bin(b)) => DynCell::Bin(b.clone()),
            x => panic!("{x:?}"),
        })
    }
    fn scalar(self, v: &V) -> ScalarValue {
        match (self, v) {
            (_, V::Null) => ScalarValue::try_from(&self.arrow()).expect("null of a type"),
            (T::Bool, V::Bool(b)) => ScalarValue::Boolean(Some(*b)),
            (T::I8, V::Int(x)) => ScalarValue::Int8(Some(*x as i8)),
            (T::I16, V::Int(x)) => ScalarValue::Int16(Some(*x as i16)),
            (T::I32, V::Int(x)) => ScalarValue::Int32(Some(*x as i32)),
            (T::I64, V::Int(x)) => ScalarValue::Int64(Some(*x as i64)),
            (T::U8, V::Int(x)) => ScalarValue::UInt8(Some(*x as u8)),
            (T::U16, V::Int(x)) => ScalarValue::UInt16(Some(*x as u16)),
            (T::U32, V::Int(x)) => ScalarValue::UInt32(Some(*x as u32)),
            (T::U64, V::Int(x)) => ScalarValue::UInt64(Some(*x as u64)),
            (T::F32, V::Flt(x)) => ScalarValue::Float32(Some(*x as f32)),
            (T::F64, V::Flt(x)) => ScalarValue::Float64(Some(*x)),
            (T::Str, V::Str(s)) => ScalarValue::Utf8(Some(s.clone())),
            (T::Bin, V::Bin(b)) => ScalarValue::Binary(Some(b.clone())),
            (T::Date32, V::Int(x)) => ScalarValue::Date32(Some(*x as i32)),
            (T::Time32, V::Int(x)) => ScalarValue::Time32Millisecond(Some(*x as i32)),
            (T::Date64, V::Int(x)) => ScalarValue::Date64(Some(*x as i64)),
            (T::Time64, V::Int(x)) => ScalarValue::Time64Microsecond(Some(*x as i64)),
            (T::Ts(0), V::Int(x)) => ScalarValue::TimestampSecond(Some(*x as i64), None),
            (T::Ts(1), V::Int(x)) => ScalarValue::TimestampMillisecond(Some(*x as i64), None),
            (T::Ts(2), V::Int(x)) => ScalarValue::TimestampMicrosecond(Some(*x as i64), None),
            (T::Ts(_), V::Int(x)) => ScalarValue::TimestampNanosecond(Some(*x as i64), None),
            (T::Dur(0), V::Int(x)) => ScalarValue::DurationSecond(Some(*x as i64)),
            (T::Dur(1), V::Int(x)) => ScalarValue::DurationMillisecond(Some(*x as i64)),
            (T::Dur(2), V::Int(x)) => ScalarValue::DurationMicrosecond(Some(*x as i64)),
            (T::Dur(_), V::Int(x)) => ScalarValue::DurationNanosecond(Some(*x as i64)),
            x => panic!("{x:?}"),
        }
    }
}

fn read(b: &RecordBatch, col: usize, t: T, row: usize) -> V {
    let a = b.column(col);
    if a.is_null(row) {
        return V::Null;
    }
    match t {
        T::Bool => V::Bool(a.as_boolean().value(row)),
        T::I8 => V::Int(a.as_primitive::<Int8Type>().value(row) as i128),
        T::I16 => V::Int(a.as_primitive::<Int16Type>().value(row) as i128),
        T::I32 => V::Int(a.as_primitive::<Int32Type>().value(row) as i128),
        T::I64 => V::Int(a.as_primitive::<Int64Type>().value(row) as i128),
        T::U8 => V::Int(a.as_primitive::<UInt8Type>().value(row) as i128),
        T::U16 => V::Int(a.as_primitive::<UInt16Type>().value(row) as i128),
        T::U32 => V::Int(a.as_primitive::<UInt32Type>().value(row) as i128),
        T::U64 => V::Int(a.as_primitive::<UInt64Type>().value(row) as i128),
        T::F32 => V::Flt(a.as_primitive::<Float32Type>().value(row) as f64),
        T::F64 => V::Flt(a.as_primitive::<Float64Type>().value(row)),
        T::Str => V::Str(a.as_string::<i32>().value(row).to_string()),
        T::Bin => V::Bin(a.as_binary::<i32>().value(row).to_vec()),
        T::Date32 => V::Int(a.as_primitive::<Date32Type>().value(row) as i128),
        T::Time32 => V::Int(a.as_primitive::<Time32MillisecondType>().value(row) as i128),
        T::Date64 => V::Int(a.as_primitive::<Date64Type>().value(row) as i128),
        T::Time64 => V::Int(a.as_primitive::<Time64MicrosecondType>().value(row) as i128),
        T::Ts(0) => V::Int(a.as_primitive::<TimestampSecondType>().value(row) as i128),
        T::Ts(2) => V::Int(a.as_primitive::<TimestampMicrosecondType>().value(row) as i128),
        T::Ts(3) => V::Int(a.as_primitive::<TimestampNanosecondType>().value(row) as i128),
        T::Ts(_) => V::Int(a.as_primitive::<TimestampMillisecondType>().value(row) as i128),
        T::Dur(0) => V::Int(a.as_primitive::<DurationSecondType>().value(row) as i128),
        T::Dur(1) => V::Int(a.as_primitive::<DurationMillisecondType>().value(row) as i128),
        T::Dur(2) => V::Int(a.as_primitive::<DurationMicrosecondType>().value(row) as i128),
        T::Dur(_) => V::Int(a.as_primitive::<DurationNanosecondType>().value(row) as i128),
    }
}

/// an integer (|i| < 2^65) against a float, by the float's integral part
fn int_flt(i: i128, f: f64) -> Ordering {
    if f >= 1e30 {
        return Ordering::Less;
    }
    if f <= -1e30 {
        return Ordering::Greater;
    }
    let whole = f.trunc();
    match i.cmp(&(whole as i128)) {
        Ordering::Equal if f > whole => Ordering::Less,
        Ordering::Equal if f < whole => Ordering::Greater,
        o => o,
    }
}
fn cmp(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::Bool(x), V::Bool(y)) => Some(x.cmp(y)),
        (V::Int(x), V::Int(y)) => Some(x.cmp(y)),
        (V::Flt(x), V::Flt(y)) => x.partial_cmp(y),
        (V::Int(x), V::Flt(y)) => Some(int_flt(*x, *y)),
        (V::Flt(x), V::Int(y)) => Some(int_flt(*y, *x).reverse()),
        (V::Str(x), V::Str(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (V::Bin(x), V::Bin(y)) => Some(x.cmp(y)),
        _ => None,
    }
}

/// a predicate, as given to the code and as the model reads it
#[derive(Clone, Debug)]
enum P {
    Const(bool),
    /// operator: 0 eq 1 ne 2 lt 3 le 4 gt 5 ge
    Cmp(usize, usize, T, V),
    Between(usize, (T, V), (T, V), bool),
    In(usize, Vec<(T, V)>),
    Starts(usize, String),
    Null(usize, bool),
    And(Vec<P>),
    Or(Vec<P>),
    Not(Box<P>),
}
fn op_holds(op: usize, o: Ordering) -> bool {
    match op {
        0 => o == Ordering::Equal,
        1 => o != Ordering::Equal,
        2 => o == Ordering::Less,
        3 => o != Ordering::Greater,
        4 => o == Ordering::Greater,
        _ => o != Ordering::Less,
    }
}
fn and3(xs: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let v: Vec<_> = xs.collect();
    if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) }
}
impl P {
    fn expr(&self) -> Expr {
        let n = |c: &usize| format!("c{c}");
        match self {
            P::Const(true) => Expr::True,
            P::Const(false) => Expr::False,
            P::Cmp(c, op, t, v) => {
                let s = t.scalar(v);
                match op {
                    0 => Expr::eq(n(c), s),
                    1 => Expr::not_eq(n(c), s),
                    2 => Expr::lt(n(c), s),
                    3 => Expr::lt_eq(n(c), s),
                    4 => Expr::gt(n(c), s),
                    _ => Expr::gt_eq(n(c), s),
                }
            }
            P::Between(c, (t, v), (u, w), i) => Expr::between(n(c), t.scalar(v), u.scalar(w), *i),
            P::In(c, vs) => Expr::in_list(n(c), vs.iter().map(|(t, v)| t.scalar(v)).collect()),
            P::Starts(c, s) => Expr::starts_with(n(c), s.clone()),
            P::Null(c, neg) => {
                if *neg {
                    Expr::is_not_null(n(c))
                } else {
                    Expr::is_null(n(c))
                }
            }
            P::And(ps) => Expr::and(ps.iter().map(P::expr).collect()),
            P::Or(ps) => Expr::or(ps.iter().map(P::expr).collect()),
            P::Not(p) => Expr::not(p.expr()),
        }
    }
    fn eval(&self, row: &[V]) -> Option<bool> {
        match self {
            P::Const(b) => Some(*b),
            P::Cmp(c, op, _, v) => cmp(&row[*c], v).map(|o| op_holds(*op, o)),
            P::Between(c, (_, v), (_, w), i) => {
                let (lo, hi) = if *i { (5, 3) } else { (4, 2) };
                and3([cmp(&row[*c], v).map(|o| op_holds(lo, o)), cmp(&row[*c], w).map(|o| op_holds(hi, o))].into_iter())
            }
            P::In(c, vs) => {
                if row[*c] == V::Null {
                    return None;
                }
                let m: Vec<_> = vs.iter().map(|(_, v)| cmp(&row[*c], v).map(|o| o == Ordering::Equal)).collect();
                if m.contains(&Some(true)) { Some(true) } else if m.contains(&None) { None } else { Some(false) }
            }
            P::Starts(c, s) => match &row[*c] {
                V::Str(x) => Some(x.as_bytes().get(..s.len()) == Some(s.as_bytes())),
                _ => None,
            },
            P::Null(c, neg) => Some((row[*c] == V::Null) != *neg),
            P::And(ps) => and3(ps.iter().map(|p| p.eval(row))),
            P::Or(ps) => and3(ps.iter().map(|p| p.eval(row).map(|b| !b))).map(|b| !b),
            P::Not(p) => p.eval(row).map(|b| !b),
        }
    }
    fn random(rng: &mut Rng, cols: &[T], rows: &[Vec<V>], depth: usize) -> P {
        if depth > 0 && rng.chance(1, 2) {
            let n = rng.below(4);
            return match rng.below(3) {
                0 => P::And((0..n).map(|_| P::random(rng, cols, rows, depth - 1)).collect()),
                1 => P::Or((0..n).map(|_| P::random(rng, cols, rows, depth - 1)).collect()),
                _ => P::Not(Box::new(P::random(rng, cols, rows, depth - 1))),
            };
        }
        let c = rng.below(cols.len());
        let mut lit = |rng: &mut Rng| -> (T, V) {
            if rng.chance(1, 12) {
                return (if cols[c].own() { cols[c] } else { *rng.pick(TS) }, V::Null);
            }
            // often the value of some row, in another numeric type
            let near = if rows.is_empty() { V::Null } else { rng.pick(rows)[c].clone() };
            let t = if cols[c].own() || rng.chance(1, 3) { cols[c] } else { *rng.pick(TS) };
            let v = match (&near, t) {
                (V::Int(x), T::F64) => V::Flt(*x as f64 + *rng.pick(&[0.0, 0.0, 0.5, -0.5])),
                (V::Int(x), T::F32) => V::Flt((*x as f32) as f64),
                (V::Int(_), t) if t.text() => t.value(rng),
                (V::Int(x), _) => {
                    let (lo, hi) = t.range();
                    let y = *x + rng.below(3) as i128 - 1;
                    if y < lo || y > hi { t.value(rng) } else { V::Int(y) }
                }
                (V::Flt(x), T::F64) => V::Flt(*x),
                (V::Flt(x), T::F32) => V::Flt((*x as f32) as f64),
                (V::Flt(_), t) if t.text() => t.value(rng),
                (V::Flt(x), _) => {
                    let (lo, hi) = t.range();
                    let y = if x.abs() < 1e30 { x.trunc() as i128 + rng.below(3) as i128 - 1 } else { 0 };
                    if y < lo || y > hi { t.value(rng) } else { V::Int(y) }
                }
                (v, t) if t == cols[c] && *v != V::Null && rng.chance(1, 2) => v.clone(),
                _ => t.value(rng),
            };
            (t, if v == V::Flt(0.0) { V::Flt(0.0) } else { v })
        };
        match rng.below(10) {
            0 => P::Const(rng.chance(1, 2)),
            1 => P::Null(c, rng.chance(1, 2)),
            2 | 3 => P::Between(c, lit(rng), lit(rng), rng.chance(1, 2)),
            4 => P::In(c, (0..rng.below(4)).map(|_| lit(rng)).collect()),
            5 => match (0..cols.len()).find(|i| matches!(cols[*i], T::Str)) {
                Some(s) => P::Starts(s, (*rng.pick(STRS)).to_string()),
                None => P::Const(true),
            },
            _ => {
                let (t, v) = lit(rng);
                P::Cmp(c, rng.below(6), t, v)
            }
        }
    }
}

fn memtable(schema: &SchemaRef) -> DynMem {
    let ex: Arc<dyn KeyProjection> = projection_for_columns(schema.clone(), vec![0]).expect("key").into();
    let ds = Arc::new(Schema::new(vec![schema.field(0).clone()]));
    let dp: Arc<dyn KeyProjection> = projection_for_columns(ds, vec![0]).expect("delete key").into();
    DynMem::new(schema.clone(), ex, dp)
}

#[test]
fn c24_filter() {
    cases("c24_filter", 2500, |rng, c| {
        // the first column is the key, never null
        let ncol = 1 + rng.below(4);
        let mut cols: Vec<T> = (0..ncol)
            .map(|_| {
                let from = if rng.chance(1, 3) { OWN } else { TS };
                *rng.pick(from)
            })
            .collect();
        cols[0] = *rng.pick(&[T::I64, T::U64, T::I32, T::Str]);
        let schema: SchemaRef = Arc::new(Schema::new(cols.iter().enumerate().map(|(i, t)| Field::new(format!("c{i}"), t.arrow(), i > 0)).collect::<Vec<_>>()));
        let mut rows: Vec<Vec<V>> = vec![];
        for _ in 0..rng.below(10) {
            let r: Vec<V> = cols.iter().enumerate().map(|(i, t)| if i > 0 && rng.chance(1, 6) { V::Null } else { t.value(rng) }).collect();
            if !rows.iter().any(|o| o[0] == r[0]) {
                rows.push(r);
            }
        }
        c.log(format!("columns {cols:?}"));
        let mem = memtable(&schema);
        if !rows.is_empty() {
            let b = build_batch(schema.clone(), rows.iter().map(|r| DynRow(cols.iter().zip(r).map(|(t, v)| t.cell(v)).collect())).collect()).map_err(|e| format!("{e:?}"))?;
            mem.insert_batch(b, Timestamp::new(1)).map_err(|e| format!("{e:?}"))?;
        }
        rows.sort_by(|a, b| cmp(&a[0], &b[0]).expect("keys compare"));
        rows.iter().for_each(|r| c.log(format!("row {r:?}")));
        for _ in 0..8 {
            let p = if rng.chance(1, 10) { None } else { Some(P::random(rng, &cols, &rows, 3)) };
            let size = 1 + rng.below(4);
            let limit = if rng.chance(1, 3) { Some(rng.below(6)) } else { None };
            let mut out: Vec<usize> = (0..ncol).collect();
            if rng.chance(1, 2) {
                rng.shuffle(&mut out);
                out.truncate(1 + rng.below(ncol));
            }
            c.log(format!("predicate {p:?} batch size {size} limit {limit:?} columns {out:?}"));
            let result: SchemaRef = Arc::new(Schema::new(out.iter().map(|i| schema.field(*i).clone()).collect::<Vec<_>>()));
            let mut want: Vec<Vec<V>> = rows.iter().filter(|r| p.as_ref().is_none_or(|p| p.eval(r) == Some(true))).map(|r| out.iter().map(|i| r[*i].clone()).collect()).collect();
            want.truncate(limit.unwrap_or(usize::MAX));
            if p.is_some() && !want.is_empty() && want.len() < rows.len() {
                c.nontrivial();
            }
            let got = block_on(async {
                let scan = OwnedMutableScan::from_guard(mem.read(), None, Timestamp::MAX).map_err(|e| format!("{e:?}"))?;
                let m = MergeStream::from_vec(vec![ScanStream::<'_, NoopExecutor>::from(scan)], None, None).await.map_err(|e| format!("merge refused: {e}"))?;
                let s = PackageStream::with_limit(size, m, schema.clone(), result.clone(), p.as_ref().map(P::expr), limit).map_err(|e| format!("stream refused: {e}"))?;
                let mut s = Box::pin(s);
                let mut got: Vec<Vec<V>> = vec![];
                while let Some(b) = s.next().await {
                    let b = b.map_err(|e| format!("scan failed: {e}"))?;
                    if b.num_rows() == 0 || b.num_rows() > size {
                        return Err(format!("a batch of {} rows, at most {size} asked for", b.num_rows()));
                    }
                    if b.schema() != result {
                        return Err(format!("batch schema {:?}", b.schema()));
                    }
                    for r in 0..b.num_rows() {
                        got.push(out.iter().enumerate().map(|(j, i)| read(&b, j, cols[*i], r)).collect());
                    }
                    if got.len() > 50 {
                        return Err("the scan does not end".into());
                    }
                }
                if s.next().await.is_some() {
                    return Err("a batch after the end".into());
                }
                Ok(got)
            })?;
            if got != want {
                return Err(format!("scan returned {got:?}, the predicate holds for {want:?}"));
            }
        }
        Ok(())
    });
}

/// a predicate that cannot be evaluated is reported, never taken for true or false
#[test]
fn c24_refused() {
    cases("c24_refused", 60, |rng, c| {
        let schema: SchemaRef = Arc::new(Schema::new(vec![Field::new("c0", DataType::Int64, false), Field::new("c1", DataType::Int64, true)]));
        let n = 1 + rng.below(4);
        let mem = memtable(&schema);
        let b = build_batch(schema.clone(), (0..n).map(|i| DynRow(vec![Some(DynCell::I64(i as i64)), Some(DynCell::I64(7))])).collect()).map_err(|e| format!("{e:?}"))?;
        mem.insert_batch(b, Timestamp::new(1)).map_err(|e| format!("{e:?}"))?;
        let p = match rng.below(3) {
            0 => Expr::gt("absent", ScalarValue::Int64(Some(0))),
            1 => Expr::starts_with("c1", "a"),
            _ => Expr::is_null("absent"),
        };
        let p = if rng.chance(1, 2) { Expr::not(p) } else { p };
        c.log(format!("{n} rows, {p:?}"));
        c.nontrivial();
        block_on(async {
            let scan = OwnedMutableScan::from_guard(mem.read(), None, Timestamp::MAX).map_err(|e| format!("{e:?}"))?;
            let m = MergeStream::from_vec(vec![ScanStream::<'_, NoopExecutor>::from(scan)], None, None).await.map_err(|e| format!("merge refused: {e}"))?;
            let s = PackageStream::with_limit(2, m, schema.clone(), schema.clone(), Some(p), None);
            let Ok(s) = s else { return Ok(()) };
            match Box::pin(s).next().await {
                Some(Err(_)) => Ok(()),
                Some(Ok(b)) => Err(format!("{} rows returned for a predicate that cannot be evaluated", b.num_rows())),
                None => Err("the scan ended silently".to_string()),
            }
        })
    });
}

/// many numbers near the ends and the precision of every numeric type, against literals of every other
#[test]
fn c24_numbers() {
    const NUMS: &[T] = &[T::I8, T::I16, T::I32, T::I64, T::I64, T::I64, T::U8, T::U16, T::U32, T::U64, T::U64, T::F32, T::F64, T::F64];
    cases("c24_numbers", 400, |rng, c| {
        let t = *rng.pick(NUMS);
        let cols = [T::I64, t];
        let schema: SchemaRef = Arc::new(Schema::new(cols.iter().enumerate().map(|(i, t)| Field::new(format!("c{i}"), t.arrow(), false)).collect::<Vec<_>>()));
        let rows: Vec<Vec<V>> = (0..64).map(|i| vec![V::Int(i), t.value(rng)]).collect();
        let mem = memtable(&schema);
        let b = build_batch(schema.clone(), rows.iter().map(|r| DynRow(cols.iter().zip(r).map(|(t, v)| t.cell(v)).collect())).collect()).map_err(|e| format!("{e:?}"))?;
        mem.insert_batch(b, Timestamp::new(1)).map_err(|e| format!("{e:?}"))?;
        for _ in 0..60 {
            let near = rng.pick(&rows)[1].clone();
            let u = *rng.pick(NUMS);
            let x = match (&near, u) {
                (V::Int(x), T::F64) => {
                    let f = *x as f64;
                    V::Flt(match rng.below(4) {
                        0 if f != 0.0 => f64::from_bits(f.to_bits() + 1),
                        1 if f != 0.0 => f64::from_bits(f.to_bits() - 1),
                        _ => f,
                    })
                }
                (V::Int(x), T::F32) => V::Flt((*x as f32) as f64),
                (V::Flt(x), T::F64 | T::F32) if u == T::F64 || (*x as f32) as f64 == *x => V::Flt(*x),
                (V::Int(x), _) if *x >= u.range().0 && *x <= u.range().1 => V::Int(*x),
                (V::Flt(x), u) if x.abs() < 1e30 && !matches!(u, T::F32 | T::F64) && x.trunc() as i128 >= u.range().0 && x.trunc() as i128 <= u.range().1 => V::Int(x.trunc() as i128),
                _ => u.value(rng),
            };
            let x = if x == V::Flt(0.0) { V::Flt(0.0) } else { x };
            let p = P::Cmp(1, rng.below(6), u, x);
            c.log(format!("{t:?} {p:?}"));
            let want: Vec<i128> = rows.iter().filter(|r| p.eval(r) == Some(true)).map(|r| if let V::Int(i) = r[0] { i } else { -1 }).collect();
            if !want.is_empty() && want.len() < rows.len() {
                c.nontrivial();
            }
            let got = block_on(async {
                let scan = OwnedMutableScan::from_guard(mem.read(), None, Timestamp::MAX).map_err(|e| format!("{e:?}"))?;
                let m = MergeStream::from_vec(vec![ScanStream::<'_, NoopExecutor>::from(scan)], None, None).await.map_err(|e| format!("merge refused: {e}"))?;
                let s = PackageStream::with_limit(100, m, schema.clone(), schema.clone(), Some(p.expr()), None).map_err(|e| format!("stream refused: {e}"))?;
                let mut s = Box::pin(s);
                let mut got: Vec<i128> = vec![];
                while let Some(b) = s.next().await {
                    let b = b.map_err(|e| format!("scan failed: {e}"))?;
                    got.extend((0..b.num_rows()).map(|r| if let V::Int(i) = read(&b, 0, T::I64, r) { i } else { -1 }));
                    if got.len() > 100 {
                        return Err("the scan does not end".into());
                    }
                }
                Ok::<_, String>(got)
            })?;
            if got != want {
                let i = *got.iter().find(|i| !want.contains(i)).or_else(|| want.iter().find(|i| !got.contains(i))).unwrap_or(&0);
                return Err(format!("{p:?}: row {i} holds {:?}, kept: {}, to be kept: {}", rows[i as usize][1], got.contains(&i), want.contains(&i)));
            }
        }
        Ok(())
    });
}
