//@attach src/query/scan.rs
//! C18: bounds derived from a predicate never exclude a key that satisfies it.
use std::cmp::Ordering;

use arrow_schema::Field;

use super::*;
use crate::{
    vp_ensure,
    vp_util::{Rng, cases},
};

/// a key value of one of the key types
#[derive(Clone, Debug)]
enum V {
    I(i128),
    F(f64),
    S(String),
    B(Vec<u8>),
    T(bool),
}
fn vcmp(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::I(x), V::I(y)) => x.cmp(y),
        (V::F(x), V::F(y)) => x.partial_cmp(y).unwrap(),
        (V::S(x), V::S(y)) => x.cmp(y),
        (V::B(x), V::B(y)) => x.cmp(y),
        (V::T(x), V::T(y)) => x.cmp(y),
        _ => unreachable!(),
    }
}
const TYPES: &[DataType] = &[
    DataType::Boolean, DataType::Int32, DataType::Int64, DataType::UInt32, DataType::UInt64, DataType::Float32, DataType::Float64,
    DataType::Utf8, DataType::LargeUtf8, DataType::Binary, DataType::LargeBinary, DataType::FixedSizeBinary(2),
];
fn value(rng: &mut Rng, t: &DataType) -> V {
    match t {
        DataType::Boolean => V::T(rng.chance(1, 2)),
        DataType::Int32 => V::I(*rng.pick(&[i32::MIN as i128, -3, 0, 1, 2, 5, i32::MAX as i128])),
        DataType::Int64 => V::I(*rng.pick(&[i64::MIN as i128, -3, 0, 1, 2, 5, i64::MAX as i128])),
        DataType::UInt32 => V::I(*rng.pick(&[0, 1, 2, 5, u32::MAX as i128])),
        DataType::UInt64 => V::I(*rng.pick(&[0, 1, 2, 5, i64::MAX as i128 + 1, u64::MAX as i128])),
        DataType::Float32 | DataType::Float64 => V::F(*rng.pick(&[f64::NEG_INFINITY, -1.5, 0.0, 0.25, 2.0, f64::INFINITY])),
        DataType::Utf8 | DataType::LargeUtf8 => V::S(rng.pick(&["", "a", "ab", "abc", "b", "é", "\u{10ffff}", "a\u{10ffff}"]).to_string()),
        _ => V::B(vec![*rng.pick(&[0u8, 7, 255]), *rng.pick(&[0u8, 7, 255])]),
    }
}
fn key(v: &V, t: &DataType) -> KeyOwned {
    match (v, t) {
        (V::T(b), _) => KeyOwned::from(*b),
        (V::I(i), DataType::Int32) => KeyOwned::from(*i as i32),
        (V::I(i), DataType::Int64) => KeyOwned::from(*i as i64),
        (V::I(i), DataType::UInt32) => KeyOwned::from(*i as u32),
        (V::I(i), _) => KeyOwned::from(*i as u64),
        (V::F(f), DataType::Float32) => KeyOwned::from(*f as f32),
        (V::F(f), _) => KeyOwned::from(*f),
        (V::S(s), _) => KeyOwned::from(s.as_str()),
        (V::B(b), _) => KeyOwned::from(b.as_slice()),
    }
}
/// a literal of some scalar type for a value: not necessarily the column's own type
fn literal(rng: &mut Rng, v: &V) -> ScalarValue {
    match v {
        V::T(b) => ScalarValue::Boolean(Some(*b)),
        V::I(i) => loop {
            let s = match rng.below(8) {
                0 => i8::try_from(*i).ok().map(|x| ScalarValue::Int8(Some(x))),
                1 => i16::try_from(*i).ok().map(|x| ScalarValue::Int16(Some(x))),
                2 => i32::try_from(*i).ok().map(|x| ScalarValue::Int32(Some(x))),
                3 => i64::try_from(*i).ok().map(|x| ScalarValue::Int64(Some(x))),
                4 => u8::try_from(*i).ok().map(|x| ScalarValue::UInt8(Some(x))),
                5 => u16::try_from(*i).ok().map(|x| ScalarValue::UInt16(Some(x))),
                6 => u32::try_from(*i).ok().map(|x| ScalarValue::UInt32(Some(x))),
                _ => u64::try_from(*i).ok().map(|x| ScalarValue::UInt64(Some(x))),
            };
            if let Some(s) = s {
                return s;
            }
        },
        V::F(f) => if rng.chance(1, 2) { ScalarValue::Float32(Some(*f as f32)) } else { ScalarValue::Float64(Some(*f)) },
        V::S(s) => match rng.below(3) {
            0 => ScalarValue::Utf8(Some(s.clone())),
            1 => ScalarValue::LargeUtf8(Some(s.clone())),
            _ => ScalarValue::Utf8View(Some(s.clone())),
        },
        V::B(b) => match rng.below(4) {
            0 => ScalarValue::Binary(Some(b.clone())),
            1 => ScalarValue::LargeBinary(Some(b.clone())),
            2 => ScalarValue::BinaryView(Some(b.clone())),
            _ => ScalarValue::FixedSizeBinary(b.len() as i32, Some(b.clone())),
        },
    }
}
/// a literal that may lie outside the key type, for integers
fn any_value(rng: &mut Rng, t: &DataType) -> V {
    match t {
        DataType::Int32 | DataType::Int64 | DataType::UInt32 | DataType::UInt64 => {
            let o = rng.pick(&[DataType::Int32, DataType::Int64, DataType::UInt32, DataType::UInt64]).clone();
            value(rng, &o)
        }
        _ => value(rng, t),
    }
}

/// a predicate on column "id" (or on another column) and, for a row, whether its key allows it
type Pred = Box<dyn Fn(&V) -> bool>;
fn expr(rng: &mut Rng, t: &DataType, depth: usize) -> (Expr, Pred) {
    let strings = matches!(t, DataType::Utf8 | DataType::LargeUtf8);
    let n = if depth == 0 { 6 } else { 9 };
    match rng.below(n) {
        0 => {
            // another column: either way is possible
            (Expr::Cmp { column: "v".into(), op: aisle::CmpOp::Eq, value: ScalarValue::Int64(Some(1)) }, Box::new(|_| true))
        }
        1 => {
            let (a, b) = (any_value(rng, t), any_value(rng, t));
            let inclusive = rng.chance(1, 2);
            let e = Expr::Between { column: "id".into(), low: literal(rng, &a), high: literal(rng, &b), inclusive };
            (e, Box::new(move |k| {
                let (x, y) = (vcmp(&a, k), vcmp(k, &b));
                if inclusive { x.is_le() && y.is_le() } else { x.is_lt() && y.is_lt() }
            }))
        }
        2 => {
            let vs: Vec<V> = (0..rng.below(4)).map(|_| any_value(rng, t)).collect();
            let e = Expr::InList { column: "id".into(), values: vs.iter().map(|v| literal(rng, v)).collect() };
            (e, Box::new(move |k| vs.iter().any(|v| vcmp(v, k).is_eq())))
        }
        3 if strings => {
            let p = rng.pick(&["", "a", "ab", "\u{10ffff}", "a\u{10ffff}", "b"]).to_string();
            (Expr::StartsWith { column: "id".into(), prefix: p.clone() }, Box::new(move |k| matches!(k, V::S(s) if s.starts_with(&p))))
        }
        4 if rng.chance(1, 3) => {
            if rng.chance(1, 2) { (Expr::True, Box::new(|_| true)) } else { (Expr::False, Box::new(|_| false)) }
        }
        6 | 7 => {
            let cs: Vec<(Expr, Pred)> = (0..rng.below(4)).map(|_| expr(rng, t, depth - 1)).collect();
            let (es, ps): (Vec<Expr>, Vec<Pred>) = cs.into_iter().unzip();
            if rng.chance(1, 2) {
                (Expr::And(es), Box::new(move |k| ps.iter().all(|p| p(k))))
            } else {
                (Expr::Or(es), Box::new(move |k| ps.iter().any(|p| p(k))))
            }
        }
        8 => {
            // a negation that no other column takes part in
            let v = any_value(rng, t);
            let e = Expr::Cmp { column: "id".into(), op: aisle::CmpOp::Lt, value: literal(rng, &v) };
            (Expr::Not(Box::new(e)), Box::new(move |k| !vcmp(k, &v).is_lt()))
        }
        _ => {
            let v = any_value(rng, t);
            let value = literal(rng, &v);
            let (op, f): (aisle::CmpOp, fn(Ordering) -> bool) = match rng.below(6) {
                0 => (aisle::CmpOp::Eq, Ordering::is_eq),
                1 => (aisle::CmpOp::NotEq, Ordering::is_ne),
                2 => (aisle::CmpOp::Lt, Ordering::is_lt),
                3 => (aisle::CmpOp::LtEq, Ordering::is_le),
                4 => (aisle::CmpOp::Gt, Ordering::is_gt),
                _ => (aisle::CmpOp::GtEq, Ordering::is_ge),
            };
            (Expr::Cmp { column: "id".into(), op, value }, Box::new(move |k| f(vcmp(k, &v))))
        }
    }
}

#[test]
fn c18_predicate_bounds() {
    cases("c18_predicate_bounds", 20000, |rng, c| {
        let t = rng.pick(TYPES).clone();
        let schema: SchemaRef = Arc::new(Schema::new(vec![Field::new("id", t.clone(), false)]));
        let (e, p) = expr(rng, &t, 2);
        let v = value(rng, &t);
        let k = key(&v, &t);
        c.log(format!("{t:?}: {e:?} with key {v:?}"));
        let bounds = key_bounds_for_predicate(&e, &schema);
        let range = key_range_for_predicate(&e, &schema);
        if p(&v) {
            if let Some(b) = &bounds {
                c.nontrivial();
                vp_ensure!(b.overlaps(&k, &k), "bounds {b:?} exclude a key that satisfies the predicate");
                vp_ensure!(!b.is_empty(), "bounds of a satisfied predicate are empty");
            }
            if let Some(r) = &range {
                let lo = match &r.start { Bound::Included(x) => *x <= k, Bound::Excluded(x) => *x < k, Bound::Unbounded => true };
                let hi = match &r.end { Bound::Included(x) => k <= *x, Bound::Excluded(x) => k < *x, Bound::Unbounded => true };
                vp_ensure!(lo && hi, "range {r:?} excludes a key that satisfies the predicate");
            }
        }
        if let Some(r) = &range {
            if let (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) = (&r.start, &r.end) {
                let both = matches!((&r.start, &r.end), (Bound::Included(_), Bound::Included(_)));
                vp_ensure!(a < b || (both && a == b), "range {r:?} is inverted");
            }
        }
        // composite keys are never pruned by one column
        let two: SchemaRef = Arc::new(Schema::new(vec![Field::new("id", t.clone(), false), Field::new("w", DataType::Int64, false)]));
        vp_ensure!(key_bounds_for_predicate(&e, &two).is_none(), "bounds for a composite key");
        Ok(())
    });
}
