//! Stand-in for the `aisle` crate, which cannot be fetched offline.
//!
//! It offers exactly the API tonbo uses. The pruner is the weakest sound one (it never prunes), and
//! the row filter evaluates predicates with SQL three-valued logic, row by row. It is part of the
//! trusted base of every check that runs on the whole crate.
use std::{cmp::Ordering, collections::HashMap, future::Future, sync::Arc};

use arrow_array::{Array, BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::{
    arrow::{
        ProjectionMask,
        arrow_reader::{ArrowPredicate, RowSelection},
    },
    bloom_filter::Sbbf,
    file::metadata::ParquetMetaData,
    schema::types::SchemaDescriptor,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

#[derive(Debug, Clone, PartialEq)]
#[non_exhaustive]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    fn cmp(column: impl Into<String>, op: CmpOp, value: ScalarValue) -> Self {
        Expr::Cmp { column: column.into(), op, value }
    }
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Eq, value)
    }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::NotEq, value)
    }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Lt, value)
    }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::LtEq, value)
    }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Gt, value)
    }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::GtEq, value)
    }
    pub fn between(
        column: impl Into<String>,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    ) -> Self {
        Expr::Between { column: column.into(), low, high, inclusive }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList { column: column.into(), values }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith { column: column.into(), prefix: prefix.into() }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: false }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: true }
    }
    pub fn and(children: Vec<Expr>) -> Self {
        Expr::And(children)
    }
    pub fn or(children: Vec<Expr>) -> Self {
        Expr::Or(children)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn not(child: Expr) -> Self {
        Expr::Not(Box::new(child))
    }
}

pub trait AsyncBloomFilterProvider {
    fn bloom_filter(
        &mut self,
        row_group_idx: usize,
        column_idx: usize,
    ) -> impl Future<Output = Option<Sbbf>>;

    fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> impl Future<Output = HashMap<(usize, usize), Sbbf>> + 'a;
}

#[derive(Debug, Clone)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    selection: Option<RowSelection>,
}

impl PruneResult {
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.selection.as_ref()
    }
}

fn keep_all(metadata: &ParquetMetaData) -> PruneResult {
    PruneResult { row_groups: (0..metadata.num_row_groups()).collect(), selection: None }
}

#[derive(Debug, Clone)]
pub struct Pruner {
    _schema: SchemaRef,
}

impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, ArrowError> {
        Ok(Self { _schema: schema })
    }
    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        _predicates: &[Expr],
        _provider: &mut P,
    ) -> PruneResult {
        keep_all(metadata)
    }
}

pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
}

impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, _schema: &'a Schema) -> Self {
        Self { metadata }
    }
    pub fn with_predicate(self, _predicate: &'a Expr) -> Self {
        self
    }
    pub fn enable_page_index(self, _on: bool) -> Self {
        self
    }
    pub fn enable_bloom_filter(self, _on: bool) -> Self {
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, _provider: &mut P) -> PruneResult {
        keep_all(self.metadata)
    }
}

/// Row filter over an expression, usable as a Parquet `ArrowPredicate`.
pub struct RowFilter {
    expr: Expr,
    mask: ProjectionMask,
}

fn columns(expr: &Expr, out: &mut Vec<String>) {
    match expr {
        Expr::True | Expr::False => {}
        Expr::Cmp { column, .. }
        | Expr::Between { column, .. }
        | Expr::InList { column, .. }
        | Expr::BloomFilterEq { column, .. }
        | Expr::BloomFilterInList { column, .. }
        | Expr::StartsWith { column, .. }
        | Expr::IsNull { column, .. } => out.push(column.clone()),
        Expr::And(c) | Expr::Or(c) => c.iter().for_each(|e| columns(e, out)),
        Expr::Not(c) => columns(c, out),
    }
}

impl RowFilter {
    pub fn new(expr: Expr, schema: &SchemaDescriptor) -> Self {
        let mut cols = Vec::new();
        columns(&expr, &mut cols);
        let roots: Vec<usize> = schema
            .root_schema()
            .get_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| cols.iter().any(|c| c == f.name()))
            .map(|(i, _)| i)
            .collect();
        Self { expr, mask: ProjectionMask::roots(schema, roots) }
    }
}

fn value(batch: &RecordBatch, column: &str, row: usize) -> Result<ScalarValue, ArrowError> {
    let idx = batch.schema().index_of(column)?;
    ScalarValue::try_from_array(batch.column(idx), row)
        .map_err(|e| ArrowError::ComputeError(e.to_string()))
}

fn cmp_vals(a: &ScalarValue, b: &ScalarValue) -> Option<Ordering> {
    if a.is_null() || b.is_null() {
        return None;
    }
    a.partial_cmp(b)
}

fn op_holds(op: CmpOp, o: Ordering) -> bool {
    match op {
        CmpOp::Eq => o == Ordering::Equal,
        CmpOp::NotEq => o != Ordering::Equal,
        CmpOp::Lt => o == Ordering::Less,
        CmpOp::LtEq => o != Ordering::Greater,
        CmpOp::Gt => o == Ordering::Greater,
        CmpOp::GtEq => o != Ordering::Less,
    }
}

/// Three-valued evaluation of `expr` on one row.
pub fn eval(expr: &Expr, batch: &RecordBatch, row: usize) -> Result<Option<bool>, ArrowError> {
    Ok(match expr {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value: rhs } => {
            cmp_vals(&value(batch, column, row)?, rhs).map(|o| op_holds(*op, o))
        }
        Expr::Between { column, low, high, inclusive } => {
            let v = value(batch, column, row)?;
            let (lo, hi) = if *inclusive {
                (CmpOp::GtEq, CmpOp::LtEq)
            } else {
                (CmpOp::Gt, CmpOp::Lt)
            };
            and3(
                cmp_vals(&v, low).map(|o| op_holds(lo, o)),
                cmp_vals(&v, high).map(|o| op_holds(hi, o)),
            )
        }
        Expr::InList { column, values } => {
            let v = value(batch, column, row)?;
            let mut acc = Some(false);
            for x in values {
                acc = or3(acc, cmp_vals(&v, x).map(|o| o == Ordering::Equal));
            }
            acc
        }
        Expr::BloomFilterEq { .. } | Expr::BloomFilterInList { .. } => {
            return Err(ArrowError::NotYetImplemented("bloom predicate".into()));
        }
        Expr::StartsWith { column, prefix } => match value(batch, column, row)? {
            ScalarValue::Utf8(s) | ScalarValue::LargeUtf8(s) | ScalarValue::Utf8View(s) => {
                s.map(|s| s.starts_with(prefix.as_str()))
            }
            _ => None,
        },
        Expr::IsNull { column, negated } => {
            let idx = batch.schema().index_of(column)?;
            Some(batch.column(idx).is_null(row) != *negated)
        }
        Expr::And(children) => {
            let mut acc = Some(true);
            for c in children {
                acc = and3(acc, eval(c, batch, row)?);
            }
            acc
        }
        Expr::Or(children) => {
            let mut acc = Some(false);
            for c in children {
                acc = or3(acc, eval(c, batch, row)?);
            }
            acc
        }
        Expr::Not(c) => eval(c, batch, row)?.map(|b| !b),
    })
}

fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.mask
    }
    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        (0..batch.num_rows())
            .map(|row| eval(&self.expr, &batch, row).map(|v| Some(v == Some(true))))
            .collect()
    }
}

#[allow(dead_code)]
fn _keep(_: Arc<()>) {}
