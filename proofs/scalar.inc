//@ flags map
//@ map std::cmp::Ordering =>> Ordering
//@ map f64 =>> F64
//@ map typed_arrow_dyn::DynCell =>> DynCell
//@ map &str =>> &VStr
//@ map PackageStream<'t, E> where E: Executor, =>> PackageStream
//@ map MergeStream<'t, E> =>> MergeStream
//@ map Cow<'v, ScalarValue> =>> Cow<'v>
use vstd::arithmetic::power2::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
broadcast use vstd::std_specs::vec::group_vec_axioms;
/// std::task::Poll
pub enum Poll<T> { Ready(T), Pending }
pub fn vx_rev(o: Option<Ordering>) -> (r: Option<Ordering>) ensures r == (match o { Some(x) => Some(rev(x)), None => None }) {
    match o { Some(x) => Some(vx_rev1(x)), None => None }
}
pub fn vx_rev1(x: Ordering) -> (r: Ordering) ensures r == rev(x) { match x { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn iord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

// ---------------------------------------------------------------- floats, as IEEE 754 bit patterns
/// f64: the operations below have their IEEE meaning, written on the bits
#[derive(Clone, Copy)]
pub struct F64 { pub bits: u64 }
pub open spec fn fexp(b: u64) -> int { ((b >> 52) & 0x7ff) as int }
pub open spec fn ffrac(b: u64) -> int { (b & 0x000f_ffff_ffff_ffff) as int }
pub open spec fn fneg(b: u64) -> bool { (b >> 63) == 1 }
pub open spec fn fnan(b: u64) -> bool { fexp(b) == 0x7ff && ffrac(b) != 0 }
pub open spec fn finf(b: u64) -> bool { fexp(b) == 0x7ff && ffrac(b) == 0 }
/// a finite float is (+/-) fman * 2^(fpow - 1074)
pub open spec fn fman(b: u64) -> nat { if fexp(b) == 0 { ffrac(b) as nat } else { (ffrac(b) + 0x10_0000_0000_0000) as nat } }
pub open spec fn fpow(b: u64) -> nat { if fexp(b) == 0 { 0 } else { (fexp(b) - 1) as nat } }
pub open spec fn fabs(b: u64) -> int { (fman(b) * pow2(fpow(b))) as int }
/// the value of a finite float, in units of 2^-1074
pub open spec fn fval(b: u64) -> int { if fneg(b) { -fabs(b) } else { fabs(b) } }
/// exact order of an integer and a float
pub open spec fn ifcmp(i: int, b: u64) -> Option<Ordering> {
    if fnan(b) { None } else if finf(b) { Some(if fneg(b) { Ordering::Greater } else { Ordering::Less }) } else { Some(iord(i * pow2(1074), fval(b))) }
}
/// exact order of two floats
pub open spec fn ffcmp(a: u64, b: u64) -> Option<Ordering> {
    if fnan(a) || fnan(b) { None }
    else if finf(a) && finf(b) { Some(if fneg(a) == fneg(b) { Ordering::Equal } else if fneg(a) { Ordering::Less } else { Ordering::Greater }) }
    else if finf(a) { Some(if fneg(a) { Ordering::Less } else { Ordering::Greater }) }
    else if finf(b) { Some(if fneg(b) { Ordering::Greater } else { Ordering::Less }) }
    else { Some(iord(fval(a), fval(b))) }
}
impl F64 {
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fnan(self.bits) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == finf(self.bits) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures r == !fneg(self.bits) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures r == fneg(self.bits) { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_zero(self) -> (r: bool) ensures r == (fexp(self.bits) == 0 && ffrac(self.bits) == 0) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures !fneg(r.bits), fexp(r.bits) == fexp(self.bits), ffrac(r.bits) == ffrac(self.bits) { unimplemented!() }
    #[verifier::external_body] pub fn to_bits(self) -> (r: u64) ensures r == self.bits { unimplemented!() }
    #[verifier::external_body] pub fn partial_cmp(&self, o: &F64) -> (r: Option<Ordering>) ensures r == ffcmp(self.bits, o.bits) { unimplemented!() }
    /// exact conversions of narrower floats; integers are not converted on the paths that matter
    #[verifier::external_body] pub fn from<T: Wide>(x: T) -> (r: F64) ensures r.bits == x.wide() { unimplemented!() }
}
pub trait Wide: Sized { spec fn wide(self) -> u64; }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct F16 { _p: () }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct F32 { _p: () }
/// the bits of the f64 of equal value
pub uninterp spec fn f16bits(x: F16) -> u64;
pub uninterp spec fn f32bits(x: F32) -> u64;
pub uninterp spec fn intbits(x: int) -> u64;
impl Wide for F32 { open spec fn wide(self) -> u64 { f32bits(self) } }
impl Wide for i8 { open spec fn wide(self) -> u64 { intbits(self as int) } }
impl Wide for i16 { open spec fn wide(self) -> u64 { intbits(self as int) } }
impl Wide for i32 { open spec fn wide(self) -> u64 { intbits(self as int) } }
impl Wide for u8 { open spec fn wide(self) -> u64 { intbits(self as int) } }
impl Wide for u16 { open spec fn wide(self) -> u64 { intbits(self as int) } }
impl Wide for u32 { open spec fn wide(self) -> u64 { intbits(self as int) } }
#[verifier::external_body] pub fn vx_f16(x: F16) -> (r: F64) ensures r.bits == f16bits(x) { unimplemented!() }
/// an integer of at most 53 digits converts exactly
#[verifier::external_body] pub fn vx_int_f64<T: Whole>(x: T) -> (r: F64)
    ensures -0x20_0000_0000_0000 <= x.whole() <= 0x20_0000_0000_0000 ==> fexp(r.bits) != 0x7ff && fval(r.bits) == x.whole() * pow2(1074),
{ unimplemented!() }
pub trait Whole: Sized { spec fn whole(self) -> int; }
impl Whole for i128 { open spec fn whole(self) -> int { self as int } }
impl Whole for u128 { open spec fn whole(self) -> int { self as int } }
impl Whole for i64 { open spec fn whole(self) -> int { self as int } }
impl Whole for u64 { open spec fn whole(self) -> int { self as int } }
#[verifier::external_body] pub fn vx_uabs(x: i128) -> (r: u128) ensures r == (if x >= 0 { x as int } else { -x }) { x.unsigned_abs() }

// ---------------------------------------------------------------- scalars, cells, predicates (dependencies: datafusion, typed-arrow-dyn, aisle)
#[verifier::external_body] pub struct VStr { _p: () }
impl View for VStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub broadcast axiom fn axiom_vstr(a: VStr, b: VStr) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
impl VStr {
    #[verifier::external_body] pub fn starts_with(&self, p: &VStr) -> (r: bool) ensures r == prefix(p@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: VStr) ensures r == *self { unimplemented!() }
}
pub open spec fn prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
#[verifier::external_body] pub struct Bytes { _p: () }
impl Bytes { #[verifier::external_body] pub fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Tz { _p: () }
#[verifier::external_body] pub struct OtherValue { _p: () }
#[verifier::external_body] pub struct DataType { _p: () }
pub enum ScalarValue {
    Null, Boolean(Option<bool>), Float16(Option<F16>), Float32(Option<F32>), Float64(Option<F64>),
    Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>), UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>),
    Utf8(Option<VStr>), Utf8View(Option<VStr>), LargeUtf8(Option<VStr>), Binary(Option<Bytes>), BinaryView(Option<Bytes>), FixedSizeBinary(i32, Option<Bytes>), LargeBinary(Option<Bytes>),
    Date32(Option<i32>), Date64(Option<i64>), Time32Second(Option<i32>), Time32Millisecond(Option<i32>), Time64Microsecond(Option<i64>), Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Tz), TimestampMillisecond(Option<i64>, Tz), TimestampMicrosecond(Option<i64>, Tz), TimestampNanosecond(Option<i64>, Tz),
    DurationSecond(Option<i64>), DurationMillisecond(Option<i64>), DurationMicrosecond(Option<i64>), DurationNanosecond(Option<i64>),
    Other(OtherValue),
}
use ScalarValue as SV;
pub uninterp spec fn dtype(v: ScalarValue) -> DataType;
/// whether the scalar is a null of its type
pub uninterp spec fn isnull(v: ScalarValue) -> bool;
/// the order datafusion gives two scalars of one type
pub uninterp spec fn own_order(a: ScalarValue, b: ScalarValue) -> Option<Ordering>;
/// (assumption) it is the order of the numbers for integers
pub axiom fn axiom_own_order_i64(a: i64, b: i64) ensures dtype(SV::Int64(Some(a))) == dtype(SV::Int64(Some(b))), own_order(SV::Int64(Some(a)), SV::Int64(Some(b))) == Some(iord(a as int, b as int)), !isnull(SV::Int64(Some(a)));
impl ScalarValue {
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == isnull(*self) { unimplemented!() }
    #[verifier::external_body] pub fn partial_cmp(&self, o: &ScalarValue) -> (r: Option<Ordering>) requires dtype(*self) == dtype(*o) ensures r == own_order(*self, *o) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_same_type(a: &ScalarValue, b: &ScalarValue) -> (r: bool) ensures r == (dtype(*a) == dtype(*b)) { unimplemented!() }
pub fn vx_null_or_none(v: &Option<ScalarValue>) -> (r: bool) ensures r == (v is None || isnull(v->0)) { match v { None => true, Some(x) => x.is_null() } }
/// std::borrow::Cow
pub enum Cow<'v> { Borrowed(&'v ScalarValue), Owned(ScalarValue) }
pub open spec fn cowval(c: Cow) -> ScalarValue { match c { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
impl<'v> Cow<'v> { pub fn vx_ref(&self) -> (r: &ScalarValue) ensures *r == cowval(*self) { match self { Cow::Borrowed(x) => x, Cow::Owned(x) => x } } }
#[verifier::external_body] pub struct OtherCell { _p: () }
pub enum DynCell {
    Null, Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(F32), F64(F64), Str(VStr), Bin(Bytes), Other(OtherCell),
}
pub struct DynRow(pub Vec<Option<DynCell>>);
#[derive(Clone, Copy)]
pub enum CmpOp { Eq, NotEq, Lt, LtEq, Gt, GtEq }
pub enum Expr {
    True, False,
    Cmp { column: VStr, op: CmpOp, value: ScalarValue },
    Between { column: VStr, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: VStr, values: Vec<ScalarValue> },
    BloomFilterEq { column: VStr, value: ScalarValue },
    BloomFilterInList { column: VStr, values: Vec<ScalarValue> },
    StartsWith { column: VStr, prefix: VStr },
    IsNull { column: VStr, negated: bool },
    And(Vec<Expr>), Or(Vec<Expr>), Not(Box<Expr>),
    Other(OtherValue),
}
#[verifier::external_body] pub struct Name { _p: () }
#[verifier::external_body] pub fn vx_name(s: &VStr) -> Name { unimplemented!() }
pub enum ResidualError { MissingColumn(Name), UnsupportedColumn, InvalidUtf8, MissingValue, UnexpectedResidual, UnsupportedPredicate }

// ---------------------------------------------------------------- exact comparison of numbers
pub enum Num { I(int), F(u64), No }
pub open spec fn num(v: ScalarValue) -> Num {
    match v {
        SV::Int8(Some(x)) => Num::I(x as int), SV::Int16(Some(x)) => Num::I(x as int), SV::Int32(Some(x)) => Num::I(x as int), SV::Int64(Some(x)) => Num::I(x as int),
        SV::UInt8(Some(x)) => Num::I(x as int), SV::UInt16(Some(x)) => Num::I(x as int), SV::UInt32(Some(x)) => Num::I(x as int), SV::UInt64(Some(x)) => Num::I(x as int),
        SV::Float16(Some(x)) => Num::F(f16bits(x)), SV::Float32(Some(x)) => Num::F(f32bits(x)), SV::Float64(Some(x)) => Num::F(x.bits),
        _ => Num::No,
    }
}
/// numbers compare by exact value, whatever their types
pub open spec fn ncmp(a: ScalarValue, b: ScalarValue) -> Option<Ordering> {
    match (num(a), num(b)) {
        (Num::I(x), Num::I(y)) => Some(iord(x, y)),
        (Num::F(x), Num::F(y)) => ffcmp(x, y),
        (Num::I(x), Num::F(y)) => ifcmp(x, y),
        (Num::F(x), Num::I(y)) => match ifcmp(y, x) { Some(o) => Some(rev(o)), None => None },
        _ => None,
    }
}
pub open spec fn scmp(a: ScalarValue, b: ScalarValue) -> Option<Ordering> { if dtype(a) == dtype(b) { own_order(a, b) } else { ncmp(a, b) } }
} // verus!
