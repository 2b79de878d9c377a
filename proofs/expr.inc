verus! {
//@ item src/query/scan.rs :: struct KeyBound
//@ item src/query/scan.rs :: struct KeyBounds
impl Clone for KeyBound { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for KeyBounds { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// the key satisfies the bound(s)
pub open spec fn above(b: Option<KeyBound>, k: KeyOwned) -> bool { b is Some ==> (if (b->0).inclusive { kle((b->0).key, k) } else { klt((b->0).key, k) }) }
pub open spec fn below(b: Option<KeyBound>, k: KeyOwned) -> bool { b is Some ==> (if (b->0).inclusive { kle(k, (b->0).key) } else { klt(k, (b->0).key) }) }
pub open spec fn contains(b: KeyBounds, k: KeyOwned) -> bool { !b.empty && above(b.lower, k) && below(b.upper, k) }
/// bounds that are not flagged empty are not inverted
pub open spec fn normal(b: KeyBounds) -> bool {
    !b.empty && b.lower is Some && b.upper is Some ==> klt((b.lower->0).key, (b.upper->0).key) || ((b.lower->0).key == (b.upper->0).key && (b.lower->0).inclusive && (b.upper->0).inclusive)
}

// ---------- strings: the next prefix ----------
pub open spec fn cnum(c: char) -> int { c as u32 as int }
/// code point order of strings (UTF-8 keeps it, so it is the byte order of keys too)
pub open spec fn slt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if cnum(a[0]) != cnum(b[0]) { cnum(a[0]) < cnum(b[0]) } else { slt(a.skip(1), b.skip(1)) }
}
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// if two strings agree before position n and differ there, position n decides
pub proof fn lemma_slt_at(a: Seq<char>, b: Seq<char>, n: int)
    requires 0 <= n < a.len(), n < b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i], cnum(a[n]) < cnum(b[n]),
    ensures slt(a, b),
    decreases n,
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies a.skip(1)[i] == b.skip(1)[i] by { assert(a[i + 1] == b[i + 1]); }
        lemma_slt_at(a.skip(1), b.skip(1), n - 1);
    }
}
/// a prefix of a string is not above it
pub proof fn lemma_prefix_le(s: Seq<char>, p: Seq<char>)
    requires has_prefix(s, p),
    ensures !slt(s, p),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(s[0] == s.take(p.len() as int)[0]);
        assert(s.skip(1).take(p.len() - 1) =~= p.skip(1)) by {
            assert forall|i: int| 0 <= i < p.len() - 1 implies s.skip(1).take(p.len() - 1)[i] == p.skip(1)[i] by { assert(s.take(p.len() as int)[i + 1] == p[i + 1]); }
        }
        lemma_prefix_le(s.skip(1), p.skip(1));
    }
}
/// standard conversions between char and u32 (dependency contract): valid exactly outside the surrogate gap and up to char::MAX
pub open spec fn valid_cp(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n <= 0x10FFFF }
#[verifier::external_body]
pub fn vx_char_num(c: char) -> (r: u32) ensures r == cnum(c) && valid_cp(r as int) { c as u32 }
#[verifier::external_body]
pub fn vx_char_from(n: u32) -> (r: Option<char>) ensures r is Some <==> valid_cp(n as int), r is Some ==> cnum(r->0) == n { char::from_u32(n) }
#[verifier::external_body]
pub proof fn axiom_char_valid(c: char) ensures valid_cp(cnum(c)) {}
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn vx_string(v: Vec<char>) -> (r: String) ensures r@ == v@ { v.into_iter().collect() }
#[verifier::external_body]
pub fn vx_str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }

// the types of the aisle crate (a dependency), as its callers see them
pub enum ScalarValue {
    Null, Boolean(Option<bool>), Float32(Option<f32>), Float64(Option<f64>),
    Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>),
    UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>),
    Utf8(Option<String>), LargeUtf8(Option<String>), Utf8View(Option<String>),
    Binary(Option<Vec<u8>>), LargeBinary(Option<Vec<u8>>), BinaryView(Option<Vec<u8>>), FixedSizeBinary(i32, Option<Vec<u8>>),
    Other(u64),
}
pub enum CmpOp { Eq, NotEq, Lt, LtEq, Gt, GtEq }
pub enum Expr {
    True, False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>), Or(Vec<Expr>), Not(Box<Expr>),
}
pub enum DataType {
    Boolean, Int32, Int64, UInt32, UInt64, Float32, Float64, Utf8, LargeUtf8, Utf8View, Binary, LargeBinary, FixedSizeBinary(i32), Other(u64),
}
/// key values compare only within one class of key types
pub enum Class { Bool, I32, I64, U32, U64, F32, F64, Str, Bin, Other }
pub open spec fn class(t: DataType) -> Class {
    match t {
        DataType::Boolean => Class::Bool, DataType::Int32 => Class::I32, DataType::Int64 => Class::I64, DataType::UInt32 => Class::U32, DataType::UInt64 => Class::U64,
        DataType::Float32 => Class::F32, DataType::Float64 => Class::F64,
        DataType::Utf8 => Class::Str, DataType::LargeUtf8 => Class::Str, DataType::Utf8View => Class::Str,
        DataType::Binary => Class::Bin, DataType::LargeBinary => Class::Bin, DataType::FixedSizeBinary(_) => Class::Bin,
        DataType::Other(_) => Class::Other,
    }
}
/// the value a scalar literal or a key component stands for
pub enum Val { Bool(bool), Int(int), Float(int), Str(Seq<char>), Bytes(Seq<u8>) }
pub uninterp spec fn f32v(f: f32) -> int;
pub uninterp spec fn f64v(f: f64) -> int;
/// the class and value of a single-component key (of the cell it holds)
pub uninterp spec fn kclass(k: KeyOwned) -> Class;
pub uninterp spec fn kval(k: KeyOwned) -> Val;
pub open spec fn sval(v: ScalarValue) -> Option<Val> {
    match v {
        ScalarValue::Boolean(Some(b)) => Some(Val::Bool(b)),
        ScalarValue::Float32(Some(f)) => Some(Val::Float(f32v(f))), ScalarValue::Float64(Some(f)) => Some(Val::Float(f64v(f))),
        ScalarValue::Int8(Some(i)) => Some(Val::Int(i as int)), ScalarValue::Int16(Some(i)) => Some(Val::Int(i as int)),
        ScalarValue::Int32(Some(i)) => Some(Val::Int(i as int)), ScalarValue::Int64(Some(i)) => Some(Val::Int(i as int)),
        ScalarValue::UInt8(Some(i)) => Some(Val::Int(i as int)), ScalarValue::UInt16(Some(i)) => Some(Val::Int(i as int)),
        ScalarValue::UInt32(Some(i)) => Some(Val::Int(i as int)), ScalarValue::UInt64(Some(i)) => Some(Val::Int(i as int)),
        ScalarValue::Utf8(Some(s)) => Some(Val::Str(s@)), ScalarValue::LargeUtf8(Some(s)) => Some(Val::Str(s@)), ScalarValue::Utf8View(Some(s)) => Some(Val::Str(s@)),
        ScalarValue::Binary(Some(b)) => Some(Val::Bytes(b@)), ScalarValue::LargeBinary(Some(b)) => Some(Val::Bytes(b@)),
        ScalarValue::BinaryView(Some(b)) => Some(Val::Bytes(b@)), ScalarValue::FixedSizeBinary(_, Some(b)) => Some(Val::Bytes(b@)),
        _ => None,
    }
}
/// the key of class c that stands for value v (keys equal in the key order are identified)
pub uninterp spec fn key_of(c: Class, v: Val) -> KeyOwned;
#[verifier::external_body]
pub proof fn axiom_key_of() ensures forall|c: Class, v: Val| #![trigger key_of(c, v)] kclass(key_of(c, v)) == c && kval(key_of(c, v)) == v {}
pub open spec fn skey(v: ScalarValue, t: DataType) -> Option<KeyOwned> { match sval(v) { Some(x) => Some(key_of(class(t), x)), None => None } }
pub open spec fn string_type(t: DataType) -> bool { class(t) == Class::Str }
pub open spec fn str_key(s: Seq<char>) -> KeyOwned { key_of(Class::Str, Val::Str(s)) }
#[verifier::external_body]
pub proof fn axiom_str_key() ensures forall|a: Seq<char>, b: Seq<char>| #[trigger] kle(str_key(a), str_key(b)) == !slt(b, a) {}
#[verifier::external_body]
pub fn vx_str_key(s: &str) -> (r: KeyOwned) ensures r == str_key(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_str(a: &String) -> (r: &str) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_min_key(v: &Vec<KeyOwned>) -> (r: Option<KeyOwned>)
    ensures r is None <==> v@.len() == 0, r is Some ==> forall|i: int| 0 <= i < v@.len() ==> kle(r->0, #[trigger] v@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_max_key(v: &Vec<KeyOwned>) -> (r: Option<KeyOwned>)
    ensures r is None <==> v@.len() == 0, r is Some ==> forall|i: int| 0 <= i < v@.len() ==> kle(#[trigger] v@[i], r->0)
{ unimplemented!() }

pub open spec fn cmp_ok(op: CmpOp, k: KeyOwned, v: KeyOwned) -> bool {
    match op { CmpOp::Eq => k == v, CmpOp::NotEq => k != v, CmpOp::Lt => klt(k, v), CmpOp::LtEq => kle(k, v), CmpOp::Gt => klt(v, k), CmpOp::GtEq => kle(v, k) }
}
pub open spec fn all_keys(vs: Seq<ScalarValue>, t: DataType) -> bool { forall|i: int| 0 <= i < vs.len() ==> skey(#[trigger] vs[i], t) is Some }
/// a row with key k can satisfy the predicate (conditions on other columns may go either way)
pub open spec fn may(e: Expr, col: Seq<char>, t: DataType, k: KeyOwned) -> bool
    decreases e,
{
    match e {
        Expr::False => false,
        Expr::Cmp { column, op, value } => column@ == col && skey(value, t) is Some ==> cmp_ok(op, k, skey(value, t)->0),
        Expr::Between { column, low, high, inclusive } => column@ == col && skey(low, t) is Some && skey(high, t) is Some ==>
            (if inclusive { kle(skey(low, t)->0, k) && kle(k, skey(high, t)->0) } else { klt(skey(low, t)->0, k) && klt(k, skey(high, t)->0) }),
        Expr::InList { column, values } => column@ == col && all_keys(values@, t) ==> exists|i: int| 0 <= i < values@.len() && skey(#[trigger] values@[i], t) == Some(k),
        Expr::StartsWith { column, prefix } => column@ == col && string_type(t) ==> exists|s: Seq<char>| k == #[trigger] str_key(s) && has_prefix(s, prefix@),
        Expr::And(children) => forall|i: int| 0 <= i < children@.len() ==> may(#[trigger] children@[i], col, t, k),
        Expr::Or(children) => exists|i: int| 0 <= i < children@.len() && may(#[trigger] children@[i], col, t, k),
        _ => true,
    }
}
// Arrow schemas (dependency): a list of fields with a name and a type
#[verifier::external_body] pub struct SchemaRef { _p: () }
#[verifier::external_body] pub struct Field { _p: () }
pub uninterp spec fn fields(s: SchemaRef) -> Seq<Field>;
pub uninterp spec fn fname(f: Field) -> Seq<char>;
pub uninterp spec fn ftype(f: Field) -> DataType;
impl Field {
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures r@ == fname(*self) { unimplemented!() }
    #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == ftype(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_first_field(s: &SchemaRef) -> (r: Option<&Field>) ensures r is Some <==> fields(*s).len() > 0, r is Some ==> *(r->0) == fields(*s)[0] { unimplemented!() }
#[verifier::external_body]
pub fn vx_field_count(s: &SchemaRef) -> (r: usize) ensures r == fields(*s).len() { unimplemented!() }
use std::ops::Bound;
//@ item src/query/scan.rs :: struct KeyRangeSelection
pub open spec fn from_start(b: Bound<KeyOwned>, k: KeyOwned) -> bool { match b { Bound::Included(x) => kle(x, k), Bound::Excluded(x) => klt(x, k), Bound::Unbounded => true } }
pub open spec fn to_end(b: Bound<KeyOwned>, k: KeyOwned) -> bool { match b { Bound::Included(x) => kle(k, x), Bound::Excluded(x) => klt(k, x), Bound::Unbounded => true } }
pub open spec fn bkey(b: Bound<KeyOwned>) -> KeyOwned { match b { Bound::Included(x) => x, Bound::Excluded(x) => x, Bound::Unbounded => arbitrary() } }
/// what the range scans of the memtables require of their bounds (see C08)
pub open spec fn not_inverted(start: Bound<KeyOwned>, end: Bound<KeyOwned>) -> bool {
    start is Unbounded || end is Unbounded || klt(bkey(start), bkey(end)) || (start is Included && end is Included && kle(bkey(start), bkey(end)))
}
} // verus!
