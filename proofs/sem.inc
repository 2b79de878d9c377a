verus! {
/// the key a literal is converted to (a function of literal and type; it stands for the literal's value, proved in c18_prune)
pub uninterp spec fn sk(v: ScalarValue, t: DataType) -> Option<KeyOwned>;
#[verifier::external_body]
pub proof fn axiom_sk() ensures forall|v: ScalarValue, t: DataType| (#[trigger] sk(v, t)) is Some ==> sk(v, t) == skey(v, t) {}
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------- what a predicate means for a row ----------
pub enum V3 { T, F, U }
#[verifier::external_body] pub struct Row { _p: () }
/// the value of a condition on a column other than the key (three-valued: NULL is unknown)
pub uninterp spec fn leaf(e: Expr, row: Row) -> V3;
/// the key of a row, as a single component
pub uninterp spec fn rkey(row: Row) -> KeyOwned;
pub open spec fn v3(b: bool) -> V3 { if b { V3::T } else { V3::F } }
/// the value of a predicate for a row of a table whose key is the one column `col` of type `t`
pub open spec fn ev(e: Expr, col: Seq<char>, t: DataType, row: Row) -> V3
    decreases e,
{
    match e {
        Expr::True => V3::T,
        Expr::False => V3::F,
        Expr::Cmp { column, op, value } => if column@ == col && sk(value, t) is Some { v3(cmp_ok(op, rkey(row), sk(value, t)->0)) } else { leaf(e, row) },
        Expr::Between { column, low, high, inclusive } => if column@ == col && sk(low, t) is Some && sk(high, t) is Some {
                v3(if inclusive { kle(sk(low, t)->0, rkey(row)) && kle(rkey(row), sk(high, t)->0) } else { klt(sk(low, t)->0, rkey(row)) && klt(rkey(row), sk(high, t)->0) })
            } else { leaf(e, row) },
        Expr::InList { column, values } => if column@ == col && all_sk(values@, t) { v3(exists|i: int| 0 <= i < values@.len() && sk(#[trigger] values@[i], t) == Some(rkey(row))) } else { leaf(e, row) },
        Expr::StartsWith { column, prefix } => if column@ == col && string_type(t) { v3(exists|s: Seq<char>| rkey(row) == #[trigger] str_key(s) && has_prefix(s, prefix@)) } else { leaf(e, row) },
        Expr::And(c) => if exists|i: int| 0 <= i < c@.len() && ev(#[trigger] c@[i], col, t, row) == V3::F { V3::F }
            else if forall|i: int| 0 <= i < c@.len() ==> ev(#[trigger] c@[i], col, t, row) == V3::T { V3::T } else { V3::U },
        Expr::Or(c) => if exists|i: int| 0 <= i < c@.len() && ev(#[trigger] c@[i], col, t, row) == V3::T { V3::T }
            else if forall|i: int| 0 <= i < c@.len() ==> ev(#[trigger] c@[i], col, t, row) == V3::F { V3::F } else { V3::U },
        Expr::Not(c) => match ev(*c, col, t, row) { V3::T => V3::F, V3::F => V3::T, V3::U => V3::U },
        _ => leaf(e, row),
    }
}
pub open spec fn all_sk(vs: Seq<ScalarValue>, t: DataType) -> bool { forall|i: int| 0 <= i < vs.len() ==> sk(#[trigger] vs[i], t) is Some }
/// the rows of the table: the key is a value of the key column's type
pub open spec fn typed(row: Row, t: DataType) -> bool { kclass(rkey(row)) == class(t) }
#[verifier::external_body]
pub proof fn axiom_str_class() ensures forall|k: KeyOwned| #[trigger] kclass(k) == Class::Str ==> exists|s: Seq<char>| k == #[trigger] str_key(s) {}
pub open spec fn holds(e: Expr, col: Seq<char>, t: DataType, row: Row) -> bool { ev(e, col, t, row) == V3::T }
/// no predicate selects every row
pub open spec fn oev(e: Option<Expr>, col: Seq<char>, t: DataType, row: Row) -> V3 { match e { Some(x) => ev(x, col, t, row), None => V3::T } }
pub open spec fn oholds(e: Option<Expr>, col: Seq<char>, t: DataType, row: Row) -> bool { oev(e, col, t, row) == V3::T }
/// a strict upper bound exists unless every character is the maximal one
pub open spec fn has_next(p: Seq<char>) -> bool { exists|i: int| 0 <= i < p.len() && cnum(#[trigger] p[i]) != 0x10FFFF }

/// the part of a predicate that the key bounds decide exactly
pub open spec fn ranged(e: Expr, col: Seq<char>, t: DataType) -> bool {
    match e {
        Expr::Cmp { column, op, value } => column@ == col && !(op is NotEq) && sk(value, t) is Some,
        Expr::Between { column, low, high, .. } => column@ == col && sk(low, t) is Some && sk(high, t) is Some,
        Expr::StartsWith { column, prefix } => column@ == col && string_type(t) && has_next(prefix@),
        _ => false,
    }
}
/// every condition that the bounds decide, and that has to be met, is met by key k (of a row)
pub open spec fn within(e: Expr, col: Seq<char>, t: DataType, row: Row) -> bool decreases e {
    match e {
        Expr::False => false,
        Expr::And(c) => forall|i: int| 0 <= i < c@.len() ==> within(#[trigger] c@[i], col, t, row),
        _ => ranged(e, col, t) ==> holds(e, col, t, row),
    }
}
pub open spec fn obounds(b: Option<KeyBounds>, k: KeyOwned) -> bool { b is Some ==> contains(b->0, k) }
/// two parts that select what `e` selects (and, with nothing left over, have its value)
pub open spec fn split_of(e: Expr, p: Option<Expr>, r: Option<Expr>) -> bool {
    (forall|col: Seq<char>, t: DataType, row: Row| #![trigger ev(e, col, t, row)] #![trigger oev(p, col, t, row)] (ev(e, col, t, row) == V3::T) == (oev(p, col, t, row) == V3::T && oev(r, col, t, row) == V3::T))
    && (r is None ==> forall|col: Seq<char>, t: DataType, row: Row| #![trigger ev(e, col, t, row)] #![trigger oev(p, col, t, row)] oev(p, col, t, row) == ev(e, col, t, row))
}
} // verus!
