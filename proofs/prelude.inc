#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code)]
use vstd::prelude::*;
use vstd::bytes::*;
use std::cmp::Ordering;
verus! {

// ---- shared trusted helpers (assumed contracts on the standard library) ----
#[verifier::external_body]
pub fn vx_format() -> (r: String) { String::new() }

#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false,
{ unreachable!() }

pub fn vx_min_len(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

pub fn vx_is_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { matches!(o, Ordering::Equal) }
pub fn vx_is_lt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { matches!(o, Ordering::Less) }
pub fn vx_is_gt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { matches!(o, Ordering::Greater) }

pub fn vx_assert(c: bool) requires c {}

pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

} // verus!
