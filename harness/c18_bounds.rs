//@attach src/query/scan.rs
//! C18: key bounds, segment pruning by bounds, row sets, prefixes.
use super::*;
use crate::{
    inmem::immutable::{ImmutableSegment, prune_segments},
    vp_ensure,
    vp_mem::{Kind, World, visible},
    vp_util::{Rng, cases, enumerate},
};

fn holds(b: &KeyBounds, k: &KeyOwned) -> bool {
    !b.empty
        && b.lower.as_ref().is_none_or(|l| if l.inclusive { l.key <= *k } else { l.key < *k })
        && b.upper.as_ref().is_none_or(|u| if u.inclusive { *k <= u.key } else { *k < u.key })
}
fn all_bounds(kind: Kind, n: usize) -> Vec<KeyBounds> {
    let mut v = vec![KeyBounds::empty()];
    for i in 0..n {
        for inc in [true, false] {
            v.push(KeyBounds::with_lower(kind.key(i), inc));
            v.push(KeyBounds::with_upper(kind.key(i), inc));
            for j in 0..n {
                for inc2 in [true, false] {
                    v.push(KeyBounds::with_range((kind.key(i), inc), (kind.key(j), inc2)));
                }
            }
        }
    }
    v
}

#[test]
fn c18_bounds_algebra() {
    enumerate("c18_bounds_algebra", |c| {
        let (mut n, mut d) = (0, 0);
        for kind in [Kind::Str, Kind::Int] {
            let nk = 5;
            let bs = all_bounds(kind, nk);
            let keys: Vec<KeyOwned> = (0..nk).map(|r| kind.key(r)).collect();
            for a in &bs {
                for (i, lo) in keys.iter().enumerate() {
                    for hi in &keys[i..] {
                        n += 1;
                        let some = keys.iter().any(|k| lo <= k && k <= hi && holds(a, k));
                        if some {
                            d += 1;
                            c.log(format!("{a:?} over {lo:?}..{hi:?}"));
                            vp_ensure!(a.overlaps(lo, hi), "{a:?} does not overlap {lo:?}..{hi:?} though a key matches");
                        }
                    }
                }
                for b in &bs {
                    n += 1;
                    let (x, u) = (a.intersect(b), a.union_envelope(b));
                    for k in &keys {
                        vp_ensure!(!(holds(a, k) && holds(b, k)) || holds(&x, k), "{k:?} in {a:?} and {b:?} but not in {x:?}");
                        vp_ensure!(!(holds(a, k) || holds(b, k)) || holds(&u, k), "{k:?} in {a:?} or {b:?} but not in {u:?}");
                        vp_ensure!(!x.is_empty() || !(holds(a, k) && holds(b, k)), "{x:?} claims to be empty");
                    }
                }
            }
        }
        Ok((n, d))
    });
}

fn mask(rng: &mut Rng, n: usize) -> Vec<bool> {
    let p = rng.range(1, 4);
    (0..n).map(|_| rng.chance(p, 5)).collect()
}
fn set(m: &[bool], rng: &mut Rng) -> RowSet {
    let mut sel = vec![];
    let mut i = 0;
    while i < m.len() {
        let mut j = i;
        while j < m.len() && m[j] == m[i] && !(j > i && rng.chance(1, 6)) {
            j += 1;
        }
        sel.push(if m[i] { RowSelector::select(j - i) } else { RowSelector::skip(j - i) });
        i = j;
        if rng.chance(1, 8) {
            sel.push(RowSelector::select(0));
        }
    }
    RowSet::from_row_selection(m.len(), RowSelection::from(sel)).expect("row set")
}
#[test]
fn c18_row_sets() {
    cases("c18_row_sets", 3000, |rng, c| {
        let n = rng.below(14);
        let (a, b) = (mask(rng, n), mask(rng, n));
        c.log(format!("{a:?} {b:?}"));
        let (sa, sb) = (set(&a, rng), set(&b, rng));
        let ids = |m: &dyn Fn(usize) -> bool| (0..n).filter(|i| m(*i)).collect::<Vec<usize>>();
        let check = |s: &RowSet, want: Vec<usize>, what: &str| -> Result<(), String> {
            let got: Vec<usize> = s.iter().collect();
            vp_ensure!(got == want, "{what}: rows {got:?} instead of {want:?}");
            vp_ensure!(s.total_rows() == n && s.len() == want.len(), "{what}: {} of {} rows", s.len(), s.total_rows());
            vp_ensure!(s.is_full() == (want.len() == n) && s.is_empty() == want.is_empty(), "{what}: full/empty wrong");
            vp_ensure!(s.to_row_selection().is_none() == (want.len() == n), "{what}: selection of a partial set dropped");
            Ok(())
        };
        if n > 3 {
            c.nontrivial();
        }
        check(&sa, ids(&|i| a[i]), "set")?;
        check(&sa.intersect(&sb).map_err(|e| e.to_string())?, ids(&|i| a[i] && b[i]), "intersection")?;
        check(&sa.union(&sb).map_err(|e| e.to_string())?, ids(&|i| a[i] || b[i]), "union")?;
        check(&RowSet::all(n), (0..n).collect(), "all")?;
        check(&RowSet::none(n), vec![], "none")?;
        vp_ensure!(RowSet::all(n + 1).intersect(&sa).is_err() && sa.union(&RowSet::none(n + 1)).is_err(), "sets of different sources were combined");
        vp_ensure!(RowSet::from_row_selection(n + 1, sa.selection().clone()).is_err(), "a selection of another length was accepted");
        Ok(())
    });
}

#[test]
fn c18_prefixes() {
    cases("c18_prefixes", 3000, |rng, c| {
        let cs = ['\u{0}', 'a', 'b', 'z', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10fffe}', char::MAX];
        let s = |rng: &mut Rng, lo: usize| (0..lo + rng.below(3)).map(|_| *rng.pick(&cs)).collect::<String>();
        let p = s(rng, 1);
        c.log(format!("prefix {p:?}"));
        match next_prefix_string(&p) {
            None => vp_ensure!(p.chars().all(|c| c == char::MAX), "no upper bound for prefix {p:?}"),
            Some(u) => {
                for _ in 0..20 {
                    let q = if rng.chance(1, 2) { format!("{p}{}", s(rng, 0)) } else { s(rng, 0) };
                    if q.starts_with(&p) {
                        c.nontrivial();
                        vp_ensure!(q < u, "{q:?} starts with {p:?} but is not below {u:?}");
                    }
                }
            }
        }
        Ok(())
    });
}

#[test]
fn c18_segments_by_key() {
    cases("c18_segments_by_key", 500, |rng, c| {
        let kind = Kind::random(rng);
        let mut w = World::new(kind, 1 + rng.below(6));
        c.log(format!("{kind:?}"));
        let n = 2 + rng.below(14);
        w.history(c, rng, n)?;
        w.seal(c)?;
        let segs: Vec<&ImmutableSegment> = w.sealed.iter().map(|s| &s.0).collect();
        for ts in w.read_points(rng) {
            let b = rng.pick(&all_bounds(kind, kind.n().min(6))).clone();
            let kept = prune_segments(&segs, Some(&b), crate::mvcc::Timestamp::new(ts));
            for (i, (_, m)) in w.sealed.iter().enumerate() {
                if visible(m, ts, &Bound::Unbounded, &Bound::Unbounded).iter().any(|v| holds(&b, &kind.key(v.0))) {
                    c.nontrivial();
                    vp_ensure!(kept.contains(&i), "segment {i} holds a visible version of a key in {b:?} at {ts} and was pruned");
                }
            }
        }
        Ok(())
    });
}
