//@attach src/wal/mod.rs
//! C01: the commit-timestamp column is added and removed without touching the rows.
use super::*;
use crate::{
    vp_ensure,
    vp_util::{cases, kv_batch, u64_col},
};

#[test]
fn commit_column() {
    cases("c01::commit_column", 300, |rng, c| {
        let n = rng.below(6);
        let rows: Vec<_> = (0..n).map(|i| (format!("k{i}"), if rng.chance(1, 3) { None } else { Some(rng.next() as i64) })).collect();
        let b = kv_batch(&rows);
        let ts = rng.u64ish();
        c.log(format!("rows={rows:?} ts={ts}"));
        c.nontrivial();
        let w = append_commit_column(&b, &u64_col(&vec![ts; n])).map_err(|e| format!("{e:?}"))?;
        vp_ensure!(w.num_columns() == b.num_columns() + 1 && w.num_rows() == n, "shape");
        let (s, hint, col) = split_commit_column(w.clone()).map_err(|e| format!("{e:?}"))?;
        vp_ensure!(s == b && s.schema() == b.schema(), "rows changed");
        vp_ensure!(hint == if n == 0 { None } else { Some(Timestamp::new(ts)) }, "hint {hint:?}");
        vp_ensure!(&col == &u64_col(&vec![ts; n]), "column changed");
        // refused: wrong length, varying values, second column, missing column
        vp_ensure!(append_commit_column(&b, &u64_col(&vec![ts; n + 1])).is_err(), "longer column accepted");
        if n >= 1 {
            vp_ensure!(append_commit_column(&b, &u64_col(&vec![ts; n - 1])).is_err(), "shorter column accepted");
        }
        if n >= 2 {
            let mut v = vec![ts; n];
            let at = rng.below(n);
            v[at] = ts.wrapping_add(1);
            vp_ensure!(append_commit_column(&b, &u64_col(&v)).is_err(), "varying timestamps accepted");
        }
        vp_ensure!(append_commit_column(&w, &u64_col(&vec![ts; n])).is_err(), "second commit column accepted");
        vp_ensure!(split_commit_column(b).is_err(), "missing commit column accepted");
        Ok(())
    });
}
