//@attach src/lib.rs
//! Shared parts of the bounded harness: seeded random cases, reporting, fixtures.
#![allow(dead_code)]
use std::{
    collections::HashSet,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Arc,
};

use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};

#[derive(Clone)]
pub(crate) struct Rng(u64);

impl Rng {
    pub(crate) fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub(crate) fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub(crate) fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub(crate) fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.next() % (hi - lo + 1)
    }
    pub(crate) fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub(crate) fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// interesting 64-bit values
    pub(crate) fn u64ish(&mut self) -> u64 {
        match self.below(6) {
            0 => self.range(0, 3),
            1 => u64::MAX - self.range(0, 3),
            2 => 1 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            _ => self.next(),
        }
    }
    pub(crate) fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// One generated case: a log of what was done (the replay input) and whether it was non-trivial.
#[derive(Default)]
pub(crate) struct Case {
    log: Vec<String>,
    nontrivial: bool,
    sig: u64,
}

impl Case {
    pub(crate) fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        for b in s.bytes() {
            self.sig = (self.sig ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    pub(crate) fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub(crate) fn thorough() -> bool {
    std::env::var("VP_TIER").map(|v| v == "thorough").unwrap_or(false)
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// Run `quick` random cases (scaled by VP_SCALE) of `f`; a failing case is reported with its seed, index and log.
pub(crate) fn cases(
    test: &str,
    quick: u64,
    f: impl Fn(&mut Rng, &mut Case) -> Result<(), String>,
) {
    let seed = env_u64("VERIF_SEED", 1);
    let n = quick * env_u64("VP_SCALE", 1);
    let only = std::env::var("VP_CASE").ok().and_then(|v| v.parse::<u64>().ok());
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in test.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut seen = HashSet::new();
    let mut nontriv = 0u64;
    let mut sample = String::new();
    let mut ran = 0u64;
    let budget = std::time::Duration::from_secs(env_u64("VP_BUDGET", 60));
    let t0 = std::time::Instant::now();
    let lo = only.unwrap_or(0);
    let hi = only.map(|x| x + 1).unwrap_or(n);
    for i in lo..hi {
        if t0.elapsed() > budget {
            break;
        }
        let mut rng = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
        let mut case = Case::default();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut case)));
        ran += 1;
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!(
                "panicked: {}",
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
            )),
        };
        if let Some(e) = err {
            println!(
                "\nVPFAIL {{\"test\":{},\"seed\":{seed},\"case\":{i},\"what\":{},\"input\":[{}]}}",
                js(test),
                js(&e),
                case.log.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
            panic!("{test}: case {i}: {e}");
        }
        if case.nontrivial && seen.insert(case.sig) {
            nontriv += 1;
            if sample.is_empty() || i == 7 {
                sample = case.log.iter().take(12).cloned().collect::<Vec<_>>().join("; ");
                sample.truncate(600);
            }
        }
    }
    println!(
        "\nVPSTAT {{\"test\":{},\"evaluations\":{ran},\"distinct_nontrivial\":{nontriv},\"sample\":{}}}",
        js(test),
        js(&sample)
    );
}

/// An exhaustive enumeration: the closure reports how many points it visited.
pub(crate) fn enumerate(test: &str, f: impl Fn(&mut Case) -> Result<(u64, u64), String>) {
    let mut case = Case::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!(
            "panicked: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    };
    match r {
        Ok((n, d)) => println!(
            "\nVPSTAT {{\"test\":{},\"evaluations\":{n},\"distinct_nontrivial\":{d},\"exhaustive\":true,\"sample\":{}}}",
            js(test),
            js(&case.log.iter().take(6).cloned().collect::<Vec<_>>().join("; "))
        ),
        Err(e) => {
            println!(
                "\nVPFAIL {{\"test\":{},\"seed\":0,\"case\":0,\"what\":{},\"input\":[{}]}}",
                js(test),
                js(&e),
                case.log.iter().rev().take(50).rev().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
            panic!("{test}: {e}");
        }
    }
}

#[macro_export]
macro_rules! vp_ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub(crate) fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("runtime")
        .block_on(f)
}

/// Rows of (id: Utf8 key, v: Int64 nullable).
pub(crate) fn kv_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Utf8, false),
        Field::new("v", DataType::Int64, true),
    ]))
}

pub(crate) fn kv_batch(rows: &[(String, Option<i64>)]) -> RecordBatch {
    let ids: ArrayRef = Arc::new(StringArray::from(
        rows.iter().map(|r| r.0.clone()).collect::<Vec<_>>(),
    ));
    let vs: ArrayRef = Arc::new(Int64Array::from(rows.iter().map(|r| r.1).collect::<Vec<_>>()));
    RecordBatch::try_new(kv_schema(), vec![ids, vs]).expect("kv batch")
}

pub(crate) fn u64_col(v: &[u64]) -> ArrayRef {
    Arc::new(UInt64Array::from(v.to_vec()))
}
