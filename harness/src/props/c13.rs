//! C13: invariance under strictly increasing transformations of the objective values.
use crate::cfg::{nans, wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Call, Obj, Rec};
use crate::rec::{drive, snap, td, Gen, Stop};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, mix, vec_bits_eq};
use cmaes::{DVector, TerminationReason as R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tr {
    /// v < 0: v 2^a, otherwise v 2^b
    Piecewise(i32, i32),
    /// the k-th next representable number
    Bits(i64),
    /// the rank of the value among all values of the run
    Rank,
    /// increasing pseudo-random numbers, by rank
    RandomSteps(u64),
    /// by rank, the worst and best value of the run become infinite
    Infinite,
    /// by rank, differences of one unit in the last place around 1
    Ulps,
    /// by rank, spread over the whole exponent range
    Wide,
    /// by rank, adjacent numbers: the largest ones (1), the lowest ones (-1), the smallest positive
    /// ones (2), those around zero (0)
    Extreme(i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    tr: Tr,
    #[serde(default)]
    nan: Vec<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (12usize, 100usize) } else { (30, 400) };
    (
        with_cons(wide_cfg(dim, 30)),
        any_obj(),
        prop_oneof![2 => 1..20usize, 1 => 20..long],
        prop_oneof![
            1 => (-30..30i32, -30..30i32).prop_map(|(a, b)| Tr::Piecewise(a, b)),
            1 => (-1_000_000..1_000_000i64).prop_map(Tr::Bits),
            1 => Just(Tr::Rank),
            1 => any::<u64>().prop_map(Tr::RandomSteps),
            1 => Just(Tr::Infinite),
            1 => Just(Tr::Ulps),
            1 => Just(Tr::Wide),
            1 => (-1..=2i8).prop_map(Tr::Extreme),
        ],
        (prop::bool::weighted(0.3), prop::bool::weighted(0.3)),
        nans(),
    )
        .prop_map(|(mut cfg, obj, gens, tr, (a, b), nan)| {
            // value-based criteria may fire and must not matter
            if a {
                cfg.fun_target = Some(0.5);
                cfg.tol_fun_rel = Some(1e-3);
            }
            if b {
                cfg.tol_fun = Some(1e-2);
                cfg.tol_stagnation = Some(4);
            }
            Case { cfg, obj, gens, tr, nan }
        })
        .boxed()
}

fn build_map(tr: &Tr, vals: &[f64]) -> HashMap<u64, f64> {
    let mut s: Vec<f64> = vals.iter().map(|v| v + 0.0).collect();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup_by(|a, b| a == b);
    let n = s.len();
    let mut acc = -(n as f64);
    s.iter()
        .enumerate()
        .map(|(i, v)| {
            let w = match tr {
                Tr::Piecewise(a, b) => {
                    if *v < 0.0 {
                        v * 2f64.powi(*a)
                    } else {
                        v * 2f64.powi(*b)
                    }
                }
                Tr::Bits(k) => {
                    if v.abs() > 1e300 {
                        *v
                    } else {
                        // distance along the representable numbers
                        let o = if *v >= 0.0 { v.to_bits() as i64 } else { -((-v).to_bits() as i64) } + k;
                        if o >= 0 {
                            f64::from_bits(o as u64)
                        } else {
                            -f64::from_bits((-o) as u64)
                        }
                    }
                }
                Tr::Rank => i as f64,
                Tr::RandomSteps(h) => {
                    acc += 1e-3 + (mix(h ^ i as u64) >> 40) as f64;
                    acc
                }
                Tr::Infinite => {
                    if i == 0 && n > 1 {
                        f64::NEG_INFINITY
                    } else if i + 1 == n && n > 2 {
                        f64::INFINITY
                    } else {
                        i as f64 * 0.5 - 3.0
                    }
                }
                Tr::Ulps => f64::from_bits(1f64.to_bits() + i as u64),
                Tr::Extreme(k) => match k {
                    1 => f64::from_bits(f64::MAX.to_bits() - (n - 1 - i) as u64),
                    -1 => -f64::from_bits(f64::MAX.to_bits() - i as u64),
                    2 => f64::from_bits(1 + i as u64),
                    _ => {
                        let o = i as i64 - n as i64 / 2;
                        if o >= 0 {
                            f64::from_bits(o as u64)
                        } else {
                            -f64::from_bits(-o as u64)
                        }
                    }
                },
                Tr::Wide => {
                    // from -1e300 over 0 to 1e300
                    let t = (i as f64 - n as f64 / 2.0) / (n as f64);
                    let e = (t.abs() * 1200.0) - 300.0;
                    if t == 0.0 {
                        0.0
                    } else {
                        t.signum() * 10f64.powf(e) * (1.0 + t.abs())
                    }
                }
            };
            (v.to_bits(), w)
        })
        .collect()
}

fn value_based(r: &R) -> bool {
    matches!(r, R::FunTarget | R::TolFun | R::TolFunRel | R::TolFunHist | R::TolStagnation)
}

fn check(c: &Case) -> CheckResult {
    let a = drive(&c.cfg, Rec::new(&c.obj, &new_log()).nan_at(c.nan.clone()), c.gens, Stop::Never);
    let vals: Vec<f64> = a.gens.iter().flat_map(|g| g.calls.iter().map(|c| c.v)).filter(|v| c.nan.is_empty() || !v.is_nan()).collect();
    if vals.iter().any(|v| v.is_nan()) {
        return Ok(Outcome::trivial().class("diverged"));
    }
    let map = build_map(&c.tr, &vals);
    // strictly increasing by construction; verify (overflow or underflow could merge values)
    let mut keys: Vec<f64> = map.keys().map(|k| f64::from_bits(*k)).collect();
    keys.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if keys.windows(2).any(|w| !(map[&w[0].to_bits()] < map[&w[1].to_bits()])) {
        return Ok(Outcome::trivial().class("not representable"));
    }
    let unknown = Cell::new(None);
    let calls = Cell::new(0usize);
    let log = new_log();
    let log2 = log.clone();
    let f = |x: &DVector<f64>| {
        let v = c.obj.eval(x.as_slice());
        let k = calls.replace(calls.get() + 1);
        let w = if c.nan.contains(&k) || (v.is_nan() && !c.nan.is_empty()) {
            f64::NAN
        } else {
            match map.get(&(v + 0.0).to_bits()) {
                Some(w) => *w,
                None => {
                    unknown.set(Some(v));
                    v
                }
            }
        };
        log2.lock().unwrap().push(Call { x: x.as_slice().to_vec(), v: w });
        w
    };
    let mut o = c.cfg.options().build(f).unwrap();
    for (g, ga) in a.gens.iter().enumerate() {
        let t = o.next();
        let gb = Gen { calls: take(&log), after: snap(&o), td: t.as_ref().map(td) };
        ensure!(ga.calls.len() == gb.calls.len(), "generation {}: {} vs {} evaluations", g + 1, ga.calls.len(), gb.calls.len());
        for (i, (p, q)) in ga.calls.iter().zip(&gb.calls).enumerate() {
            ensure!(vec_bits_eq(&p.x, &q.x), "generation {}: evaluation {} at {:?}, with transformed values at {:?}", g + 1, i, p.x, q.x);
        }
        if let Some(d) = ga.after.diff_state(&gb.after) {
            fail!("generation {}: {}", g + 1, d);
        }
        for (what, p, q) in [("current", &ga.after.cur, &gb.after.cur), ("overall", &ga.after.best, &gb.after.best)] {
            match (p, q) {
                (None, None) => {}
                (Some(p), Some(q)) => {
                    ensure!(vec_bits_eq(&p.0, &q.0), "generation {}: {} best at {:?}, with transformed values {:?}", g + 1, what, p.0, q.0);
                    let want = map[&(p.1 + 0.0).to_bits()];
                    ensure!(bits_eq(q.1, want), "generation {}: {} best value {:e}, transformed {:e}", g + 1, what, q.1, want);
                }
                (p, q) => fail!("generation {}: {} best {:?}, with transformed values {:?}", g + 1, what, p, q),
            }
        }
        let rs = |g: &Gen| -> Vec<R> {
            g.td.as_ref().map(|t| t.reasons.iter().filter(|r| !value_based(r)).cloned().collect()).unwrap_or_default()
        };
        ensure!(rs(ga) == rs(&gb), "generation {}: reasons {:?}, with transformed values {:?}", g + 1, rs(ga), rs(&gb));
    }
    ensure!(unknown.get().is_none(), "value {:?} never occurred in the original run", unknown.get());
    let distinct = map.len();
    Ok(Outcome::new(distinct >= 3 && a.gens.len() >= 2)
        .class(match c.tr {
            Tr::Piecewise(..) => "piecewise",
            Tr::Bits(_) => "bits",
            Tr::Rank => "rank",
            Tr::RandomSteps(_) => "random steps",
            Tr::Infinite => "infinite",
            Tr::Ulps => "ulps",
            Tr::Wide => "wide",
            Tr::Extreme(_) => "extreme",
        })
        .class(c.obj.label())
        .count("generations", a.gens.len() as u64)
        .count("generations_with_ties", a.gens.iter().filter(|g| crate::model::has_ties(&g.calls)).count() as u64)
        .count("distinct_values", distinct as u64))
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "a generated run is repeated with every objective value replaced through a strictly increasing map (piecewise scaling, next representable numbers, ranks, random steps, infinite extremes, unit-in-last-place spacing, full exponent range); points, states and non-value-based reasons are compared bit for bit; non-trivial with at least 3 distinct values and 2 generations.",
        assumptions: vec!["FunTarget, TolFun, TolFunRel, TolFunHist and TolStagnation may differ; the run is continued through them"],
        sections: vec![Box::new(Section { name: "monotone", quick: 50000, thorough: 800000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
