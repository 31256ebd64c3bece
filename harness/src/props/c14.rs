//! C14: equivariance under scaling and translation of the search space.
use crate::cfg::{core_cfg, nans, some_cons, wide_cfg, Cfg, Cons};
use crate::model::has_ties;
use crate::obj::{any_obj, new_log, smooth_obj, take, Call, Obj};
use crate::rec::{snap, td, Gen, Snap};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::bits_eq;
use cmaes::{Constraints, DVector, TerminationReason as R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Debug)]
struct MapCons {
    cons: Cons,
    scale: f64,
}
impl Constraints for MapCons {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let y: Vec<f64> = x.iter().map(|v| v / self.scale).collect();
        self.cons.ok(&y)
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

fn run(cfg: &Cfg, cons: &Option<Cons>, obj: &Obj, gens: usize, scale: f64, shift: &[f64], parallel: bool, nan: &[usize]) -> (Snap, Vec<Gen>) {
    let log = new_log();
    let l2 = log.clone();
    let obj = obj.clone();
    let shift = shift.to_vec();
    let nan = nan.to_vec();
    let calls = AtomicUsize::new(0);
    let f = move |x: &DVector<f64>| {
        let y: Vec<f64> = x.iter().zip(&shift).map(|(v, s)| (v - s) / scale).collect();
        let i = calls.fetch_add(1, Ordering::SeqCst);
        let v = if nan.contains(&i) { f64::NAN } else { obj.eval(&y) };
        l2.lock().unwrap().push(Call { x: x.as_slice().to_vec(), v });
        v
    };
    let mut o = cfg.options();
    if let Some(c) = cons {
        o = match c {
            Cons::Bounds { lower, upper } => o.bounds(lower.iter().map(|v| v * scale).collect(), upper.iter().map(|v| v * scale).collect()),
            c => o.constraints(Box::new(MapCons { cons: c.clone(), scale })),
        };
    }
    let mut o = o.build(f).unwrap();
    let first = snap(&o);
    let mut out = vec![];
    for _ in 0..gens {
        let t = if parallel { o.next_parallel() } else { o.next() };
        let mut calls = take(&log);
        if parallel {
            calls.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap_or(std::cmp::Ordering::Equal));
        }
        let g = Gen { calls, after: snap(&o), td: t.as_ref().map(td) };
        let stop = g.td.as_ref().map_or(false, |t| t.reasons == [R::PosDefCov]);
        out.push(g);
        if stop {
            break;
        }
    }
    (first, out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    cons: Option<Cons>,
    obj: Obj,
    gens: usize,
    exp: i32,
    parallel: bool,
    /// calls that return NaN
    nan: Vec<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (12usize, 300usize) } else { (30, 1500) };
    wide_cfg(dim, 30)
        .prop_flat_map(move |cfg| {
            let cons = prop::option::weighted(0.4, some_cons(cfg.mean.clone(), cfg.sigma));
            (
                Just(cfg),
                cons,
                any_obj(),
                prop_oneof![3 => 1..40usize, 1 => 40..long],
                prop_oneof![2 => -8..8i32, 1 => -120..120i32],
                prop::bool::weighted(0.3),
                prop::option::of(prop_oneof![1e-6..1.0f64, 1.0..3.0f64]),
                (prop::option::weighted(0.3, 1.0..50.0f64), prop::option::weighted(0.3, 1.0..1e4f64), prop::option::weighted(0.3, 1..8usize)),
                nans(),
            )
        })
        .prop_map(|(mut cfg, cons, obj, gens, exp, parallel, tol_x, (up, cond, m), nan)| {
            cfg.tol_x = tol_x.map(|t| t * cfg.sigma);
            cfg.tol_x_up = up;
            cfg.tol_condition_cov = cond;
            cfg.max_resamples = m.map(Some);
            // (a parallel generation that fails may evaluate any subset)
            let nan = if parallel { vec![] } else { nan };
            Case { cfg, cons, obj, gens, exp, parallel, nan }
        })
        .boxed()
}

fn in_range(x: f64) -> bool {
    x == 0.0 || (x.abs() > 1e-200 && x.abs() < 1e200)
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    let s = 2f64.powi(c.exp);
    let mut b = c.cfg.clone();
    b.mean.iter_mut().for_each(|m| *m *= s);
    b.sigma *= s;
    b.tol_x = b.tol_x.map(|t| t * s);
    let zero = vec![0.0; n];
    let (fa, ga) = run(&c.cfg, &c.cons, &c.obj, c.gens, 1.0, &zero, c.parallel, &c.nan);
    let (fb, gb) = run(&b, &c.cons, &c.obj, c.gens, s, &zero, c.parallel, &c.nan);
    let same = |what: &str, a: &[f64], b: &[f64]| -> Result<(), String> {
        match a.iter().zip(b).position(|(a, b)| !bits_eq(a * s, *b)) {
            Some(i) => Err(format!("{}[{}] = {:e}, scaled run (2^{}) {:e}", what, i, a[i], c.exp, b[i])),
            None => Ok(()),
        }
    };
    same("initial mean", &fa.mean, &fb.mean)?;
    same("initial sigma", &[fa.sigma], &[fb.sigma])?;
    let mut compared = 0;
    let mut reasons = 0;
    for (g, (a, b)) in ga.iter().zip(&gb).enumerate() {
        let fin = a.after.mean.iter().chain(&a.after.cov).all(|x| in_range(*x))
            && in_range(a.after.sigma)
            && a.calls.iter().all(|c| c.x.iter().all(|x| in_range(*x)));
        if !fin {
            break;
        }
        let at = |e: String| format!("generation {}: {}", g + 1, e);
        ensure!(a.calls.len() == b.calls.len(), "generation {}: {} vs {} evaluations", g + 1, a.calls.len(), b.calls.len());
        for (i, (p, q)) in a.calls.iter().zip(&b.calls).enumerate() {
            same(&format!("evaluation {}", i), &p.x, &q.x).map_err(at)?;
            ensure!(bits_eq(p.v, q.v), "generation {}: values {:e} and {:e}", g + 1, p.v, q.v);
        }
        same("mean", &a.after.mean, &b.after.mean).map_err(at)?;
        same("sigma", &[a.after.sigma], &[b.after.sigma]).map_err(at)?;
        let mut bs = b.after.clone();
        bs.mean = a.after.mean.clone();
        bs.sigma = a.after.sigma;
        if let Some(d) = a.after.diff_state(&bs) {
            fail!("generation {}: {} in the scaled run", g + 1, d);
        }
        for (what, p, q) in [("current best", &a.after.cur, &b.after.cur), ("overall best", &a.after.best, &b.after.best)] {
            match (p, q) {
                (None, None) => {}
                (Some(p), Some(q)) => {
                    same(what, &p.0, &q.0).map_err(at)?;
                    ensure!(bits_eq(p.1, q.1), "generation {}: {} values {:e} and {:e}", g + 1, what, p.1, q.1);
                }
                _ => fail!("generation {}: {} {:?} vs {:?}", g + 1, what, p, q),
            }
        }
        match (&a.td, &b.td) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                reasons += 1;
                ensure!(p.reasons == q.reasons, "generation {}: reasons {:?}, scaled run {:?}", g + 1, p.reasons, q.reasons);
                same("final mean", &p.final_mean, &q.final_mean).map_err(at)?;
            }
            (p, q) => fail!(
                "generation {}: termination {:?}, scaled run {:?}",
                g + 1,
                p.as_ref().map(|t| &t.reasons),
                q.as_ref().map(|t| &t.reasons)
            ),
        }
        compared += 1;
    }
    Ok(Outcome::new(compared >= 2)
        .class(c.obj.label())
        .class(if c.cons.is_some() { "constrained" } else { "unconstrained" })
        .count("generations", compared)
        .count("terminations_compared", reasons)
        .note(format!("2^{}, {} generations", c.exp, compared)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoveCase {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    #[serde(with = "crate::util::fser::vec")]
    by: Vec<f64>,
}

fn move_strategy(_: Tier) -> BoxedStrategy<MoveCase> {
    (core_cfg(10, 24), smooth_obj(), 1..20usize, prop::collection::vec(-1.0..1.0f64, 10), prop_oneof![Just(1.0), Just(100.0), 1.0..1e4f64])
        .prop_map(|(mut cfg, mut obj, gens, by, mag)| {
            cfg.sigma = cfg.sigma.clamp(0.05, 5.0);
            if cfg.mean.iter().any(|m| m.abs() > 10.0) {
                cfg.mean.iter_mut().for_each(|m| *m /= 100.0);
            }
            if let crate::obj::Kind::Hash(_) | crate::obj::Kind::Noisy(_) = obj.kind {
                obj.kind = crate::obj::Kind::Rosenbrock;
            }
            let by = by[..cfg.dim()].iter().map(|b| b * mag).collect();
            MoveCase { cfg, obj, gens, by }
        })
        .boxed()
}

fn check_move(c: &MoveCase) -> CheckResult {
    let n = c.cfg.dim();
    let mut b = c.cfg.clone();
    b.mean.iter_mut().zip(&c.by).for_each(|(m, t)| *m += t);
    let (_, ga) = run(&c.cfg, &None, &c.obj, c.gens, 1.0, &vec![0.0; n], false, &[]);
    let (_, gb) = run(&b, &None, &c.obj, c.gens, 1.0, &c.by, false, &[]);
    let big = c.by.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    let mut compared = 0;
    let mut tol = 1e-14 * big / c.cfg.sigma.min(1.0);
    for (g, (a, b)) in ga.iter().zip(&gb).enumerate() {
        // rounding differences grow from generation to generation
        tol *= 4.0;
        if !(tol < 1e-3) || !(a.after.sigma > 1e-3 && a.after.sigma < 1e4) {
            break;
        }
        for (i, (p, q)) in a.calls.iter().zip(&b.calls).enumerate() {
            for k in 0..n {
                ensure!(
                    (p.x[k] + c.by[k] - q.x[k]).abs() <= tol * (1.0 + p.x[k].abs()),
                    "generation {}: evaluation {}[{}] = {:e}, translated run {:e} (translation {:e}, tolerance {:e})",
                    g + 1,
                    i,
                    k,
                    p.x[k],
                    q.x[k],
                    c.by[k],
                    tol
                );
            }
        }
        // ranking must be the same: otherwise the runs may part
        let order = |g: &Gen| crate::model::rank(&g.calls, c.cfg.max);
        if order(a) != order(b) || has_ties(&a.calls) {
            break;
        }
        let scale = |k: usize| a.after.mean[k].abs() + a.after.sigma * a.after.cov[k * n + k].sqrt();
        for k in 0..n {
            ensure!(
                (a.after.mean[k] + c.by[k] - b.after.mean[k]).abs() <= 4.0 * tol * (1.0 + scale(k)),
                "generation {}: mean[{}] = {:e}, translated run {:e} (translation {:e})",
                g + 1,
                k,
                a.after.mean[k],
                b.after.mean[k],
                c.by[k]
            );
        }
        ensure!(
            (a.after.sigma - b.after.sigma).abs() <= 16.0 * tol * a.after.sigma,
            "generation {}: sigma {:e}, translated run {:e}",
            g + 1,
            a.after.sigma,
            b.after.sigma
        );
        compared += 1;
    }
    Ok(Outcome::new(compared >= 2).class(c.obj.label()).count("generations", compared).note(format!("{} generations", compared)))
}

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "scaling: a generated run is repeated with mean, step size, constraints and tol_x multiplied by 2^k and the objective pulled back; everything is compared exactly; non-trivial with at least two generations compared. translation: the same with a translation, up to rounding that may grow fourfold per generation, until rankings differ.",
        assumptions: vec![
            "numbers stay in 1e-200..1e200, so scaling by 2^k is exact",
            "a translated run may rank points differently once values differ by rounding; comparison ends there",
        ],
        sections: vec![
            Box::new(Section { name: "scaling", quick: 30000, thorough: 500000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "translation", quick: 15000, thorough: 300000, strategy: move_strategy, check: check_move, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
