//! C02: parallel evaluation gives the same results as sequential evaluation.
use crate::cfg::{wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Call, Obj, Rec};
use crate::rec::{drive, opt_td_diff, snap, step, step_par, td, Stop};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::{DVector, ObjectiveFunction, ParallelObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    pool: usize,
    /// bit g: generation g uses next_parallel (cyclic)
    mix: u16,
    /// run()/run_parallel() instead of single generations
    whole: bool,
    /// per-point delay pattern that perturbs the schedule
    delay: u64,
    form: u8,
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(10, 60)),
        any_obj(),
        1..15usize,
        prop::sample::select(vec![1usize, 2, 3, 5, 8]),
        prop_oneof![2 => Just(0xffffu16), 2 => any::<u16>()],
        prop::bool::weighted(0.3),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        0..3u8,
    )
        .prop_map(|(cfg, obj, gens, pool, mix, whole, delay, form)| Case {
            cfg,
            obj,
            gens,
            pool,
            mix,
            whole,
            delay,
            form,
        })
        .boxed()
}

thread_local! { static POOLS: RefCell<BTreeMap<usize, Arc<rayon::ThreadPool>>> = RefCell::new(BTreeMap::new()); }
pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
            .clone()
    })
}

/// Recording objective that burns a point-dependent amount of time
#[derive(Clone)]
pub struct Slow {
    pub rec: Rec,
    pub delay: u64,
}
impl Slow {
    pub fn go(&self, x: &DVector<f64>) -> f64 {
        if self.delay != 0 {
            let h = (crate::obj::hash01(x.as_slice(), self.delay) * 8.0) as u32;
            if h == 0 {
                std::thread::yield_now();
            }
            let mut s = 0.0f64;
            for i in 0..h * 200 {
                s += (i as f64).sqrt();
            }
            std::hint::black_box(s);
        }
        self.rec.call(x)
    }
}
impl ObjectiveFunction for Slow {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.go(x)
    }
}
impl ParallelObjectiveFunction for Slow {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.go(x)
    }
}

fn sorted(c: &[Call]) -> Vec<(Vec<u64>, u64)> {
    let mut v: Vec<_> = c
        .iter()
        .map(|c| (c.x.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), c.v.to_bits()))
        .collect();
    v.sort();
    v
}

pub fn same_multiset(a: &[Call], b: &[Call]) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{} points evaluated sequentially, {} in parallel", a.len(), b.len());
    let (x, y) = (sorted(a), sorted(b));
    for (p, q) in x.iter().zip(&y) {
        ensure!(
            p == q,
            "points evaluated differ: {:?} vs {:?}",
            p.0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(),
            q.0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let slow = Slow { rec: Rec::new(&c.obj, &log), delay: c.delay };
    let mut cfg = c.cfg.clone();
    if c.whole {
        cfg.max_gens = Some(c.gens);
    }
    let want = drive(&cfg, Rec::new(&c.obj, &new_log()), c.gens, Stop::Terminated);
    let pl = pool(c.pool);
    let lam = cfg.lam();
    if c.whole {
        let (t, s) = crate::util::on_pool(&pl, || match c.form {
            0 => {
                let mut o = cfg.options().build(slow.clone()).unwrap();
                let t = o.run_parallel();
                (td(&t), snap(&o))
            }
            1 => {
                let b: Box<dyn ParallelObjectiveFunction> = Box::new(slow.clone());
                let mut o = cfg.options().build(b).unwrap();
                let t = o.run_parallel();
                (td(&t), snap(&o))
            }
            _ => {
                let f = |x: &DVector<f64>| slow.go(x);
                let mut o = cfg.options().build(&f).unwrap();
                let t = o.run_parallel();
                (td(&t), snap(&o))
            }
        });
        let calls = take(&log);
        let all: Vec<Call> = want.gens.iter().flat_map(|g| g.calls.clone()).collect();
        same_multiset(&all, &calls).map_err(|e| format!("run_parallel: {}", e))?;
        let last = want.gens.last().unwrap();
        if let Some(d) = last.after.diff(&s) {
            fail!("run vs run_parallel, final state: {}", d);
        }
        if let Some(d) = opt_td_diff(&last.td, &Some(t)) {
            fail!("run vs run_parallel: {}", d);
        }
    } else {
        let mut o = cfg.options().build(slow).unwrap();
        for (g, w) in want.gens.iter().enumerate() {
            let par = c.mix >> (g % 16) & 1 == 1;
            let r = if par {
                crate::util::on_pool(&pl, || step_par(&mut o, &log))
            } else {
                step(&mut o, &log)
            };
            same_multiset(&w.calls, &r.calls).map_err(|e| format!("generation {}: {}", g + 1, e))?;
            if let Some(d) = w.after.diff(&r.after) {
                fail!("generation {} (parallel={}): {}", g + 1, par, d);
            }
            if let Some(d) = opt_td_diff(&w.td, &r.td) {
                fail!("generation {} (parallel={}): {}", g + 1, par, d);
            }
        }
    }
    Ok(Outcome::new(lam > 1 && c.pool > 1 && (c.whole || c.mix != 0))
        .class(format!("pool={}", c.pool))
        .class(if c.whole { "run" } else { "stepwise" })
        .class(c.obj.label())
        .count("evaluations", want.evals())
        .note(format!("{} generations, pool of {}", want.gens.len(), c.pool)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NanCase {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    pool: usize,
    hash: u64,
    /// expected number of generations per invalid value
    every: f64,
    whole: bool,
    delay: u64,
}

fn nan_strategy(_: Tier) -> BoxedStrategy<NanCase> {
    (
        with_cons(wide_cfg(10, 60)),
        any_obj(),
        1..25usize,
        prop::sample::select(vec![1usize, 2, 3, 5, 8]),
        any::<u64>(),
        0.2..8.0f64,
        prop::bool::weighted(0.4),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
    )
        .prop_map(|(cfg, obj, gens, pool, hash, every, whole, delay)| NanCase { cfg, obj, gens, pool, hash, every, whole, delay })
        .boxed()
}

/// Up to the generation in which the objective function first returns NaN. (Which of the remaining
/// points of that generation are evaluated is left open.)
fn check_nan(c: &NanCase) -> CheckResult {
    let mut cfg = c.cfg.clone();
    cfg.max_gens = c.whole.then_some(c.gens);
    let p = 1.0 / c.every / cfg.lam() as f64;
    let rec = |log: &crate::obj::Log| {
        let mut r = Rec::new(&c.obj, log);
        r.nan_hash = Some((c.hash, p));
        r
    };
    let want = drive(&cfg, rec(&new_log()), c.gens, Stop::Terminated);
    let log = new_log();
    let slow = Slow { rec: rec(&log), delay: c.delay };
    let pl = pool(c.pool);
    let mut o = cfg.options().build(slow).unwrap();
    let first = snap(&o);
    let bad = want.gens.iter().position(|g| g.calls.iter().any(|c| c.v.is_nan()));
    if c.whole {
        let t = td(&crate::util::on_pool(&pl, || o.run_parallel()));
        let calls = take(&log);
        let last = want.gens.last().unwrap();
        let mut s = snap(&o);
        ensure!(s.evals == calls.len(), "run_parallel: function_evals {} after {} calls", s.evals, calls.len());
        if bad.is_some() {
            let before: usize = want.gens[..want.gens.len() - 1].iter().map(|g| g.calls.len()).sum();
            ensure!(
                calls.len() > before && calls.len() <= before + cfg.lam(),
                "run_parallel: {} calls, {} before the generation with the invalid value",
                calls.len(),
                before
            );
            s.evals = last.after.evals;
        }
        if let Some(d) = last.after.diff(&s) {
            fail!("run vs run_parallel with an invalid value, final state: {}", d);
        }
        if let Some(d) = opt_td_diff(&last.td, &Some(t)) {
            fail!("run vs run_parallel with an invalid value: {}", d);
        }
    } else {
        let mut prev = first.evals;
        for (g, w) in want.gens.iter().enumerate() {
            let mut r = crate::util::on_pool(&pl, || step_par(&mut o, &log));
            ensure!(
                r.after.evals == prev + r.calls.len(),
                "generation {}: function_evals went from {} to {} with {} calls",
                g + 1,
                prev,
                r.after.evals,
                r.calls.len()
            );
            prev = r.after.evals;
            if bad == Some(g) {
                ensure!(r.calls.iter().any(|c| c.v.is_nan()), "generation {}: no invalid value in the parallel run", g + 1);
                r.after.evals = w.after.evals;
            } else {
                same_multiset(&w.calls, &r.calls).map_err(|e| format!("generation {}: {}", g + 1, e))?;
            }
            if let Some(d) = w.after.diff(&r.after) {
                fail!("generation {} (invalid value: {}): {}", g + 1, bad == Some(g), d);
            }
            if let Some(d) = opt_td_diff(&w.td, &r.td) {
                fail!("generation {} (invalid value: {}): {}", g + 1, bad == Some(g), d);
            }
            if bad == Some(g) {
                break;
            }
        }
    }
    Ok(Outcome::new(bad.is_some() && cfg.lam() > 1 && c.pool > 1)
        .class(format!("invalid value: {}", bad.is_some()))
        .class(if c.whole { "run with an invalid value" } else { "stepwise with an invalid value" })
        .count("invalid_values", bad.is_some() as u64)
        .note(format!("{} generations, invalid value in {:?}", want.gens.len(), bad.map(|g| g + 1))))
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "a generated configuration and pure objective are run sequentially and with next_parallel/run_parallel (or a generated mixture) on a thread pool of generated size with point-dependent delays; non-trivial when the pool has more than one thread and some generation is evaluated in parallel. invalid: the same with an objective that returns NaN at pseudo-random points, up to the first such generation.",
        assumptions: vec!["parallel_update is off", "schedules come from the operating system under generated delays, not from a controlled scheduler"],
        sections: vec![Box::new(Section {
            name: "schedules",
            quick: 6000,
            thorough: 150000,
            strategy,
            check,
            fixed: no_fixed,
        }),
            Box::new(Section { name: "invalid", quick: 2000, thorough: 60000, strategy: nan_strategy, check: check_nan, fixed: no_fixed }),
        ],
        shards: 6,
    }
}
