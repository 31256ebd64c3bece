//! C06: accounting of generations and evaluations; run is repeated next.
use crate::cfg::{wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Obj, Rec};
use crate::rec::{snap, step, step_par, td};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, vec_bits_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    /// op codes: 0 next, 1 next_parallel, 2 run, 3 run_parallel
    ops: Vec<u8>,
    /// time limit in milliseconds: none, zero or never reached
    max_time: Option<u64>,
}

impl Case {
    fn options(&self, cfg: &Cfg) -> cmaes::CMAESOptions {
        match self.max_time {
            Some(ms) => cfg.options().max_time(Duration::from_millis(ms)),
            None => cfg.options(),
        }
    }
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(8, 24)),
        any_obj(),
        prop::collection::vec(prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], 1..20),
        prop::option::weighted(0.4, 0..400usize),
        prop::option::weighted(0.4, 0..12usize),
        any::<bool>(),
        prop::option::weighted(0.2, 0..60usize),
        prop_oneof![4 => Just(None), 1 => Just(Some(0u64)), 1 => Just(Some(3_600_000)), 1 => Just(Some(u64::MAX))],
    )
        .prop_map(|(mut cfg, obj, ops, me, mg, pu, plot, max_time)| {
            cfg.max_evals = me;
            cfg.max_gens = mg;
            cfg.parallel_update = pu && cfg.seed % 3 == 0;
            cfg.plot_gap = plot;
            Case { cfg, obj, ops, max_time }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let mut cfg = c.cfg.clone();
    let has_run = c.ops.iter().any(|o| *o >= 2);
    if has_run && cfg.max_evals.is_none() && cfg.max_gens.is_none() {
        cfg.max_gens = Some(7);
    }
    let t0 = Instant::now();
    let mut o = c.options(&cfg).build(Rec::new(&c.obj, &log)).unwrap();
    let t1 = Instant::now();
    let lam = cfg.lam();
    ensure!(o.time_created() >= t0 && o.time_created() <= t1, "time_created lies outside the call that created it");
    ensure!(o.parameters().lambda() == lam, "population size {} reported as {}", lam, o.parameters().lambda());
    ensure!(o.generation() == 0 && o.function_evals() == 0, "counters do not start at zero");
    ensure!(take(&log).is_empty(), "the objective is evaluated while building");
    ensure!(vec_bits_eq(o.mean().as_slice(), &cfg.mean), "initial mean {:?} is not the configured {:?}", o.mean(), cfg.mean);
    ensure!(bits_eq(o.sigma(), cfg.sigma), "initial sigma {:e} is not the configured {:e}", o.sigma(), cfg.sigma);
    let created = o.time_created();
    let params0 = format!("{:?}", o.parameters());
    let (mut gens, mut evals) = (0usize, 0usize);
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut terminated = 0;
    let mut last_elapsed = Duration::ZERO;
    for (i, op) in c.ops.iter().enumerate() {
        let before = snap(&o);
        match op {
            0 | 1 => {
                let r = if *op == 0 { step(&mut o, &log) } else { step_par(&mut o, &log) };
                if let Some(t) = &r.td {
                    if t.reasons.contains(&cmaes::TerminationReason::PosDefCov) {
                        return Ok(Outcome::trivial().class("posdef"));
                    }
                }
                gens += 1;
                evals += lam;
                ensure!(r.calls.len() == lam, "op {}: {} evaluations in a generation of {}", i, r.calls.len(), lam);
                ensure!(r.after.gen == gens, "op {}: generation() = {} after {} generations", i, r.after.gen, gens);
                ensure!(r.after.evals == evals, "op {}: function_evals() = {} after {} evaluations", i, r.after.evals, evals);
                // points of one generation are distinct unless sigma is lost in rounding
                let big = before.mean.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                let emin = before.eig.iter().cloned().fold(f64::INFINITY, f64::min).sqrt();
                if before.sigma * emin > big * 1e-6 {
                    for k in &r.calls {
                        ensure!(
                            seen.insert(k.x.iter().map(|x| x.to_bits()).collect()),
                            "op {}: point {:?} is evaluated twice",
                            i,
                            k.x
                        );
                    }
                }
                if let Some(t) = &r.td {
                    terminated += 1;
                    ensure!(!t.reasons.is_empty(), "op {}: terminated without a reason", i);
                    let u: HashSet<_> = t.reasons.iter().collect();
                    ensure!(u.len() == t.reasons.len(), "op {}: repeated reasons {:?}", i, t.reasons);
                    ensure!(
                        vec_bits_eq(&t.final_mean, &r.after.mean),
                        "op {}: final mean {:?}, mean() {:?}",
                        i,
                        t.final_mean,
                        r.after.mean
                    );
                }
            }
            _ => {
                // a twin brought to the same point runs with repeated next()
                let r = if *op == 2 { o.run() } else { o.run_parallel() };
                let calls = take(&log);
                let t = td(&r);
                if t.reasons.contains(&cmaes::TerminationReason::PosDefCov) {
                    return Ok(Outcome::trivial().class("posdef"));
                }
                terminated += 1;
                ensure!(!t.reasons.is_empty(), "op {}: run returned without a reason", i);
                ensure!(
                    !calls.is_empty() && calls.len() % lam == 0,
                    "op {}: run made {} evaluations with a population of {}",
                    i,
                    calls.len(),
                    lam
                );
                let k = calls.len() / lam;
                gens += k;
                evals += calls.len();
                let s = snap(&o);
                ensure!(s.gen == gens, "op {}: generation() = {} after {} generations", i, s.gen, gens);
                ensure!(s.evals == evals, "op {}: function_evals() = {} after {} evaluations", i, s.evals, evals);
                ensure!(vec_bits_eq(&t.final_mean, &s.mean), "op {}: final mean {:?}, mean() {:?}", i, t.final_mean, s.mean);
                if !cfg.parallel_update {
                    let log2 = new_log();
                    let mut twin = c.options(&cfg).build(Rec::new(&c.obj, &log2)).unwrap();
                    for _ in 0..gens - k {
                        let _ = twin.next();
                    }
                    let _ = take(&log2);
                    for g in 0..k {
                        let x = step(&mut twin, &log2);
                        ensure!(
                            (x.td.is_some()) == (g + 1 == k),
                            "op {}: run stopped after {} generations, next() returns {:?} after {}",
                            i,
                            k,
                            x.td.as_ref().map(|t| &t.reasons),
                            g + 1
                        );
                        if *op == 2 {
                            if let Some(d) = crate::rec::calls_diff(&x.calls, &calls[g * lam..(g + 1) * lam]) {
                                fail!("op {}: run vs next: {}", i, d);
                            }
                        }
                        if g + 1 == k {
                            if let Some(d) = x.after.diff(&s) {
                                fail!("op {}: run vs next: {}", i, d);
                            }
                            if let Some(d) = x.td.unwrap().diff(&t) {
                                fail!("op {}: run vs next: {}", i, d);
                            }
                        }
                    }
                }
            }
        }
        ensure!(o.time_created() == created, "op {}: time_created() changed", i);
        let e = o.elapsed();
        ensure!(e >= last_elapsed, "elapsed() went backwards");
        ensure!(e <= t0.elapsed(), "elapsed() exceeds the optimizer's lifetime");
        last_elapsed = e;
        if i + 1 < c.ops.len() && gens > 400 {
            break;
        }
    }
    ensure!(format!("{:?}", o.parameters()) == params0, "parameters changed during the run");
    let rec = o.into_objective_function();
    ensure!(rec.ncalls() == evals, "the returned objective function counted {} calls of {}", rec.ncalls(), evals);
    Ok(Outcome::new(gens >= 2)
        .class(if has_run { "run" } else { "stepwise" })
        .class(if terminated > 1 { "resumed" } else if terminated == 1 { "terminated" } else { "running" })
        .count("generations", gens as u64)
        .note(format!("{} operations, {} generations", c.ops.len(), gens)))
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "a generated sequence of next/next_parallel/run/run_parallel calls on a generated configuration, counted by a recording objective and compared after every call; run is compared with repeated next on a twin; non-trivial when at least two generations ran.",
        assumptions: vec!["points are required to be distinct only while sigma is not lost in rounding against the mean"],
        sections: vec![Box::new(Section { name: "operations", quick: 12000, thorough: 300000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
