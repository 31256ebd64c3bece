//! C20: restart results and termination.
use super::c19::target_for;
use crate::capture::capture;
use crate::obj::{any_obj, Kind, Obj};
use crate::rst::{parse_info, rcfg, run_fresh, RCall, RCfg, Ran, Strat};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, vec_bits_eq};
use cmaes::restart::RestartTerminationReason as R;
use cmaes::DVector;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: RCfg,
    obj: Obj,
    target: Option<u8>,
    nan_at: Vec<usize>,
    reuse: bool,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    (
        rcfg(if t == Tier::Quick { 4 } else { 8 }),
        any_obj(),
        prop::option::weighted(0.4, 0..4u8),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![0..300usize, 0..6000usize], 1..3)],
        any::<bool>(),
    )
        .prop_map(|(cfg, obj, target, nan_at, reuse)| Case { cfg, obj, target, nan_at, reuse })
        .boxed()
}

/// Best of a list of calls (first of the best)
fn best<'a>(c: &RCfg, calls: impl Iterator<Item = &'a RCall>) -> Option<&'a RCall> {
    let mut b: Option<&RCall> = None;
    for k in calls {
        if k.v.is_nan() {
            continue;
        }
        if b.map_or(true, |b| c.better(k.v, b.v)) {
            b = Some(k);
        }
    }
    b
}

fn check(case: &Case) -> CheckResult {
    let mut c = case.cfg.clone();
    c.target = case.target.map(|q| target_for(&c, &case.obj, q));
    let c = &c;
    let ran: Ran = run_fresh(c.restarter(false), &case.obj, &case.nan_at, 0.0);
    let res = &ran.res;
    let runs = ran.runs();
    ensure!(res.function_evals == ran.calls.len(), "function_evals = {} after {} evaluations", res.function_evals, ran.calls.len());
    ensure!(res.runs == ran.made, "runs = {} but {} objective functions were obtained", res.runs, ran.made);
    ensure!(runs.iter().all(|r| !r.is_empty()), "a run without evaluations");

    // what must have happened, from the recorded evaluations
    let mut evals = 0usize;
    let (mut ipop_runs, mut ipop_evals, mut lr_evals) = (0usize, 0usize, 0usize);
    let zero = matches!(c.strat, Strat::Local(0, _));
    let mut want: Option<R> = if zero { Some(R::MaxRuns) } else { None };
    let mut end_at = 0;
    for (k, run) in runs.iter().enumerate() {
        ensure!(want.is_none(), "run {} was started although the restart had to end with {:?} before", k + 1, want.unwrap());
        if let Some(m) = c.max_evals {
            ensure!(evals < m, "run {} was started after {} of {} evaluations", k + 1, evals, m);
        }
        evals += run.len();
        let nan = run.iter().any(|x| x.v.is_nan());
        let hit = c.target.map_or(false, |t| run.iter().any(|x| !x.v.is_nan() && c.better(x.v, t)));
        let used_up = match &c.strat {
            Strat::Local(n, _) => k + 1 >= *n,
            Strat::Ipop(_) => k + 1 >= 10,
            Strat::Bipop(..) => {
                if ipop_runs > 0 && lr_evals < ipop_evals {
                    lr_evals += run.len();
                } else {
                    ipop_runs += 1;
                    ipop_evals += run.len();
                }
                ipop_runs >= 10
            }
        };
        end_at = k + 1;
        if nan {
            want = Some(R::InvalidFunctionValue);
        } else if hit {
            want = Some(R::FunTarget);
        } else if used_up {
            want = Some(R::MaxRuns);
        }
    }
    let want = match want {
        Some(w) => w,
        None => {
            ensure!(
                c.max_evals.map_or(false, |m| evals >= m),
                "ended with {:?} after {} runs and {} evaluations (limit {:?}, target {:?})",
                res.reason, end_at, evals, c.max_evals, c.target
            );
            R::MaxFunctionEvals
        }
    };
    let both_zero = zero && c.max_evals == Some(0);
    ensure!(
        res.reason == want || (both_zero && res.reason == R::MaxFunctionEvals),
        "ended with {:?}, expected {:?} ({} runs, {} evaluations, limit {:?}, target {:?})",
        res.reason, want, end_at, evals, c.max_evals, c.target
    );

    // the reported best individual
    let clean: Vec<&Vec<&RCall>> = runs.iter().filter(|r| r.iter().all(|x| !x.v.is_nan())).collect();
    let b_clean = best(c, clean.iter().flat_map(|r| r.iter().cloned()));
    let b_all = best(c, ran.calls.iter());
    let ok = |b: Option<&RCall>| match (&res.best, b) {
        (None, None) => true,
        (Some(i), Some(b)) => bits_eq(i.value, b.v),
        _ => false,
    };
    if !ok(b_clean) {
        // individuals of a run that ended with NaN: their completed generations count
        let mut fine = false;
        if want == R::InvalidFunctionValue {
            let worse_than_clean = match (&res.best, b_clean) {
                (None, Some(_)) => true,
                (Some(i), Some(b)) => c.better(b.v, i.value),
                _ => false,
            };
            let better_than_all = match (&res.best, b_all) {
                (Some(i), Some(b)) => c.better(i.value, b.v),
                (Some(_), None) => true,
                _ => false,
            };
            fine = !worse_than_clean && !better_than_all;
        }
        if !fine {
            // a covariance matrix that is not positive definite ends a run inside a generation
            let (_, text) = capture(|| run_fresh(c.restarter(true), &case.obj, &case.nan_at, 0.0));
            if parse_info(&text).map_or(true, |i| i.iter().any(|i| i.reasons.iter().any(|r| r == "PosDefCov"))) {
                return Ok(Outcome::trivial().class("PosDefCov"));
            }
            fail!(
                "best individual {:?}, the best evaluated is {:?} ({} runs, reason {:?})",
                res.best.as_ref().map(|i| (i.point.as_slice().to_vec(), i.value)),
                b_clean.map(|b| (&b.x, b.v)),
                runs.len(),
                res.reason
            );
        }
    }
    if let Some(i) = &res.best {
        ensure!(
            ran.calls.iter().any(|x| bits_eq(x.v, i.value) && vec_bits_eq(&x.x, i.point.as_slice())),
            "best individual {:?} with value {:e} was not evaluated with that value",
            i.point.as_slice(),
            i.value
        );
    }
    if res.reason == R::FunTarget {
        let t = c.target.unwrap();
        ensure!(res.best.as_ref().map_or(false, |b| c.better(b.value, t)), "FunTarget with target {:e} and best {:?}", t, res.best);
    }
    // the same through one reused objective function
    if case.reuse {
        let log = std::sync::Arc::new(Mutex::new(vec![]));
        let o = crate::rst::RObj::new(&case.obj, &log, 0, &case.nan_at, 0.0);
        let r2 = c.restarter(false).run_with_reuse(o);
        let n = log.lock().unwrap().len();
        ensure!(r2.function_evals == n, "run_with_reuse: function_evals = {} after {} evaluations", r2.function_evals, n);
        ensure!(
            r2.reason == res.reason && r2.runs == res.runs && r2.function_evals == res.function_evals,
            "run_with_reuse: {:?} after {} runs and {} evaluations; run: {:?} after {} and {}",
            r2.reason, r2.runs, r2.function_evals, res.reason, res.runs, res.function_evals
        );
        ensure!(
            r2.best.as_ref().map(|b| b.value.to_bits()) == res.best.as_ref().map(|b| b.value.to_bits()),
            "run_with_reuse: best {:?}, run: {:?}",
            r2.best,
            res.best
        );
    }
    // clean runs end as soon as the target is reached: at most one generation later
    Ok(Outcome::new(runs.len() > 1 || want != R::MaxRuns)
        .class(format!("{:?}", want))
        .class(c.strat.label())
        .class(if matches!(case.obj.kind, Kind::InfRegion | Kind::NegInf) { "infinite values" } else { "finite values" })
        .count("runs", runs.len() as u64)
        .count("evaluations", ran.calls.len() as u64)
        .note(format!("{} runs, {} evaluations, {:?}", runs.len(), ran.calls.len(), res.reason)))
}

// ---- time -----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    cfg: RCfg,
    limit_us: u64,
    sleep_us: u64,
    parallel: bool,
}
fn tstrategy(_: Tier) -> BoxedStrategy<TCase> {
    (rcfg(3), prop_oneof![1 => Just(0u64), 6 => 0..60_000u64], 20..400u64, any::<bool>())
        .prop_map(|(mut cfg, limit_us, sleep_us, parallel)| {
            cfg.max_evals = None;
            cfg.run_gens = Some(1 + (limit_us % 3) as usize);
            cfg.run_evals = Some(4);
            TCase { cfg, limit_us, sleep_us, parallel }
        })
        .boxed()
}
fn tcheck(t: &TCase) -> CheckResult {
    let limit = Duration::from_micros(t.limit_us);
    let starts: Mutex<Vec<Instant>> = Mutex::new(vec![]);
    let last: Mutex<Vec<Instant>> = Mutex::new(vec![]);
    struct F<'a>(&'a Mutex<Vec<Instant>>, usize, u64);
    impl<'a> F<'a> {
        fn go(&self, x: &DVector<f64>) -> f64 {
            std::thread::sleep(Duration::from_micros(self.2));
            self.0.lock().unwrap()[self.1] = Instant::now();
            x.iter().map(|v| v * v).sum()
        }
    }
    impl<'a> cmaes::ObjectiveFunction for F<'a> {
        fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
            self.go(x)
        }
    }
    impl<'a> cmaes::ParallelObjectiveFunction for F<'a> {
        fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
            self.go(x)
        }
    }
    let made = |_: ()| {
        let now = Instant::now();
        starts.lock().unwrap().push(now);
        let mut l = last.lock().unwrap();
        l.push(now);
        F(&last, l.len() - 1, t.sleep_us)
    };
    let r = t.cfg.options().max_time(limit).build().unwrap();
    let t0 = Instant::now();
    let res = if t.parallel { r.run_parallel(|| made(())) } else { r.run(|| made(())) };
    let t1 = Instant::now();
    let starts = starts.into_inner().unwrap();
    let last = last.into_inner().unwrap();
    for k in 1..starts.len() {
        // the clock started before the first objective function was obtained
        let used = last[k - 1].duration_since(starts[0]);
        ensure!(used < limit, "run {} was started {:?} after the first run with a time limit of {:?}", k + 1, used, limit);
    }
    if limit.is_zero() {
        ensure!(starts.is_empty(), "a run was started with a time limit of zero");
    }
    ensure!(res.runs == starts.len(), "runs = {} but {} were started", res.runs, starts.len());
    let zero = matches!(t.cfg.strat, Strat::Local(0, _));
    match res.reason {
        R::MaxTime => ensure!(t1.duration_since(t0) >= limit, "MaxTime after {:?} of {:?}", t1.duration_since(t0), limit),
        R::MaxRuns => {}
        r => fail!("ended with {:?}", r),
    }
    if let (Some(_), Strat::Local(n, _)) = (last.last(), &t.cfg.strat) {
        ensure!((res.reason == R::MaxRuns) == (starts.len() >= *n), "{:?} after {} of {} runs", res.reason, starts.len(), n);
    }
    Ok(Outcome::new(res.reason == R::MaxTime && !zero)
        .class(format!("{:?}", res.reason))
        .count("runs", starts.len() as u64))
}

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "results: generated restarts with recorded evaluations, targets, budgets and NaN at generated calls; counts, best individual and reason are derived from the recorded evaluations alone. Non-trivial with more than one run or another reason than MaxRuns. time: sleeping objectives, clock read around every run.",
        assumptions: vec!["with zero allowed runs and a zero evaluation budget either reason is accepted", "a target is reached by a strictly better value"],
        sections: vec![
            Box::new(Section { name: "results", quick: 9000, thorough: 200000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "time", quick: 400, thorough: 8000, strategy: tstrategy, check: tcheck, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
