//! C21: seeded restarts through every entry point.
use super::c19::target_for;
use crate::capture::capture;
use crate::obj::{any_obj, Obj};
use crate::rst::{rcfg, RCall, RCfg, RLog, RObj};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, on_pool, vec_bits_eq};
use cmaes::restart::{Restarter, RestartResults};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Entry {
    Run,
    RunRef,
    Reuse,
    ReuseRef,
    Par,
    ParRef,
    ParReuse,
    ParReuseRef,
}
const ALL: [Entry; 8] = [Entry::Run, Entry::RunRef, Entry::Reuse, Entry::ReuseRef, Entry::Par, Entry::ParRef, Entry::ParReuse, Entry::ParReuseRef];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: RCfg,
    obj: Obj,
    target: Option<u8>,
    nan_p: f64,
    entries: Vec<(usize, bool)>,
    threads: usize,
    unseeded: bool,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    (
        rcfg(if t == Tier::Quick { 4 } else { 8 }),
        any_obj(),
        prop::option::weighted(0.3, 0..4u8),
        prop_oneof![4 => Just(0.0), 1 => Just(1e-3), 1 => Just(1e-2)],
        prop::collection::vec((0..8usize, prop::bool::weighted(0.3)), 2..4),
        1..6usize,
        prop::bool::weighted(0.2),
    )
        .prop_map(|(cfg, obj, target, nan_p, entries, threads, unseeded)| Case { cfg, obj, target, nan_p, entries, threads, unseeded })
        .boxed()
}

struct Done {
    res: RestartResults,
    calls: Vec<RCall>,
    made: usize,
}

fn go(r: Restarter, e: Entry, obj: &Obj, nan_p: f64, pool: &rayon::ThreadPool) -> Done {
    let log: RLog = Arc::new(Mutex::new(vec![]));
    let made = std::cell::Cell::new(0usize);
    let new = || {
        made.set(made.get() + 1);
        RObj::new(obj, &log, made.get() - 1, &[], nan_p)
    };
    let res = on_pool(pool, || match e {
        Entry::Run => r.run(|| new()),
        Entry::RunRef => {
            // one object per run, handed out by mutable reference
            let mut all: Vec<RObj> = vec![];
            let cell = std::cell::RefCell::new(&mut all);
            r.run(|| {
                let o = new();
                cell.borrow_mut().push(o.clone());
                let b: Box<RObj> = Box::new(o);
                Box::leak(b)
            })
        }
        Entry::Reuse => r.run_with_reuse(new()),
        Entry::ReuseRef => {
            let mut o = new();
            r.run_with_reuse(&mut o)
        }
        Entry::Par => r.run_parallel(|| new()),
        Entry::ParRef => {
            let o = Mutex::new(Vec::<&'static RObj>::new());
            r.run_parallel(|| {
                let b: &'static RObj = Box::leak(Box::new(new()));
                o.lock().unwrap().push(b);
                b
            })
        }
        Entry::ParReuse => r.run_parallel_with_reuse(new()),
        Entry::ParReuseRef => {
            let o = new();
            r.run_parallel_with_reuse(&o)
        }
    });
    let calls = std::mem::take(&mut *log.lock().unwrap_or_else(|e| e.into_inner()));
    Done { res, calls, made: made.get() }
}

fn res_diff(a: &RestartResults, b: &RestartResults) -> Option<String> {
    let best = |r: &RestartResults| r.best.as_ref().map(|i| (i.point.as_slice().to_vec(), i.value));
    let same = match (best(a), best(b)) {
        (None, None) => true,
        (Some(x), Some(y)) => vec_bits_eq(&x.0, &y.0) && bits_eq(x.1, y.1),
        _ => false,
    };
    if !same || a.reason != b.reason || a.runs != b.runs || a.function_evals != b.function_evals {
        return Some(format!(
            "best {:?}, {:?}, {} runs, {} evaluations vs best {:?}, {:?}, {} runs, {} evaluations",
            best(a), a.reason, a.runs, a.function_evals, best(b), b.reason, b.runs, b.function_evals
        ));
    }
    None
}

fn key(c: &RCall) -> Vec<u64> {
    c.x.iter().map(|v| v.to_bits()).chain([c.v.to_bits()]).collect()
}

fn check(case: &Case) -> CheckResult {
    let mut c = case.cfg.clone();
    c.target = case.target.map(|q| target_for(&c, &case.obj, q));
    let c = &c;
    let pool = rayon::ThreadPoolBuilder::new().num_threads(case.threads).build().unwrap();
    let base = if case.unseeded {
        // an unseeded restarter reports the seed it uses
        let r = c.unseeded().build().unwrap();
        let mut c2 = c.clone();
        c2.seed = r.seed();
        let d = go(r, Entry::Run, &case.obj, case.nan_p, &pool);
        let s = c2.restarter(false);
        ensure!(s.seed() == c2.seed, "seed() = {} with seed {}", s.seed(), c2.seed);
        (c2, d)
    } else {
        let r = c.restarter(false);
        ensure!(r.seed() == c.seed, "seed() = {} with seed {}", r.seed(), c.seed);
        (c.clone(), go(r, Entry::Run, &case.obj, case.nan_p, &pool))
    };
    let (c, base) = (&base.0, base.1);
    ensure!(base.made == base.res.runs, "{} objective functions obtained for {} runs", base.made, base.res.runs);
    let mut labels = vec![];
    for (e, print) in case.entries.iter().map(|(i, p)| (ALL[*i], *p)) {
        let d = if print {
            capture(|| go(c.restarter(true), e, &case.obj, case.nan_p, &pool)).0
        } else {
            go(c.restarter(false).clone(), e, &case.obj, case.nan_p, &pool)
        };
        labels.push(format!("{:?}", e));
        let parallel = matches!(e, Entry::Par | Entry::ParRef | Entry::ParReuse | Entry::ParReuseRef);
        let reuse = matches!(e, Entry::Reuse | Entry::ReuseRef | Entry::ParReuse | Entry::ParReuseRef);
        let nan = base.calls.iter().any(|c| c.v.is_nan());
        let mut dres = d.res.clone();
        if parallel && nan {
            // how much of the aborted generation is evaluated depends on the schedule
            ensure!(
                dres.function_evals == d.calls.len() && d.calls.len() <= base.calls.len() + 100_000,
                "{:?}: function_evals = {} after {} evaluations",
                e,
                dres.function_evals,
                d.calls.len()
            );
            dres.function_evals = base.res.function_evals;
        }
        if let Some(x) = res_diff(&base.res, &dres) {
            fail!("run() and {:?}{} differ: {}", e, if print { " with printing" } else { "" }, x);
        }
        if parallel {
            if !nan {
                let (mut a, mut b): (Vec<_>, Vec<_>) = (base.calls.iter().map(key).collect(), d.calls.iter().map(key).collect());
                a.sort();
                b.sort();
                ensure!(a == b, "run() and {:?} evaluate different points", e);
                // the same points in each run
                if !reuse {
                    for inst in 0..base.made {
                        let f = |v: &[RCall]| {
                            let mut k: Vec<_> = v.iter().filter(|c| c.inst == inst).map(key).collect();
                            k.sort();
                            k
                        };
                        ensure!(f(&base.calls) == f(&d.calls), "run() and {:?} evaluate different points in run {}", e, inst + 1);
                    }
                }
            }
        } else {
            ensure!(base.calls.len() == d.calls.len(), "run() makes {} evaluations, {:?} {}", base.calls.len(), e, d.calls.len());
            for (i, (p, q)) in base.calls.iter().zip(&d.calls).enumerate() {
                ensure!(
                    key(p) == key(q) || (p.v.is_nan() && q.v.is_nan() && vec_bits_eq(&p.x, &q.x)),
                    "evaluation {}: run() evaluates {:?}, {:?} {:?}",
                    i, p.x, e, q.x
                );
                ensure!(reuse || p.inst == q.inst, "evaluation {} belongs to run {} with run() and to run {} with {:?}", i, p.inst + 1, q.inst + 1, e);
            }
        }
        if reuse {
            ensure!(d.made <= 1 && d.calls.iter().all(|c| c.inst == 0), "{:?}: {} objective functions", e, d.made);
            let mut ns: Vec<usize> = d.calls.iter().map(|c| c.n).collect();
            ns.sort();
            ensure!(ns.iter().enumerate().all(|(i, n)| i == *n), "{:?}: the objective function object was replaced between runs", e);
        } else {
            ensure!(d.made == d.res.runs, "{:?}: {} objective functions obtained for {} runs", e, d.made, d.res.runs);
        }
    }
    let mut o = Outcome::new(base.res.runs > 1)
        .class(c.strat.label())
        .class(if case.unseeded { "reported seed" } else { "seed set" })
        .class(if base.calls.iter().any(|c| c.v.is_nan()) { "with NaN" } else { "without NaN" })
        .count("restarts_compared", case.entries.len() as u64)
        .note(format!("{} runs, {} evaluations", base.res.runs, base.calls.len()));
    for l in labels {
        o = o.class(l);
    }
    Ok(o)
}

/// Different seeds differ; equal seeds with a clone of the restarter agree.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    cfg: RCfg,
    other: u64,
}
fn sstrategy(_: Tier) -> BoxedStrategy<SCase> {
    (rcfg(3), crate::cfg::seeds())
        .prop_map(|(mut cfg, other)| {
            cfg.run_gens = Some(1);
            cfg.max_evals = Some(200);
            SCase { cfg, other }
        })
        .boxed()
}
fn scheck(s: &SCase) -> CheckResult {
    let obj = Obj::new(crate::obj::Kind::Sphere);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let a = go(s.cfg.restarter(false), Entry::Run, &obj, 0.0, &pool);
    let mut c2 = s.cfg.clone();
    c2.seed = s.other;
    let b = go(c2.restarter(false), Entry::Run, &obj, 0.0, &pool);
    if a.calls.is_empty() || s.other == s.cfg.seed {
        return Ok(Outcome::trivial());
    }
    ensure!(
        !vec_bits_eq(&a.calls[0].x, &b.calls[0].x),
        "seeds {} and {} start with the same point {:?}",
        s.cfg.seed, s.other, a.calls[0].x
    );
    // unseeded restarters differ from each other
    let u = s.cfg.unseeded().build().unwrap();
    let v = s.cfg.unseeded().build().unwrap();
    ensure!(u.seed() != v.seed(), "two unseeded restarters have the same seed {}", u.seed());
    Ok(Outcome::new(true))
}

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "entry-points: one generated seeded restart is run through run() and through other entry points (fresh/reused, sequential/parallel on a pool of generated size, by value/by reference, printing on/off), comparing results and recorded evaluations bit for bit and the handling of objective function objects. Non-trivial with more than one run. seeds: different seeds differ.",
        assumptions: vec!["in parallel the order of calls within a restart is not compared, and not the number of calls of a generation aborted by NaN"],
        sections: vec![
            Box::new(Section { name: "entry-points", quick: 2500, thorough: 50000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "seeds", quick: 3000, thorough: 60000, strategy: sstrategy, check: scheck, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
