//! C16: budgets on evaluations, generations and time.
use crate::cfg::{marathon, wide_cfg, core_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Obj, Rec};
use crate::rec::{step, step_par};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::{DVector, TerminationReason as R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Lim {
    None,
    Zero,
    /// generations * unit + offset
    Near(usize, i8),
    Max,
    Plain(usize),
}
impl Lim {
    fn get(&self, unit: usize) -> Option<usize> {
        match self {
            Lim::None => None,
            Lim::Zero => Some(0),
            Lim::Near(k, o) => Some((k * unit).saturating_add_signed(*o as isize)),
            Lim::Max => Some(usize::MAX),
            Lim::Plain(k) => Some(*k),
        }
    }
}

fn lim() -> BoxedStrategy<Lim> {
    prop_oneof![
        2 => Just(Lim::None),
        1 => Just(Lim::Zero),
        5 => (0..25usize, -1..=1i8).prop_map(|(k, o)| Lim::Near(k, o)),
        1 => Just(Lim::Max),
        1 => (0..300usize).prop_map(Lim::Plain),
        1 => (0..25_000usize).prop_map(Lim::Plain),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    evals: Lim,
    gens_lim: Lim,
    gens: usize,
    nan: Vec<usize>,
    mix: u16,
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(8, 20)),
        any_obj(),
        lim(),
        lim(),
        prop_oneof![3 => 1..20usize, 1 => 20..60usize],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0..200usize, 1..4)],
        prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
        marathon(),
    )
        .prop_map(|(mut cfg, obj, evals, gens_lim, mut gens, nan, mix, long)| {
            let (mut evals, mut gens_lim) = (evals, gens_lim);
            if let Some(g) = long {
                cfg.shrink_for_marathon();
                gens = g;
                // limits that are reached late in the run
                evals = Lim::Near(g - 37, (g % 3) as i8 - 1);
                gens_lim = Lim::Near(g - 20, 0);
            }
            Case { cfg, obj, evals, gens_lim, gens, nan, mix }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let lam = c.cfg.lam();
    let mut cfg = c.cfg.clone();
    cfg.max_evals = c.evals.get(lam);
    cfg.max_gens = c.gens_lim.get(1);
    let log = new_log();
    let mut o = cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
    let (mut calls, mut gens) = (0usize, 0usize);
    let (mut he, mut hg, mut aborted) = (0u64, 0u64, 0u64);
    let mut first: Option<Vec<R>> = None;
    let mut at_first = (0, 0);
    for g in 0..c.gens {
        let par = c.mix >> (g % 16) & 1 == 1;
        let r = if par { step_par(&mut o, &log) } else { step(&mut o, &log) };
        calls += r.calls.len();
        let reasons = r.td.map(|t| t.reasons).unwrap_or_default();
        if first.is_none() && !reasons.is_empty() {
            first = Some(reasons.clone());
            at_first = (calls, gens + 1);
        }
        if reasons == [R::PosDefCov] {
            break;
        }
        if reasons.contains(&R::InvalidFunctionValue) {
            ensure!(reasons == [R::InvalidFunctionValue], "generation {}: {:?}", g + 1, reasons);
            aborted += 1;
            continue;
        }
        gens += 1;
        let we = cfg.max_evals.map_or(false, |m| calls >= m);
        let wg = cfg.max_gens.map_or(false, |m| gens >= m);
        ensure!(
            reasons.contains(&R::MaxFunctionEvals) == we,
            "after {} evaluations (limit {:?}): reasons {:?}",
            calls,
            cfg.max_evals,
            reasons
        );
        ensure!(
            reasons.contains(&R::MaxGenerations) == wg,
            "after {} generations (limit {:?}): reasons {:?}",
            gens,
            cfg.max_gens,
            reasons
        );
        ensure!(!reasons.contains(&R::MaxTime), "MaxTime without a time limit");
        he += we as u64;
        hg += wg as u64;
    }
    // a run from the start stops there
    if cfg.max_gens.map_or(false, |m| m < 400) || cfg.max_evals.map_or(false, |m| m < 4000) {
        let log = new_log();
        let mut o = cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
        let t = if c.mix & 2 == 2 { o.run_parallel() } else { o.run() };
        let n = take(&log).len();
        if let Some(m) = cfg.max_evals {
            ensure!(n < m.saturating_add(lam) || (m == 0 && n <= lam), "a run with a limit of {} evaluations made {} (population {})", m, n, lam);
        }
        if let Some(m) = cfg.max_gens {
            ensure!(o.generation() <= m.max(1), "a run limited to {} generations completed {}", m, o.generation());
        }
        if let (Some(f), 0) = (&first, c.mix) {
            ensure!(&t.reasons == f, "run() ended with {:?}, stepping with {:?}", t.reasons, f);
            ensure!(n == at_first.0, "run() made {} evaluations, stepping {} until {:?}", n, at_first.0, f);
        }
    }
    Ok(Outcome::new(he + hg > 0)
        .class(match c.evals {
            Lim::None => "no evaluation limit",
            Lim::Zero => "evaluation limit 0",
            Lim::Near(_, 0) => "evaluation limit at a generation boundary",
            Lim::Max => "evaluation limit maximal",
            _ => "evaluation limit",
        })
        .class(if aborted > 0 { "with aborted generations" } else { "no aborted generation" })
        .count("generations_at_the_evaluation_limit", he)
        .count("generations_at_the_generation_limit", hg)
        .count("aborted_generations", aborted))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TimeCase {
    cfg: Cfg,
    /// microseconds; None: no limit
    limit: Option<u64>,
    huge: bool,
    sleep_us: u64,
    before_us: u64,
    gens: usize,
    parallel: bool,
}

fn time_strategy(_: Tier) -> BoxedStrategy<TimeCase> {
    (
        core_cfg(4, 8),
        prop_oneof![1 => Just(None), 1 => Just(Some(0)), 6 => (0..30_000u64).prop_map(Some)],
        prop::bool::weighted(0.05),
        0..800u64,
        prop_oneof![2 => Just(0u64), 1 => 0..10_000u64],
        1..12usize,
        any::<bool>(),
    )
        .prop_map(|(cfg, limit, huge, sleep_us, before_us, gens, parallel)| TimeCase { cfg, limit, huge, sleep_us, before_us, gens, parallel })
        .boxed()
}

fn check_time(c: &TimeCase) -> CheckResult {
    let limit = if c.huge { Some(Duration::MAX) } else { c.limit.map(Duration::from_micros) };
    let last = Cell::new(Instant::now());
    struct F<'a>(&'a Cell<Instant>, u64);
    impl<'a> cmaes::ObjectiveFunction for F<'a> {
        fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
            std::thread::sleep(Duration::from_micros(self.1));
            self.0.set(Instant::now());
            x.iter().map(|v| v * v).sum()
        }
    }
    let shared = std::sync::Mutex::new(Instant::now());
    struct P<'a>(&'a std::sync::Mutex<Instant>, u64);
    impl<'a> cmaes::ParallelObjectiveFunction for P<'a> {
        fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
            std::thread::sleep(Duration::from_micros(self.1));
            *self.0.lock().unwrap() = Instant::now();
            x.iter().map(|v| v * v).sum()
        }
    }
    let mut opts = c.cfg.options();
    if let Some(l) = limit {
        opts = opts.max_time(l);
    }
    let mut yes = 0u64;
    let mut no = 0u64;
    let mut judge = |g: usize, t0: Instant, t0b: Instant, called: Instant, ret: Instant, reasons: Vec<R>| -> Result<(), String> {
        if reasons == [R::PosDefCov] {
            return Ok(());
        }
        let got = reasons.contains(&R::MaxTime);
        let (lo, hi) = (called.saturating_duration_since(t0b), ret.duration_since(t0));
        match limit {
            None => {
                if got {
                    return Err(format!("generation {}: MaxTime without a limit", g));
                }
                no += 1;
            }
            Some(l) => {
                if lo >= l {
                    yes += 1;
                    if !got {
                        return Err(format!("generation {}: {:?} have passed (limit {:?}) but reasons are {:?}", g, lo, l, reasons));
                    }
                } else if hi < l {
                    no += 1;
                    if got {
                        return Err(format!("generation {}: MaxTime after at most {:?} of {:?}", g, hi, l));
                    }
                }
            }
        }
        Ok(())
    };
    if c.parallel {
        let t0 = Instant::now();
        let mut o = opts.build(P(&shared, c.sleep_us)).unwrap();
        let t0b = Instant::now();
        std::thread::sleep(Duration::from_micros(c.before_us));
        for g in 1..=c.gens {
            let r = o.next_parallel();
            let ret = Instant::now();
            let called = *shared.lock().unwrap();
            judge(g, t0, t0b, called, ret, r.map(|r| r.reasons).unwrap_or_default())?;
        }
    } else {
        let t0 = Instant::now();
        let mut o = opts.build(F(&last, c.sleep_us)).unwrap();
        let t0b = Instant::now();
        std::thread::sleep(Duration::from_micros(c.before_us));
        for g in 1..=c.gens {
            let r = o.next();
            let ret = Instant::now();
            judge(g, t0, t0b, last.get(), ret, r.map(|r| r.reasons).unwrap_or_default())?;
        }
    }
    let class = match limit {
        None => "no limit",
        Some(l) if l == Duration::MAX => "maximal",
        Some(l) if l.is_zero() => "zero",
        _ if yes > 0 && no > 0 => "crossed during the run",
        _ => "not crossed",
    };
    Ok(Outcome::new(yes > 0)
        .class(class)
        .count("generations_after_the_limit", yes)
        .count("generations_before_the_limit", no))
}

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "counts: limits at, just below and just above generation boundaries (and 0 and usize::MAX), the run continued through them, sequentially and in parallel, with aborted generations; non-trivial when a limit was reached. time: sleeping objectives with a clock read on both sides of the check; non-trivial when the limit had passed.",
        assumptions: vec!["a generation's time check happens between its last evaluation and the return of next(); the creation time lies within build()"],
        sections: vec![
            Box::new(Section { name: "counts", quick: 20000, thorough: 400000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "time", quick: 600, thorough: 12000, strategy: time_strategy, check: check_time, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
