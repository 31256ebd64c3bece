//! C18: options, validation and defaults.
use crate::obj::hash01;
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, fser, vec_bits_eq};
use cmaes::restart::{Local, RestartOptions, RestartStrategy, BIPOP, IPOP};
use cmaes::{CMAESOptions, Constraints, DVector, Mode, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Mode(bool),
    Mean(#[serde(with = "fser::vec")] Vec<f64>),
    Step(#[serde(with = "fser")] f64),
    Pop(usize),
    Bounds(#[serde(with = "fser")] f64, #[serde(with = "fser")] f64),
    Cons(u64),
    Resamples(Option<usize>),
    Weights(u8),
    Par(bool),
    Cm(#[serde(with = "fser")] f64),
    MaxEvals(usize),
    MaxGens(usize),
    MaxTime(u64),
    Target(#[serde(with = "fser")] f64),
    TolFun(#[serde(with = "fser")] f64),
    TolFunRel(#[serde(with = "fser")] f64),
    TolFunHist(#[serde(with = "fser")] f64),
    TolX(#[serde(with = "fser")] f64),
    TolStag(usize),
    TolXUp(#[serde(with = "fser")] f64),
    TolCond(#[serde(with = "fser")] f64),
    Seed(u64),
    Plot(usize, bool),
    Print(usize),
}

fn kind(o: &Op) -> u8 {
    match o {
        Op::Mode(_) => 0,
        Op::Mean(_) => 1,
        Op::Step(_) => 2,
        Op::Pop(_) => 3,
        Op::Bounds(..) => 4,
        // bounds and constraints set the same option
        Op::Cons(_) => 4,
        Op::Resamples(_) => 6,
        Op::Weights(_) => 7,
        Op::Par(_) => 8,
        Op::Cm(_) => 9,
        Op::MaxEvals(_) => 10,
        Op::MaxGens(_) => 11,
        Op::MaxTime(_) => 12,
        Op::Target(_) => 13,
        Op::TolFun(_) => 14,
        Op::TolFunRel(_) => 15,
        Op::TolFunHist(_) => 16,
        Op::TolX(_) => 17,
        Op::TolStag(_) => 18,
        Op::TolXUp(_) => 19,
        Op::TolCond(_) => 20,
        Op::Seed(_) => 21,
        Op::Plot(..) => 22,
        Op::Print(_) => 23,
    }
}

#[derive(Clone, Debug)]
struct HashCons(u64);
impl Constraints for HashCons {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        hash01(x.as_slice(), self.0) < 0.5
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

fn wt(w: u8) -> Weights {
    match w % 3 {
        0 => Weights::Negative,
        1 => Weights::Positive,
        _ => Weights::Uniform,
    }
}

fn apply(o: CMAESOptions, op: &Op) -> CMAESOptions {
    let d = o.initial_mean.len();
    match op {
        Op::Mode(m) => o.mode(if *m { Mode::Maximize } else { Mode::Minimize }),
        Op::Mean(m) => o.initial_mean(m.clone()),
        Op::Step(s) => o.initial_step_size(*s),
        Op::Pop(p) => o.population_size(*p),
        // the constraint itself is only queried here, on points of its own length
        Op::Bounds(a, b) => o.bounds(vec![*a; d.max(1)], vec![*b; d.max(1)]),
        Op::Cons(h) => o.constraints(Box::new(HashCons(*h))),
        Op::Resamples(r) => o.max_resamples(*r),
        Op::Weights(w) => o.weights(wt(*w)),
        Op::Par(p) => o.parallel_update(*p),
        Op::Cm(c) => o.cm(*c),
        Op::MaxEvals(n) => o.max_function_evals(*n),
        Op::MaxGens(n) => o.max_generations(*n),
        Op::MaxTime(n) => o.max_time(Duration::from_nanos(*n)),
        Op::Target(v) => o.fun_target(*v),
        Op::TolFun(v) => o.tol_fun(*v),
        Op::TolFunRel(v) => o.tol_fun_rel(*v),
        Op::TolFunHist(v) => o.tol_fun_hist(*v),
        Op::TolX(v) => o.tol_x(*v),
        Op::TolStag(n) => o.tol_stagnation(*n),
        Op::TolXUp(v) => o.tol_x_up(*v),
        Op::TolCond(v) => o.tol_condition_cov(*v),
        Op::Seed(s) => o.seed(*s),
        #[cfg(feature = "plot")]
        Op::Plot(g, s) => o.enable_plot(cmaes::PlotOptions::new(*g, *s)),
        #[cfg(not(feature = "plot"))]
        Op::Plot(..) => o,
        Op::Print(n) => o.enable_printing(*n),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    #[serde(with = "fser::vec")]
    mean: Vec<f64>,
    #[serde(with = "fser")]
    step: f64,
    ops: Vec<Op>,
    perm: u64,
}

fn any_val() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => -1e3..1e3f64,
        2 => 0.0..1e-9f64,
        1 => prop_oneof![Just(0.0), Just(-0.0), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(f64::MAX), Just(f64::MIN_POSITIVE)],
    ]
    .boxed()
}
fn steps() -> BoxedStrategy<f64> {
    prop_oneof![
        12 => 1e-3..1e3f64,
        1 => prop_oneof![
            Just(0.0), Just(-0.0), Just(-1.0), Just(f64::NAN), Just(f64::INFINITY), Just(f64::NEG_INFINITY),
            Just(5e-324), Just(f64::MIN_POSITIVE), Just(f64::MIN_POSITIVE / 2.0), Just(-f64::MIN_POSITIVE), Just(f64::MAX), Just(1e-300), Just(1e300)
        ],
        1 => -10.0..1.0f64,
    ]
    .boxed()
}
fn cms() -> BoxedStrategy<f64> {
    prop_oneof![
        10 => 1e-6..=1.0f64,
        2 => prop_oneof![
            Just(0.0), Just(-0.0), Just(1.0), Just(1.0 + f64::EPSILON), Just(1.0 - f64::EPSILON / 2.0), Just(f64::NAN),
            Just(f64::INFINITY), Just(5e-324), Just(f64::MIN_POSITIVE), Just(-0.5), Just(2.0)
        ],
    ]
    .boxed()
}
fn pops() -> BoxedStrategy<usize> {
    prop_oneof![10 => 2..200usize, 1 => 0..3usize].boxed()
}
fn dims() -> BoxedStrategy<usize> {
    prop_oneof![20 => 1..12usize, 2 => 12..40usize, 1 => Just(0usize)].boxed()
}
fn mean_of() -> BoxedStrategy<Vec<f64>> {
    dims().prop_flat_map(|d| prop::collection::vec(any_val().prop_filter("finite", |v| v.is_finite()), d)).boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        any::<bool>().prop_map(Op::Mode),
        mean_of().prop_map(Op::Mean),
        steps().prop_map(Op::Step),
        pops().prop_map(Op::Pop),
        (any_val(), any_val()).prop_map(|(a, b)| Op::Bounds(a.min(b), a.max(b))),
        any::<u64>().prop_map(Op::Cons),
        prop::option::of(0..1000usize).prop_map(Op::Resamples),
        any::<u8>().prop_map(Op::Weights),
        any::<bool>().prop_map(Op::Par),
        cms().prop_map(Op::Cm),
        any::<usize>().prop_map(Op::MaxEvals),
        any::<usize>().prop_map(Op::MaxGens),
        any::<u64>().prop_map(Op::MaxTime),
        any_val().prop_map(Op::Target),
        any_val().prop_map(Op::TolFun),
        any_val().prop_map(Op::TolFunRel),
        any_val().prop_map(Op::TolFunHist),
        any_val().prop_map(Op::TolX),
        any::<usize>().prop_map(Op::TolStag),
        any_val().prop_map(Op::TolXUp),
        any_val().prop_map(Op::TolCond),
        crate::cfg::seeds().prop_map(Op::Seed),
        (0..10000usize, any::<bool>()).prop_map(|(g, s)| Op::Plot(g, s)),
        (0..10000usize).prop_map(Op::Print),
    ]
    .boxed()
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (mean_of(), steps(), prop::collection::vec(op(), 0..30), any::<u64>())
        .prop_map(|(mean, step, ops, perm)| Case { mean, step, ops, perm })
        .boxed()
}

macro_rules! eqf {
    ($what:expr, $a:expr, $b:expr) => {
        ensure!(bits_eq($a, $b), "{}: {:?}, expected {:?}", $what, $a, $b)
    };
}
macro_rules! eqv {
    ($what:expr, $a:expr, $b:expr) => {
        ensure!($a == $b, "{}: {:?}, expected {:?}", $what, $a, $b)
    };
}
fn optf(what: &str, a: Option<f64>, b: Option<f64>) -> Result<(), String> {
    let same = match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => bits_eq(x, y),
        _ => false,
    };
    ensure!(same, "{}: {:?}, expected {:?}", what, a, b);
    Ok(())
}

/// The last value of each kind in the sequence
struct Last<'a>(&'a [Op]);
impl<'a> Last<'a> {
    fn get<T>(&self, f: impl Fn(&Op) -> Option<T>) -> Option<T> {
        self.0.iter().rev().find_map(f)
    }
}
macro_rules! last {
    ($l:expr, $v:path) => {
        $l.get(|o| if let $v(x) = o { Some(x.clone()) } else { None })
    };
}

fn model_check(o: &CMAESOptions, c: &Case, ops: &[Op]) -> Result<(), String> {
    let l = Last(ops);
    let mode = last!(l, Op::Mode).map_or(Mode::Minimize, |m| if m { Mode::Maximize } else { Mode::Minimize });
    eqv!("mode", o.mode, mode);
    let mean = last!(l, Op::Mean).unwrap_or(c.mean.clone());
    ensure!(vec_bits_eq(o.initial_mean.as_slice(), &mean), "initial_mean: {:?}, expected {:?}", o.initial_mean, mean);
    eqf!("initial_step_size", o.initial_step_size, last!(l, Op::Step).unwrap_or(c.step));
    let n = c.mean.len();
    let defpop = if n == 0 { None } else { Some(4 + (3.0 * (n as f64).ln()).floor() as usize) };
    if let Some(p) = last!(l, Op::Pop).or(defpop) {
        eqv!("population_size", o.population_size, p);
    }
    eqv!("max_resamples", o.max_resamples, last!(l, Op::Resamples).unwrap_or(Some(10)));
    ensure!(
        format!("{:?}", o.weights) == format!("{:?}", wt(last!(l, Op::Weights).unwrap_or(0))),
        "weights: {:?}",
        o.weights
    );
    eqv!("parallel_update", o.parallel_update, last!(l, Op::Par).unwrap_or(false));
    eqf!("cm", o.cm, last!(l, Op::Cm).unwrap_or(1.0));
    eqv!("max_function_evals", o.max_function_evals, last!(l, Op::MaxEvals));
    eqv!("max_generations", o.max_generations, last!(l, Op::MaxGens));
    eqv!("max_time", o.max_time, last!(l, Op::MaxTime).map(Duration::from_nanos));
    optf("fun_target", o.fun_target, last!(l, Op::Target))?;
    eqf!("tol_fun", o.tol_fun, last!(l, Op::TolFun).unwrap_or(1e-12));
    eqf!("tol_fun_rel", o.tol_fun_rel, last!(l, Op::TolFunRel).unwrap_or(0.0));
    eqf!("tol_fun_hist", o.tol_fun_hist, last!(l, Op::TolFunHist).unwrap_or(1e-12));
    optf("tol_x", o.tol_x, last!(l, Op::TolX))?;
    eqv!("tol_stagnation", o.tol_stagnation, last!(l, Op::TolStag));
    eqf!("tol_x_up", o.tol_x_up, last!(l, Op::TolXUp).unwrap_or(1e8));
    eqf!("tol_condition_cov", o.tol_condition_cov, last!(l, Op::TolCond).unwrap_or(1e14));
    eqv!("seed", o.seed, last!(l, Op::Seed));
    eqv!("print_gap_evals", o.print_gap_evals, last!(l, Op::Print));
    #[cfg(feature = "plot")]
    {
        let want = l.get(|o| if let Op::Plot(g, s) = o { Some(cmaes::PlotOptions::new(*g, *s)) } else { None });
        ensure!(
            format!("{:?}", o.plot_options) == format!("{:?}", want),
            "plot_options: {:?}, expected {:?}",
            o.plot_options,
            want
        );
        if let (Some(p), Some((g, s))) = (&o.plot_options, l.get(|o| if let Op::Plot(g, s) = o { Some((*g, *s)) } else { None })) {
            eqv!("plot gap", p.min_gap_evals, g);
            eqv!("scientific notation", p.scientific_notation, s);
        }
    }
    // constraints: the last of bounds() and constraints()
    let lc = ops.iter().enumerate().rev().find(|(_, o)| kind(o) == 4);
    match (lc, &o.constraints) {
        (None, None) => {}
        (Some((_, Op::Cons(h))), Some(k)) => {
            for i in 0..6 {
                let x = vec![i as f64 * 0.37 - 1.0; 3];
                eqv!("constraint", k.meets_constraints(&x.clone().into()), (hash01(&x, *h) < 0.5));
            }
        }
        (Some((at, Op::Bounds(a, b))), Some(k)) => {
            let len = ops[..at].iter().rev().find_map(|o| if let Op::Mean(m) = o { Some(m.len()) } else { None }).unwrap_or(n).max(1);
            for v in [*a, *b, (a + b) / 2.0, a - 1.0, b + 1.0, a.next_down(), b.next_up()] {
                if v.is_nan() {
                    continue;
                }
                for j in 0..len {
                    let mut x = vec![*a; len];
                    x[j] = v;
                    eqv!(format!("bounds [{:e},{:e}] at {:?}", a, b, x), k.meets_constraints(&x.clone().into()), (v >= *a && v <= *b));
                }
            }
        }
        (a, b) => fail!("constraints {:?} after {:?}", b, a),
    }
    Ok(())
}

fn check(c: &Case) -> CheckResult {
    let mut o = CMAESOptions::new(c.mean.clone(), c.step);
    for op in &c.ops {
        o = apply(o, op);
    }
    model_check(&o, c, &c.ops)?;
    // the same calls in another order (keeping the order of calls of the same setter)
    let mut q: Vec<(u64, usize)> = c.ops.iter().enumerate().map(|(i, o)| (crate::util::mix(c.perm ^ (kind(o) as u64 + 1) * 7919), i)).collect();
    q.sort();
    let ops2: Vec<Op> = q.iter().map(|(_, i)| c.ops[*i].clone()).collect();
    let mut o2 = CMAESOptions::new(c.mean.clone(), c.step);
    for op in &ops2 {
        o2 = apply(o2, op);
    }
    model_check(&o2, c, &ops2)?;
    // cloned options are the same options
    model_check(&o.clone(), c, &c.ops)?;

    let dim = o.initial_mean.len();
    let step_ok = o.initial_step_size.is_normal() && o.initial_step_size > 0.0;
    let cm_zero_ok = o.cm > 0.0 && o.cm <= 1.0;
    let mut bad = vec![];
    if dim == 0 {
        bad.push("Dimensions");
    }
    if o.population_size < 2 {
        bad.push("PopulationSize");
    }
    if !step_ok {
        bad.push("InitialStepSize");
    }
    // a subnormal learning rate is left open
    let cm_open = o.cm > 0.0 && !o.cm.is_normal() && cm_zero_ok;
    if !cm_zero_ok {
        bad.push("Cm");
    }
    let o3 = o.clone();
    let par = (o.mode, o.population_size, o.initial_step_size, o.tol_x, o.tol_stagnation);
    let built = o.build(|x: &DVector<f64>| x.iter().map(|v| v.abs()).sum::<f64>());
    match built {
        Err(e) => {
            let e = format!("{:?}", e);
            if cm_open && e == "Cm" {
                return Ok(Outcome::trivial());
            }
            ensure!(bad.contains(&e.as_str()), "build() fails with {}; what is wrong: {:?}", e, bad);
            Ok(Outcome::new(true).class(format!("error {}", e)))
        }
        Ok(b) => {
            ensure!(bad.is_empty(), "build() succeeds with invalid {:?}", bad);
            let p = b.parameters();
            eqv!("parameters().mode()", p.mode(), par.0);
            eqv!("parameters().dim()", p.dim(), dim);
            eqv!("parameters().lambda()", p.lambda(), par.1);
            eqf!("parameters().initial_sigma()", p.initial_sigma(), par.2);
            eqf!("parameters().cm()", p.cm(), o3.cm);
            eqv!("parameters().max_function_evals()", p.max_function_evals(), o3.max_function_evals);
            eqv!("parameters().max_generations()", p.max_generations(), o3.max_generations);
            eqv!("parameters().max_time()", p.max_time(), o3.max_time);
            optf("parameters().fun_target()", p.fun_target(), o3.fun_target)?;
            eqf!("parameters().tol_fun()", p.tol_fun(), o3.tol_fun);
            eqf!("parameters().tol_fun_rel()", p.tol_fun_rel(), o3.tol_fun_rel);
            eqf!("parameters().tol_fun_hist()", p.tol_fun_hist(), o3.tol_fun_hist);
            let want_x = o3.tol_x.unwrap_or(1e-12 * par.2);
            ensure!(crate::util::close(p.tol_x(), want_x, 1e-12, 0.0), "parameters().tol_x(): {:e}, expected {:e}", p.tol_x(), want_x);
            let want_s = o3.tol_stagnation.unwrap_or_else(|| 100 + (100.0 * (dim as f64).powf(1.5) / par.1 as f64).ceil() as usize);
            let s = p.tol_stagnation();
            ensure!(
                s == want_s || (o3.tol_stagnation.is_none() && s + 1 == want_s),
                "parameters().tol_stagnation(): {}, expected {}",
                s,
                want_s
            );
            eqf!("parameters().tol_x_up()", p.tol_x_up(), o3.tol_x_up);
            eqf!("parameters().tol_condition_cov()", p.tol_condition_cov(), o3.tol_condition_cov);
            if let Some(s) = o3.seed {
                eqv!("parameters().seed()", p.seed(), s);
            }
            eqv!("parameters().parallel_update()", p.parallel_update(), o3.parallel_update);
            ensure!(format!("{:?}", p.weights_setting()) == format!("{:?}", o3.weights), "parameters().weights_setting(): {:?}", p.weights_setting());
            ensure!(vec_bits_eq(b.mean().as_slice(), o3.initial_mean.as_slice()), "mean() of a new optimizer");
            eqf!("sigma() of a new optimizer", b.sigma(), par.2);
            #[cfg(feature = "plot")]
            eqv!("get_plot().is_some()", b.get_plot().is_some(), o3.plot_options.is_some());
            Ok(Outcome::new(!c.ops.is_empty())
                .class("valid")
                .count("setter_calls", c.ops.len() as u64)
                .note(format!("{} setter calls", c.ops.len())))
        }
    }
}

// ---- restart options ------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    Mode(bool),
    Par(bool),
    Default(usize, #[serde(with = "fser")] f64),
    Target(#[serde(with = "fser")] f64),
    MaxEvals(usize),
    MaxTime(u64),
    RunEvals(usize),
    RunGens(usize),
    Print(bool),
    Seed(u64),
}
fn rkind(o: &ROp) -> u64 {
    match o {
        ROp::Mode(_) => 0,
        ROp::Par(_) => 1,
        ROp::Default(..) => 2,
        ROp::Target(_) => 3,
        ROp::MaxEvals(_) => 4,
        ROp::MaxTime(_) => 5,
        ROp::RunEvals(_) => 6,
        ROp::RunGens(_) => 7,
        ROp::Print(_) => 8,
        ROp::Seed(_) => 9,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    dim: usize,
    #[serde(with = "fser")]
    a: f64,
    #[serde(with = "fser")]
    b: f64,
    strat: u8,
    #[serde(with = "fser::opt")]
    factor: Option<f64>,
    inc: Option<usize>,
    runs: usize,
    ops: Vec<ROp>,
    perm: u64,
}

fn rstrategy(_: Tier) -> BoxedStrategy<RCase> {
    let r = prop_oneof![5 => -100.0..100.0f64, 1 => Just(0.0), 1 => Just(-0.0), 1 => Just(1.0)];
    (
        dims(),
        r.clone(),
        prop_oneof![3 => r.prop_map(Some), 1 => Just(None)],
        0..3u8,
        prop::option::of(steps()),
        prop::option::of(0..5usize),
        0..20usize,
        prop::collection::vec(
            prop_oneof![
                any::<bool>().prop_map(ROp::Mode),
                any::<bool>().prop_map(ROp::Par),
                (2..50usize, any_val()).prop_map(|(p, v)| ROp::Default(p, v)),
                any_val().prop_map(ROp::Target),
                any::<usize>().prop_map(ROp::MaxEvals),
                any::<u64>().prop_map(ROp::MaxTime),
                any::<usize>().prop_map(ROp::RunEvals),
                any::<usize>().prop_map(ROp::RunGens),
                any::<bool>().prop_map(ROp::Print),
                crate::cfg::seeds().prop_map(ROp::Seed),
            ],
            0..16,
        ),
        any::<u64>(),
    )
        .prop_map(|(dim, a, b, strat, factor, inc, runs, ops, perm)| RCase { dim, a, b: b.unwrap_or(a), strat, factor, inc, runs, ops, perm })
        .boxed()
}

fn rcheck(c: &RCase) -> CheckResult {
    // strategies
    let step_ok = c.factor.map_or(true, |f| f.is_normal() && f > 0.0);
    let inc_ok = c.inc.map_or(true, |i| i != 0);
    let mut bad = vec![];
    let strat = match c.strat % 3 {
        0 => {
            if !step_ok {
                bad.push("InitialStepSize");
            }
            Local::new(c.runs, c.factor).map(RestartStrategy::Local)
        }
        1 => {
            if !inc_ok {
                bad.push("PopulationSize");
            }
            match c.inc {
                None => Ok(RestartStrategy::IPOP(IPOP::default())),
                Some(i) => IPOP::new(i).map(RestartStrategy::IPOP),
            }
        }
        _ => {
            if !step_ok {
                bad.push("InitialStepSize");
            }
            if !inc_ok {
                bad.push("PopulationSize");
            }
            BIPOP::new(c.factor, c.inc).map(RestartStrategy::BIPOP)
        }
    };
    let strat = match strat {
        Err(e) => {
            let e = format!("{:?}", e);
            ensure!(bad.contains(&e.as_str()), "strategy rejected with {}; what is wrong: {:?}", e, bad);
            return Ok(Outcome::new(true).class(format!("strategy error {}", e)));
        }
        Ok(s) => {
            ensure!(bad.is_empty(), "strategy accepted with invalid {:?}", bad);
            s
        }
    };
    let dopt = |p: usize, v: f64, dim: usize| CMAESOptions::new(vec![0.0; dim], 0.5).population_size(p).tol_fun(v);
    let build = |ops: &[ROp]| {
        let mut o = RestartOptions::new(c.dim, c.a..=c.b, strat.clone());
        for op in ops {
            o = match op {
                ROp::Mode(m) => o.mode(if *m { Mode::Maximize } else { Mode::Minimize }),
                ROp::Par(p) => o.parallel_update(*p),
                ROp::Default(p, v) => o.default_options(dopt(*p, *v, c.dim)),
                ROp::Target(v) => o.fun_target(*v),
                ROp::MaxEvals(n) => o.max_function_evals(*n),
                ROp::MaxTime(n) => o.max_time(Duration::from_nanos(*n)),
                ROp::RunEvals(n) => o.max_function_evals_per_run(*n),
                ROp::RunGens(n) => o.max_generations_per_run(*n),
                ROp::Print(b) => o.enable_printing(*b),
                ROp::Seed(s) => o.seed(*s),
            };
        }
        o
    };
    macro_rules! rlast {
        ($v:path) => {
            c.ops.iter().rev().find_map(|o| if let $v(x) = o { Some(x.clone()) } else { None })
        };
    }
    let mut q: Vec<(u64, usize)> = c.ops.iter().enumerate().map(|(i, o)| (crate::util::mix(c.perm ^ (rkind(o) + 1) * 7919), i)).collect();
    q.sort();
    let ops2: Vec<ROp> = q.iter().map(|(_, i)| c.ops[*i].clone()).collect();
    for o in [build(&c.ops), build(&ops2)] {
        eqv!("dimensions", o.dimensions, c.dim);
        eqf!("search range start", *o.search_range.start(), c.a.min(c.b));
        eqf!("search range end", *o.search_range.end(), c.a.max(c.b));
        eqv!("mode", o.mode, rlast!(ROp::Mode).map_or(Mode::Minimize, |m| if m { Mode::Maximize } else { Mode::Minimize }));
        eqv!("parallel_update", o.parallel_update, rlast!(ROp::Par).unwrap_or(false));
        optf("fun_target", o.fun_target, rlast!(ROp::Target))?;
        eqv!("max_function_evals", o.max_function_evals, rlast!(ROp::MaxEvals));
        eqv!("max_time", o.max_time, rlast!(ROp::MaxTime).map(Duration::from_nanos));
        eqv!("max_function_evals_per_run", o.max_function_evals_per_run, rlast!(ROp::RunEvals));
        eqv!("max_generations_per_run", o.max_generations_per_run, rlast!(ROp::RunGens));
        eqv!("enable_printing", o.enable_printing, rlast!(ROp::Print).unwrap_or(false));
        eqv!("seed", o.seed, rlast!(ROp::Seed));
        let want = c
            .ops
            .iter()
            .rev()
            .find_map(|o| if let ROp::Default(p, v) = o { Some(dopt(*p, *v, c.dim)) } else { None })
            .unwrap_or_else(|| CMAESOptions::new(vec![0.0; c.dim], 0.5));
        let d = &o.default_options;
        eqv!("default population", d.population_size, want.population_size);
        eqf!("default tol_fun", d.tol_fun, want.tol_fun);
        eqv!("default options' dimensions", d.initial_mean.len(), c.dim);
        eqv!("default max_resamples", d.max_resamples, Some(10));
        ensure!(d.constraints.is_none() && d.max_time.is_none() && d.tol_x.is_none() && d.tol_stagnation.is_none(), "default options {:?}", d);
    }
    let mut bad = vec![];
    if c.dim == 0 {
        bad.push("Dimensions");
    }
    if c.a == c.b {
        bad.push("SearchRange");
    }
    match build(&c.ops).build() {
        Err(e) => {
            let e = format!("{:?}", e);
            ensure!(bad.contains(&e.as_str()), "build() fails with {}; what is wrong: {:?}", e, bad);
            Ok(Outcome::new(true).class(format!("error {}", e)))
        }
        Ok(r) => {
            ensure!(bad.is_empty(), "build() succeeds with invalid {:?}", bad);
            if let Some(s) = rlast!(ROp::Seed) {
                eqv!("seed()", r.seed(), s);
            }
            Ok(Outcome::new(!c.ops.is_empty()).class(if c.a > c.b { "flipped range" } else { "valid" }))
        }
    }
}

// ---- options survive into behaviour ----------------------------------------------------------

/// Exhaustive over small values: population and dimension validity, and default population sizes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DefCase {
    dim: usize,
    pop: usize,
}
fn dstrategy(_: Tier) -> BoxedStrategy<DefCase> {
    (1..3000usize, 2..4000usize).prop_map(|(dim, pop)| DefCase { dim, pop }).boxed()
}
fn dcheck(c: &DefCase) -> CheckResult {
    let o = CMAESOptions::new(vec![0.0; c.dim], 1.0);
    let x = 3.0 * (c.dim as f64).ln();
    let want = 4 + x.floor() as usize;
    if (x - x.round()).abs() > 1e-9 || c.dim == 1 {
        eqv!(format!("default population in {} dimensions", c.dim), o.population_size, want);
    }
    let o = o.population_size(c.pop);
    eqv!("population", o.population_size, c.pop);
    Ok(Outcome::new(true))
}
fn dfixed() -> Vec<DefCase> {
    (1..200).map(|dim| DefCase { dim, pop: 2 }).collect()
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "options: generated sequences of setter calls (valid and invalid values, repeats) against a model holding the last value of each, also with the calls reordered; the built optimizer's parameters against the options. restart: the same for restart options and strategies. Non-trivial with at least one setter call or a rejected build.",
        assumptions: vec!["if several options are invalid any of the matching errors is accepted; a subnormal learning rate is left open"],
        sections: vec![
            Box::new(Section { name: "options", quick: 40000, thorough: 1000000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "restart", quick: 40000, thorough: 1000000, strategy: rstrategy, check: rcheck, fixed: no_fixed }),
            Box::new(Section { name: "defaults", quick: 2000, thorough: 30000, strategy: dstrategy, check: dcheck, fixed: dfixed }),
        ],
        shards: 8,
    }
}
