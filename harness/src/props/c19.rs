//! C19: restart schedules.
use super::c11::normals;
use crate::capture::capture;
use crate::obj::{any_obj, Kind, Obj};
use crate::rst::{parse_info, rcfg, run_fresh, Info, RCall, RCfg, Strat};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{close, ks_stat};
use cmaes::DVector;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: RCfg,
    obj: Obj,
    /// quantile of the values near the start used as a target; None: no target
    target: Option<u8>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    (rcfg(if t == Tier::Quick { 5 } else { 10 }), any_obj(), prop::option::weighted(0.3, 0..4u8))
        .prop_map(|(cfg, obj, target)| Case { cfg, obj, target })
        .boxed()
}

/// A target that is not reached at once
pub fn target_for(c: &RCfg, obj: &Obj, q: u8) -> f64 {
    // values at some points of the search range
    let mut v: Vec<f64> = (0..24)
        .map(|i| {
            let x: Vec<f64> = (0..c.dim).map(|k| c.lo() + c.range() * crate::obj::hash01(&[i as f64, k as f64], 5)).collect();
            obj.eval(&x)
        })
        .filter(|v| v.is_finite())
        .collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if c.max {
        v.reverse();
    }
    match v.first() {
        None => 0.0,
        Some(best) => {
            let spread = (best - v[v.len() - 1]).abs();
            // 0: reached early, 1..: harder
            let d = spread * [-0.2, 0.0, 0.1, 1e-3][q as usize % 4];
            if c.max {
                best + d
            } else {
                best - d
            }
        }
    }
}

/// The options a run must have, apart from its mean
struct Expect {
    sigma: f64,
    lambda: usize,
    max_evals: Option<usize>,
    exact_sigma: bool,
    /// possible absolute error of sigma
    sigma_err: f64,
}

enum Verdict {
    Exact,
    Close,
    Undecided,
}

/// Compares a run with a plain optimizer run from the mean that explains its first points.
fn judge_run(c: &RCfg, obj: &Obj, k: usize, run: &[&RCall], info: &Info, e: &Expect) -> Result<Verdict, String> {
    let n = c.dim;
    let lam = e.lambda;
    if run.is_empty() || run.len() % lam != 0 {
        return Err(format!("run {}: {} evaluations with a population of {}", k, run.len(), lam));
    }
    let z = normals(info.seed, n, lam);
    let x = |i: usize, j: usize| run[i].x[j];
    // mean and consistency of the first generation
    let m = lam.min(run.len());
    let candidates = |sigma: f64, err: f64| -> Result<Vec<(f64, f64)>, String> {
        let mut cand = vec![];
        for j in 0..n {
            let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
            for i in 0..m {
                let s = sigma * z[i][j];
                let mid = x(i, j) - s;
                let u = f64::EPSILON * (x(i, j).abs().max(s.abs())) + 2.0 * err * z[i][j].abs();
                lo = lo.max(mid - u);
                hi = hi.min(mid + u);
            }
            if !(lo <= hi) {
                return Err(format!(
                    "run {}: the first {} points are not mean + {:e} * normal for any mean (coordinate {}: [{:e}, {:e}])",
                    k, m, sigma, j, lo, hi
                ));
            }
            let slack = 1e-12 * (c.hi().abs().max(c.lo().abs()) + sigma);
            if hi < c.lo() - slack || lo > c.hi() + slack {
                return Err(format!("run {}: initial mean coordinate {} is about {:e}, outside [{}, {}]", k, j, lo, c.lo(), c.hi()));
            }
            cand.push((lo.max(c.lo()).min(hi), hi.min(c.hi()).max(lo)));
        }
        Ok(cand)
    };
    // the step size is a product of some factors, in any order
    let widened = candidates(e.sigma, e.sigma_err + 4.0 * f64::EPSILON * e.sigma)?;
    let replay = |mean: Vec<f64>, sigma: f64, limit: Option<usize>| {
        let mut o = c
            .default_options()
            .initial_mean(mean)
            .initial_step_size(sigma)
            .population_size(lam)
            .mode(c.mode())
            .seed(info.seed);
        o.max_function_evals = e.max_evals;
        o.max_generations = c.run_gens;
        o.fun_target = c.target;
        if let Some(l) = limit {
            o.max_generations = Some(l);
        }
        let mut log: Vec<Vec<f64>> = vec![];
        let mut s = o
            .build(|x: &DVector<f64>| {
                log.push(x.as_slice().to_vec());
                obj.eval(x.as_slice())
            })
            .unwrap();
        let t = s.run();
        let r: Vec<String> = t.reasons.iter().map(|r| format!("{:?}", r)).collect();
        drop(s);
        (log, r)
    };
    let scale = |i: usize, j: usize| e.sigma + x(i, j).abs() + 1e-300;
    if e.exact_sigma {
      for ulps in [0i64, 1, -1, 2, -2] {
        let sigma = f64::from_bits((e.sigma.to_bits() as i64 + ulps) as u64);
        let Ok(cand) = candidates(sigma, e.sigma_err) else {
            continue;
        };
        let mut tried = vec![];
        for f in [0.5, 0.0, 1.0, 0.25, 0.75, 0.4, 0.6, 0.1, 0.9] {
            let mean: Vec<f64> = cand.iter().map(|(l, h)| l + f * (h - l)).collect();
            if tried.contains(&mean) {
                continue;
            }
            tried.push(mean.clone());
            // first generation must be reproduced exactly, otherwise this is another mean
            let exact = (0..m).all(|i| (0..n).all(|j| mean[j] + sigma * z[i][j] == x(i, j)));
            if !exact {
                continue;
            }
            let (log, reasons) = replay(mean, sigma, None);
            let common = log.len().min(run.len());
            let diff = (0..common).find(|i| (0..n).any(|j| log[*i][j].to_bits() != run[*i].x[j].to_bits()));
            match diff {
                None => {
                    if log.len() != run.len() {
                        return Err(format!(
                            "run {}: {} evaluations, but a run with its options (population {}, step size {:e}, evaluation limit {:?}, generation limit {:?}, target {:?}) makes {}",
                            k, run.len(), lam, sigma, e.max_evals, c.run_gens, c.target, log.len()
                        ));
                    }
                    if !info.reasons.is_empty() && info.reasons != reasons {
                        return Err(format!("run {}: ended with {:?}, a run with its options ends with {:?}", k, info.reasons, reasons));
                    }
                    return Ok(Verdict::Exact);
                }
                Some(i) => {
                    // a difference of rounding size means that the mean was another one
                    let gross = (0..n).any(|j| (log[i][j] - x(i, j)).abs() > 1e-7 * scale(i, j));
                    if gross {
                        return Err(format!(
                            "run {}: evaluation {} is {:?}, a run with its options (population {}, step size {:e}) evaluates {:?}",
                            k, i, run[i].x, lam, sigma, log[i]
                        ));
                    }
                }
            }
        }
      }
    }
    // up to rounding, first generations
    let sigma = e.sigma;
    let mean: Vec<f64> = widened.iter().map(|(l, h)| 0.5 * (l + h)).collect();
    let gens = (run.len() / lam).min(3);
    let (log, _) = replay(mean, sigma, Some(gens));
    if e.sigma_err > 1e-10 * sigma {
        return Ok(Verdict::Undecided);
    }
    let robust = matches!(obj.kind, Kind::Sphere | Kind::Linear | Kind::Ellipsoid(_) | Kind::Rosenbrock | Kind::Abs | Kind::Const | Kind::Rastrigin);
    if !robust {
        return Ok(Verdict::Undecided);
    }
    if log.len() < gens * lam {
        return Err(format!("run {}: {} evaluations, but a run with its options stops after {}", k, run.len(), log.len()));
    }
    let spread = (0..m).flat_map(|i| (0..n).map(move |j| (i, j))).fold(0.0f64, |a, (i, j)| a.max(scale(i, j)));
    // rankings must not hang on rounding
    let mut vals: Vec<f64> = (0..gens * lam).map(|i| run[i].v).collect();
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let near_tie = vals.windows(2).any(|w| w[0] != w[1] && (w[1] - w[0]).abs() <= 1e-9 * (w[0].abs() + w[1].abs()));
    if near_tie {
        return Ok(Verdict::Undecided);
    }
    if !matches!(obj.kind, Kind::Const) && vals.windows(2).any(|w| w[0] == w[1]) {
        return Ok(Verdict::Undecided);
    }
    for i in 0..gens * lam {
        for j in 0..n {
            if !((log[i][j] - x(i, j)).abs() <= 1e-6 * spread) {
                return Err(format!(
                    "run {}: evaluation {} is {:?}, a run with its options (population {}, step size {:e}) evaluates {:?}",
                    k, i, run[i].x, lam, sigma, log[i]
                ));
            }
        }
    }
    Ok(Verdict::Close)
}

fn check(case: &Case) -> CheckResult {
    let mut c = case.cfg.clone();
    c.target = case.target.map(|q| target_for(&c, &case.obj, q));
    let c = &c;
    let (ran, text) = capture(|| run_fresh(c.restarter(true), &case.obj, &[], 0.0));
    let Some(infos) = parse_info(&text) else {
        return Ok(Outcome::trivial().class("run information not readable"));
    };
    let runs = ran.runs();
    ensure!(ran.made == ran.res.runs, "{} objective functions obtained for {} runs", ran.made, ran.res.runs);
    if infos.len() != runs.len() || infos.iter().any(|i| i.reasons.is_empty()) {
        return Ok(Outcome::trivial().class("run information incomplete"));
    }
    let pop = c.lambda();
    let (mut exact, mut near, mut undecided) = (0u64, 0u64, 0u64);
    let (mut ipop_runs, mut ipop_evals, mut lr_evals, mut mult, mut last_mult, mut last_evals, mut lr_runs) = (0, 0usize, 0usize, 1usize, 1usize, 0usize, 0u64);
    for (k, (run, info)) in runs.iter().zip(&infos).enumerate() {
        let k1 = k + 1;
        let n = c.dim;
        // the step size behind the points (two points of the first generation)
        let z = normals(info.seed, n, 2);
        ensure!(run.len() >= 2, "run {}: {} evaluations", k1, run.len());
        let num: f64 = (0..n).map(|j| (run[0].x[j] - run[1].x[j]) * (z[0][j] - z[1][j])).sum();
        let den: f64 = (0..n).map(|j| (z[0][j] - z[1][j]).powi(2)).sum();
        let seen = num / den;
        let xerr = 8.0 * f64::EPSILON * (0..n).map(|j| run[0].x[j].abs() + run[1].x[j].abs()).sum::<f64>() / den.sqrt();
        let sig_is = |want: f64| close(seen, want, 1e-9 + xerr / want, 0.0);
        let per_run = c.run_evals;
        let e;
        match &c.strat {
            Strat::Local(max, f) => {
                ensure!(k < *max, "run {} of at most {}", k1, max);
                let s = c.range() * f.unwrap_or(0.5) * 0.01;
                ensure!(sig_is(s), "run {}: initial step size {:e}, expected {:e} (range {} * factor {:?} * 0.01)", k1, seen, s, c.range(), f);
                ensure!(info.lambda == pop, "run {}: population {}, expected {}", k1, info.lambda, pop);
                e = Expect { sigma: c.range() * f.unwrap_or(0.5) * 1e-2, lambda: pop, max_evals: per_run, exact_sigma: true, sigma_err: 0.0 };
            }
            Strat::Ipop(inc) => {
                ensure!(k < 10, "IPOP run {}", k1);
                let s = c.range() / 2.0;
                ensure!(sig_is(s), "run {}: initial step size {:e}, expected {:e} (range {} / 2)", k1, seen, s, c.range());
                let l = pop * inc.unwrap_or(2).pow(k as u32);
                ensure!(info.lambda == l, "run {}: population {}, expected {}", k1, info.lambda, l);
                e = Expect { sigma: s, lambda: l, max_evals: per_run, exact_sigma: true, sigma_err: 0.0 };
            }
            Strat::Bipop(f, inc) => {
                if ipop_runs > 0 && lr_evals < ipop_evals {
                    lr_runs += 1;
                    let f = f.unwrap_or(0.2);
                    let (hi, lo) = (c.range() * f, c.range() * f * 0.01);
                    ensure!(
                        seen <= hi * (1.0 + 1e-9) + xerr && seen >= lo * (1.0 - 1e-9) - xerr,
                        "run {} (local; local runs used {} evaluations, IPOP runs {}): initial step size {:e} outside [{:e}, {:e}]",
                        k1, lr_evals, ipop_evals, seen, lo, hi
                    );
                    let top = (pop * last_mult / 2).max(pop);
                    ensure!(
                        info.lambda >= pop && info.lambda <= top,
                        "run {} (local; local runs used {} evaluations, IPOP runs {}): population {} outside [{}, {}]",
                        k1, lr_evals, ipop_evals, info.lambda, pop, top
                    );
                    let lim = last_evals / 2;
                    let lim = per_run.map_or(lim, |p| p.min(lim));
                    ensure!(
                        run.len() < lim + info.lambda || (lim == 0 && run.len() <= info.lambda),
                        "run {} (local): {} evaluations with a limit of {} (last IPOP run {}, population {})",
                        k1, run.len(), lim, last_evals, info.lambda
                    );
                    ensure!(
                        info.reasons.contains(&"MaxFunctionEvals".to_string()) == (run.len() >= lim) || info.reasons == ["PosDefCov"],
                        "run {} (local): ended with {:?} after {} evaluations, the limit is {} (last IPOP run: {})",
                        k1, info.reasons, run.len(), lim, last_evals
                    );
                    lr_evals += run.len();
                    // the printed step size selects the exact one only roughly
                    e = Expect { sigma: seen, lambda: info.lambda, max_evals: Some(lim), exact_sigma: false, sigma_err: xerr + 1e-13 * seen };
                } else {
                    ensure!(ipop_runs < 10, "run {}: IPOP run number {}", k1, ipop_runs + 1);
                    let s = c.range() / 5.0;
                    ensure!(
                        sig_is(s),
                        "run {} (IPOP; local runs used {} evaluations, IPOP runs {}): initial step size {:e}, expected {:e} (range {} / 5)",
                        k1, lr_evals, ipop_evals, seen, s, c.range()
                    );
                    let l = pop * mult;
                    ensure!(
                        info.lambda == l,
                        "run {} (IPOP; local runs used {} evaluations, IPOP runs {}): population {}, expected {}",
                        k1, lr_evals, ipop_evals, info.lambda, l
                    );
                    e = Expect { sigma: s, lambda: l, max_evals: per_run, exact_sigma: true, sigma_err: 0.0 };
                    ipop_runs += 1;
                    ipop_evals += run.len();
                    last_evals = run.len();
                    last_mult = mult;
                    mult *= inc.unwrap_or(2);
                }
            }
        }
        // the limits and the target common to all runs
        if info.reasons != ["PosDefCov"] && info.reasons != ["InvalidFunctionValue"] {
            let gens = run.len() / info.lambda;
            let said = |r: &str| info.reasons.iter().any(|x| x == r);
            if let Some(l) = c.run_gens {
                ensure!(
                    gens <= l.max(1) && said("MaxGenerations") == (gens >= l),
                    "run {}: ended with {:?} after {} generations, the limit per run is {}",
                    k1, info.reasons, gens, l
                );
            }
            if let Some(t) = c.target {
                let hit = run.iter().position(|r| if c.max { r.v > t } else { r.v < t }).map(|i| i / info.lambda);
                ensure!(
                    said("FunTarget") == hit.is_some() && hit.map_or(true, |g| g + 1 == gens),
                    "run {}: ended with {:?} after {} generations, the target {:e} was reached in generation {:?}",
                    k1, info.reasons, gens, t, hit.map(|g| g + 1)
                );
            }
        }
        for o in &infos[..k] {
            ensure!(o.seed != info.seed, "run {} has the seed of an earlier run: {}", k1, info.seed);
        }
        // means are drawn anew
        if k > 0 && c.range() > 1e-6 * c.lo().abs() {
            let zp = normals(infos[k - 1].seed, n, 2);
            let m = |r: &[&RCall], z: &[Vec<f64>], s: f64, j: usize| r[0].x[j] - s * z[0][j];
            let ps = {
                let p = &runs[k - 1];
                let num: f64 = (0..n).map(|j| (p[0].x[j] - p[1].x[j]) * (zp[0][j] - zp[1][j])).sum();
                num / (0..n).map(|j| (zp[0][j] - zp[1][j]).powi(2)).sum::<f64>()
            };
            let same = (0..n).all(|j| (m(run, &z, seen, j) - m(&runs[k - 1], &zp, ps, j)).abs() < 1e-11 * c.range());
            ensure!(!same, "runs {} and {} start at the same mean", k, k1);
        }
        match judge_run(c, &case.obj, k1, run, info, &e)? {
            Verdict::Exact => exact += 1,
            Verdict::Close => near += 1,
            Verdict::Undecided => undecided += 1,
        }
    }
    if format!("{:?}", ran.res.reason) == "MaxRuns" {
        match &c.strat {
            Strat::Local(n, _) => ensure!(runs.len() == *n, "MaxRuns after {} of {} local runs", runs.len(), n),
            Strat::Ipop(_) => ensure!(runs.len() == 10, "MaxRuns after {} IPOP runs", runs.len()),
            Strat::Bipop(..) => ensure!(ipop_runs == 10, "MaxRuns after {} IPOP runs of BIPOP", ipop_runs),
        }
    }
    Ok(Outcome::new(runs.len() > 1)
        .class(c.strat.label())
        .class(if c.a > c.b { "flipped range" } else { "range" })
        .count("runs_reproduced_exactly", exact)
        .count("runs_reproduced_up_to_rounding", near)
        .count("runs_checked_by_parameters_only", undecided)
        .count("local_runs_of_bipop", lr_runs)
        .note(format!("{} runs, {} evaluations", runs.len(), ran.calls.len())))
}

// ---- distribution of initial means and local step sizes ---------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UCase {
    dim: usize,
    #[serde(with = "crate::util::fser")]
    a: f64,
    #[serde(with = "crate::util::fser")]
    w: f64,
    runs: usize,
    seed: u64,
}
fn ustrategy(_: Tier) -> BoxedStrategy<UCase> {
    (1..5usize, -100.0..100.0f64, 0.1..100.0f64, 300..1500usize, any::<u64>())
        .prop_map(|(dim, a, w, runs, seed)| UCase { dim, a, w, runs, seed })
        .boxed()
}
fn ucheck(u: &UCase) -> CheckResult {
    let c = RCfg {
        dim: u.dim,
        a: u.a,
        b: u.a + u.w,
        strat: Strat::Local(u.runs, Some(1e-7)),
        max: false,
        target: None,
        max_evals: None,
        run_evals: Some(1),
        run_gens: None,
        par_update: false,
        def: None,
        seed: u.seed,
    };
    let ran = run_fresh(c.restarter(false), &Obj::new(Kind::Linear), &[], 0.0);
    let runs = ran.runs();
    ensure!(runs.len() == u.runs, "{} of {} runs", runs.len(), u.runs);
    // the step size is 1e-9 of the range: the first point is the mean
    let mut worst: f64 = 0.0;
    let pos: Vec<Vec<f64>> = (0..u.dim).map(|j| runs.iter().map(|r| (r[0].x[j] - c.lo()) / c.range()).collect()).collect();
    for (j, p) in pos.iter().enumerate() {
        ensure!(p.iter().all(|v| *v > -1e-6 && *v < 1.0 + 1e-6), "initial mean outside the search range in coordinate {}", j);
        let d = ks_stat(&mut p.clone(), |v| v.clamp(0.0, 1.0));
        worst = worst.max(d);
        ensure!(d < 3.2, "initial means are not uniform in coordinate {}: KS statistic {:.2} over {} runs", j, d, u.runs);
        // successive runs and other coordinates are independent
        let corr = |a: &[f64], b: &[f64]| {
            a.iter().zip(b).map(|(x, y)| (x - 0.5) * (y - 0.5)).sum::<f64>() / a.len() as f64 * 12.0 * (a.len() as f64).sqrt()
        };
        let r = corr(&p[1..], &p[..p.len() - 1]);
        ensure!(r.abs() < 6.5, "initial means of successive runs are correlated in coordinate {}: {:.2} sigma", j, r);
        for (i, q) in pos.iter().enumerate().take(j) {
            let r = corr(p, q);
            ensure!(r.abs() < 6.5, "coordinates {} and {} of the initial means are correlated: {:.2} sigma", i, j, r);
        }
    }
    Ok(Outcome::new(true).count("runs", u.runs as u64).note(format!("largest KS statistic {:.2}", worst)))
}

/// Local step sizes of BIPOP: log-uniform over two decades
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LCase {
    seeds: Vec<u64>,
    #[serde(with = "crate::util::fser::opt")]
    factor: Option<f64>,
    inc: Option<usize>,
}
fn lstrategy(_: Tier) -> BoxedStrategy<LCase> {
    (prop::collection::vec(any::<u64>(), 30), prop::option::of(0.05..2.0f64), prop::option::of(1..=2usize))
        .prop_map(|(seeds, factor, inc)| LCase { seeds, factor, inc })
        .boxed()
}
fn lcheck(l: &LCase) -> CheckResult {
    let mut us = vec![];
    let mut pops = vec![];
    for s in &l.seeds {
        let c = RCfg {
            dim: 2,
            a: -3.0,
            b: 2.0,
            strat: Strat::Bipop(l.factor, l.inc),
            max: false,
            target: None,
            max_evals: None,
            run_evals: None,
            run_gens: Some(4),
            par_update: false,
            def: None,
            seed: *s,
        };
        let (ran, text) = capture(|| run_fresh(c.restarter(true), &Obj::new(Kind::Linear), &[], 0.0));
        let Some(infos) = parse_info(&text) else {
            return Ok(Outcome::trivial().class("run information not readable"));
        };
        if infos.len() != ran.made {
            return Ok(Outcome::trivial().class("run information incomplete"));
        }
        let top = c.range() * l.factor.unwrap_or(0.2);
        let pop = c.lambda();
        for i in &infos {
            if (i.sigma0 / (c.range() / 5.0) - 1.0).abs() < 1e-4 {
                continue;
            }
            us.push(-(i.sigma0 / top).log10() / 2.0);
            pops.push(i.lambda as f64 / pop as f64);
        }
    }
    if us.len() < 60 {
        return Ok(Outcome::trivial());
    }
    let n = us.len();
    let d = ks_stat(&mut us, |v| v.clamp(0.0, 1.0));
    ensure!(d < 3.2, "local step sizes are not range * factor * 10^(-2u) with uniform u: KS statistic {:.2} over {} runs", d, n);
    Ok(Outcome::new(true).count("local_runs", n as u64).note(format!("KS {:.2} over {} local runs, largest population factor {}", d, n, pops.iter().fold(0.0f64, |a, b| a.max(*b)))))
}

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "schedule: a generated restart is run with recorded objective functions and its printed run information; every run's step size and mean are recovered from its first points and the normal numbers of its seed, compared with the documented schedule (simulated from the recorded evaluations), and the run is reproduced by a plain optimizer with the expected options. Non-trivial with at least two runs. means/local-sigma: distribution over many runs of one restart.",
        assumptions: vec![
            "a run's seed and population are read from the printed run information (a case where it cannot be read is counted as trivial)",
            "the exact step size of a BIPOP local run is not observable, so such runs are reproduced up to rounding over three generations only",
            "Kolmogorov-Smirnov limit 3.2 (false alarm probability 3e-9 per sample)",
        ],
        sections: vec![
            Box::new(Section { name: "schedule", quick: 2400, thorough: 40000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "means", quick: 100, thorough: 3000, strategy: ustrategy, check: ucheck, fixed: no_fixed }),
            Box::new(Section { name: "local-sigma", quick: 60, thorough: 1500, strategy: lstrategy, check: lcheck, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
