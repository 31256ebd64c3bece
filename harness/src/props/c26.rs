//! C26: convex quadratic functions are solved, at the cost of a reference CMA-ES.
use crate::cfg::{weights, W};
use crate::model::{params, Eig};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{mix, norm};
use cmaes::restart::{Local, RestartOptions, RestartStrategy, RestartTerminationReason, BIPOP, IPOP};
use cmaes::{CMAESOptions, DVector, Mode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};

/// Deterministic random numbers of the reference and of the function generator
#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    fn uni(&mut self) -> f64 {
        ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64
    }
    fn gauss(&mut self) -> f64 {
        let (u, v) = (self.uni(), self.uni());
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Spectrum {
    Even,
    Cigar,
    Discus,
    Random,
}

/// a * (x - xo)' Q diag Q' (x - xo) / sigma^2 + offset
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Quad {
    n: usize,
    spectrum: Spectrum,
    /// log10 of the condition number
    e: f64,
    /// None: axis-aligned
    rotation: Option<u64>,
    place: u64,
    /// distance of the optimum from the origin, in step sizes
    far: f64,
    sigma: f64,
    a: f64,
    offset: f64,
}

struct Fun {
    q: Vec<Vec<f64>>,
    ev: Vec<f64>,
    xo: Vec<f64>,
    mean: Vec<f64>,
    s: f64,
    a: f64,
    offset: f64,
}

impl Quad {
    fn fun(&self) -> Fun {
        let n = self.n;
        let mut q: Vec<Vec<f64>> = vec![];
        match self.rotation {
            None => {
                for i in 0..n {
                    q.push((0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect());
                }
            }
            Some(r) => {
                let mut g = Rng(r);
                while q.len() < n {
                    let mut v: Vec<f64> = (0..n).map(|_| g.gauss()).collect();
                    for _ in 0..2 {
                        for b in &q {
                            let d: f64 = b.iter().zip(&v).map(|(a, b)| a * b).sum();
                            v.iter_mut().zip(b).for_each(|(x, b)| *x -= d * b);
                        }
                    }
                    let l = norm(&v);
                    if l > 1e-6 {
                        v.iter_mut().for_each(|x| *x /= l);
                        q.push(v);
                    }
                }
            }
        }
        let mut g = Rng(self.place);
        let c = 10f64.powf(self.e);
        let mut ev: Vec<f64> = (0..n)
            .map(|i| match self.spectrum {
                Spectrum::Even => {
                    if n > 1 {
                        10f64.powf(self.e * i as f64 / (n - 1) as f64)
                    } else {
                        1.0
                    }
                }
                Spectrum::Cigar => {
                    if i == 0 {
                        1.0
                    } else {
                        c
                    }
                }
                Spectrum::Discus => {
                    if i == 0 {
                        c
                    } else {
                        1.0
                    }
                }
                Spectrum::Random => 10f64.powf(self.e * g.uni()),
            })
            .collect();
        // positions of the axes
        for i in (1..n).rev() {
            let j = (g.next() % (i as u64 + 1)) as usize;
            ev.swap(i, j);
        }
        let xo: Vec<f64> = (0..n).map(|_| g.gauss() * self.far * self.sigma).collect();
        let mean = xo.iter().map(|x| x + self.sigma * (g.uni() * 4.0 - 2.0)).collect();
        Fun { q, ev, xo, mean, s: self.sigma, a: self.a, offset: self.offset }
    }
    /// Precision every run must reach
    fn tol(&self) -> f64 {
        1e-10 + 1e3 * f64::EPSILON * self.offset.abs()
    }
    fn class(&self) -> String {
        format!("{:?} 1e{}", self.spectrum, self.e.round())
    }
}

impl Fun {
    /// value above the minimum
    fn excess(&self, x: &[f64]) -> f64 {
        let d: Vec<f64> = x.iter().zip(&self.xo).map(|(x, o)| (x - o) / self.s).collect();
        self.a
            * self
                .q
                .iter()
                .zip(&self.ev)
                .map(|(q, e)| {
                    let t: f64 = q.iter().zip(&d).map(|(a, b)| a * b).sum();
                    e * t * t
                })
                .sum::<f64>()
    }
    fn value(&self, x: &[f64]) -> f64 {
        self.excess(x) + self.offset
    }
}

/// Evaluations a textbook CMA-ES with default population needs to get below `tol`
fn reference(f: &Fun, mean: &[f64], sigma: f64, w: W, tol: f64, seed: u64, cap: usize) -> Option<usize> {
    let n = mean.len();
    let lambda = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    let p = params(n, lambda, w, 1.0);
    let mut g = Rng(seed);
    let (mut m, mut s) = (mean.to_vec(), sigma);
    let mut cov: Vec<f64> = Eig::identity(n).vecs;
    let mut eig = Eig::identity(n);
    let (mut ps, mut pc) = (vec![0.0; n], vec![0.0; n]);
    let (mut evals, mut gen, mut last) = (0usize, 0usize, 0usize);
    let gap = p.eigen_gap_gens().max(1);
    while evals < cap {
        let mut pop: Vec<(f64, Vec<f64>)> = vec![];
        for _ in 0..lambda {
            let z: Vec<f64> = (0..n).map(|i| g.gauss() * eig.vals[i].max(0.0).sqrt()).collect();
            let y: Vec<f64> = (0..n).map(|k| (0..n).map(|i| eig.vecs[i * n + k] * z[i]).sum()).collect();
            let x: Vec<f64> = (0..n).map(|k| m[k] + s * y[k]).collect();
            let v = f.excess(&x);
            evals += 1;
            if v < tol {
                return Some(evals);
            }
            pop.push((v, y));
        }
        pop.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let yw: Vec<f64> = (0..n).map(|k| (0..p.mu).map(|i| p.w[i] * pop[i].1[k]).sum()).collect();
        for k in 0..n {
            m[k] += s * yw[k];
        }
        let wh = eig.whiten(&yw);
        for k in 0..n {
            ps[k] = (1.0 - p.cs) * ps[k] + (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt() * wh[k];
        }
        gen += 1;
        let psn = norm(&ps);
        let hs = psn / (1.0 - (1.0 - p.cs).powf(2.0 * gen as f64)).sqrt() < (1.4 + 2.0 / (n as f64 + 1.0)) * p.chi();
        let h = if hs { 1.0 } else { 0.0 };
        for k in 0..n {
            pc[k] = (1.0 - p.cc) * pc[k] + h * (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt() * yw[k];
        }
        let keep = 1.0 + p.c1 * (1.0 - h) * p.cc * (2.0 - p.cc) - p.c1 - p.cmu * p.w.iter().sum::<f64>();
        let mut rm = vec![0.0; n * n];
        for (i, w) in p.w.iter().enumerate() {
            let y = &pop[i].1;
            let mut w = *w;
            if w < 0.0 {
                let q = crate::model::whiten_norm(&eig, y);
                w *= n as f64 / (q * q);
            }
            for a in 0..n {
                for b in 0..n {
                    rm[a * n + b] += w * y[a] * y[b];
                }
            }
        }
        for a in 0..n {
            for b in 0..n {
                cov[a * n + b] = keep * cov[a * n + b] + p.c1 * pc[a] * pc[b] + p.cmu * rm[a * n + b];
            }
        }
        s *= ((p.cs / p.ds) * (psn / p.chi() - 1.0)).exp();
        if gen >= last + gap {
            eig = Eig::of(&cov, n);
            last = gen;
            if !(eig.min() > 0.0) {
                return None;
            }
        }
    }
    None
}

/// The worst of three reference runs
fn worst_reference(f: &Fun, mean: &[f64], sigma: f64, w: W, tol: f64, seed: u64) -> Option<usize> {
    let mut worst = 0;
    for k in 0..3 {
        worst = worst.max(reference(f, mean, sigma, w, tol, mix(seed ^ k), 200_000)?);
    }
    Some(worst)
}

fn quad(t: Tier) -> BoxedStrategy<Quad> {
    (
        1..=if t == Tier::Quick { 10usize } else { 14 },
        prop_oneof![4 => Just(Spectrum::Even), 1 => Just(Spectrum::Cigar), 1 => Just(Spectrum::Discus), 2 => Just(Spectrum::Random)],
        prop_oneof![1 => Just(0.0), 6 => 0.0..4.0f64, 2 => Just(4.0)],
        prop::option::weighted(0.85, any::<u64>()),
        any::<u64>(),
        prop_oneof![1 => Just(0.0), 3 => 0.0..5.0f64, 1 => 5.0..50.0f64],
        prop_oneof![1 => Just(0.0), 5 => -3.0..3.0f64],
        prop_oneof![1 => Just(0.0), 5 => -3.0..6.0f64],
        prop_oneof![4 => Just(0.0), 1 => -10.0..10.0f64, 1 => -1e4..1e4f64],
    )
        .prop_map(|(n, spectrum, e, rotation, place, far, ls, la, offset)| Quad {
            n,
            spectrum,
            e,
            rotation,
            place,
            far,
            sigma: 10f64.powf(ls),
            a: 10f64.powf(la),
            offset,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    quad: Quad,
    w: W,
    max: bool,
    parallel: bool,
    par_update: bool,
    seed: u64,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    (quad(t), weights(), any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.3), any::<u64>())
        .prop_map(|(quad, w, max, parallel, par_update, seed)| Case { quad, w, max, parallel, par_update, seed })
        .boxed()
}

struct Run {
    evals: usize,
    /// evaluations until the value was within the precision
    hit: Option<usize>,
    /// final distance from the optimal value
    left: f64,
    what: String,
}

fn run(c: &Case, f: &Fun, seed: u64, tol: f64, cap: usize) -> Run {
    let sign = if c.max { -1.0 } else { 1.0 };
    let o = CMAESOptions::new(f.mean.clone(), f.s)
        .weights(c.w.to())
        .mode(if c.max { Mode::Maximize } else { Mode::Minimize })
        .parallel_update(c.par_update)
        .max_function_evals(cap)
        .seed(seed);
    let (count, hit) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let obj = |x: &DVector<f64>| {
        let k = count.fetch_add(1, Ordering::SeqCst) + 1;
        if f.excess(x.as_slice()) < tol {
            let _ = hit.compare_exchange(0, k, Ordering::SeqCst, Ordering::SeqCst);
        }
        sign * f.value(x.as_slice())
    };
    let mut opt = o.build(&obj).unwrap();
    let t = if c.parallel { opt.run_parallel() } else { opt.run() };
    let best = t.overall_best.clone();
    drop(opt);
    let left = best.as_ref().map_or(f64::INFINITY, |b| {
        if (sign * b.value - f.value(b.point.as_slice())).abs() > 0.0 {
            return f64::NAN;
        }
        f.excess(b.point.as_slice())
    });
    let h = hit.load(Ordering::SeqCst);
    Run {
        evals: count.load(Ordering::SeqCst),
        hit: if h > 0 { Some(h) } else { None },
        left,
        what: format!("{:?}", t.reasons),
    }
}

fn check(c: &Case) -> CheckResult {
    let f = c.quad.fun();
    let tol = c.quad.tol();
    let refs = match worst_reference(&f, &f.mean, f.s, c.w, tol, c.seed) {
        Some(r) => r,
        None => return Ok(Outcome::trivial().class("reference failed")),
    };
    let n = c.quad.n;
    let lambda = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    // the reference stops when it is precise; a run also has to notice it
    let limit = 3 * refs + 60 * n + 40 * lambda;
    let mut fails = vec![];
    for k in 0..4 {
        let seed = if k == 0 { c.seed } else { mix(c.seed ^ k) };
        let r = run(c, &f, seed, tol, limit);
        ensure!(!r.left.is_nan(), "the reported value is not the value of the reported point");
        if r.left <= tol && r.evals < limit {
            if k > 0 {
                return Ok(Outcome::new(true).class("unlucky seed").count("unlucky seeds", k as u64));
            }
            let e = (r.hit.unwrap_or(r.evals) as f64 / refs as f64 * 4.0).round() / 4.0;
            return Ok(Outcome::new(c.quad.e > 0.5 || c.quad.rotation.is_some())
                .class(c.quad.class())
                .class(format!("{:?}", c.w))
                .class(if c.max { "maximise" } else { "minimise" })
                .class(format!("{:.2} of the worst reference run", e)));
        }
        fails.push(format!("seed {}: {:e} left after {} evaluations ({})", seed, r.left, r.evals, r.what));
    }
    fail!(
        "not solved to {:e} within {} evaluations (three reference runs needed at most {}) with any of four seeds: {}",
        tol, limit, refs, fails.join("; ")
    )
}

// ---- cost compared with the reference ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    case: Case,
    runs: usize,
}

fn batch(t: Tier) -> BoxedStrategy<Batch> {
    let runs = if t == Tier::Quick { 100 } else { 300 };
    strategy(Tier::Quick)
        .prop_map(move |mut case| {
            case.quad.offset = 0.0;
            case.parallel = false;
            Batch { case, runs }
        })
        .boxed()
}

fn mean_var(v: &[f64]) -> (f64, f64) {
    let m = v.iter().sum::<f64>() / v.len() as f64;
    (m, v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() as f64 - 1.0))
}

fn check_batch(b: &Batch) -> CheckResult {
    let c = &b.case;
    let tol = c.quad.tol();
    let (mut real, mut refs, mut failed) = (vec![], vec![], 0usize);
    for k in 0..b.runs as u64 {
        // other rotations, optima and starting points for every run
        let mut q = c.quad.clone();
        q.place = mix(q.place ^ k);
        q.rotation = q.rotation.map(|r| mix(r ^ k));
        let f = q.fun();
        let cap = 60_000;
        match reference(&f, &f.mean, f.s, c.w, tol, mix(c.seed ^ k), cap) {
            Some(e) => refs.push(e as f64),
            None => return Ok(Outcome::trivial().class("reference failed")),
        }
        let r = run(c, &f, mix(c.seed.wrapping_add(k)), tol, cap);
        match r.hit {
            Some(h) => real.push(h as f64),
            None => failed += 1,
        }
    }
    ensure!(failed * 25 <= b.runs, "{} of {} runs did not reach {:e}", failed, b.runs, tol);
    let (m, v) = mean_var(&real);
    let (rm, rv) = mean_var(&refs);
    let se = (v / real.len() as f64 + rv / refs.len() as f64).sqrt();
    ensure!(
        m <= 1.05 * rm + 6.0 * se,
        "{} runs need {:.1} evaluations on average to reach {:e}, a reference CMA-ES needs {:.1} (standard error {:.1})",
        real.len(), m, tol, rm, se
    );
    Ok(Outcome::new(true)
        .class(c.quad.class())
        .class(format!("{:?}", c.w))
        .class(format!("{:.2} of the reference", (m / rm * 20.0).round() / 20.0))
        .count("runs", b.runs as u64)
        .count("failed runs", failed as u64))
}

// ---- restarts and convenience functions ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct How {
    case: Case,
    /// 0: fmin/fmax, 1: Local, 2: IPOP, 3: BIPOP
    how: u8,
    local_runs: usize,
    target: bool,
}

fn how(t: Tier) -> BoxedStrategy<How> {
    (strategy(t), 0..4u8, 1..4usize, any::<bool>())
        .prop_map(|(mut case, how, local_runs, target)| {
            case.quad.offset = 0.0;
            if how == 0 {
                case.w = W::Pos;
                case.par_update = false;
            }
            How { case, how, local_runs, target }
        })
        .boxed()
}

fn check_how(h: &How) -> CheckResult {
    let c = &h.case;
    let sign = if c.max { -1.0 } else { 1.0 };
    let mut f = c.quad.fun();
    let tol = c.quad.tol();
    let n = c.quad.n;
    // restarts: search range around the starting point which holds the optimum
    let reach = f.mean.iter().chain(&f.xo).fold(0.0f64, |a, b| a.max(b.abs())) * 1.1 + f.s;
    let (lo, hi) = (-reach, reach);
    if h.how > 0 {
        f.s = hi - lo;
    }
    let (mean, sigma, w) = match h.how {
        0 => (f.mean.clone(), f.s, W::Pos),
        1 => (f.xo.iter().map(|x| if *x > 0.0 { lo } else { hi }).collect(), (hi - lo) * 0.05, c.w),
        _ => (f.xo.iter().map(|x| if *x > 0.0 { lo } else { hi }).collect(), (hi - lo) * 0.2, c.w),
    };
    let refs = match worst_reference(&f, &mean, sigma, w, tol, c.seed) {
        Some(r) => r,
        None => return Ok(Outcome::trivial().class("reference failed")),
    };
    let lambda = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    let one = 3 * refs + 60 * n + 40 * lambda;
    let mut fails = vec![];
    for k in 0..4 {
        let seed = if k == 0 { c.seed } else { mix(c.seed ^ k) };
        let count = AtomicUsize::new(0);
        let obj = |x: &DVector<f64>| {
            count.fetch_add(1, Ordering::SeqCst);
            sign * f.value(x.as_slice())
        };
        let mut limit = one;
        let (best, reason) = if h.how == 0 {
            let (m, s) = (f.mean.clone(), f.s);
            let b = match (c.max, c.parallel) {
                (false, false) => cmaes::fmin(&obj, m, s),
                (false, true) => cmaes::fmin_parallel(&obj, m, s),
                (true, false) => cmaes::fmax(&obj, m, s),
                (true, true) => cmaes::fmax_parallel(&obj, m, s),
            };
            (Some(b), None)
        } else {
            let strat = match h.how {
                1 => RestartStrategy::Local(Local::new(h.local_runs, None).unwrap()),
                2 => RestartStrategy::IPOP(IPOP::default()),
                _ => RestartStrategy::BIPOP(BIPOP::default()),
            };
            let mut o = RestartOptions::new(n, lo..=hi, strat)
                .mode(if c.max { Mode::Maximize } else { Mode::Minimize })
                .parallel_update(c.par_update)
                .default_options(CMAESOptions::new(vec![0.0; n], 1.0).weights(c.w.to()))
                .seed(seed);
            if h.how == 1 {
                limit = one * h.local_runs;
            }
            if h.target {
                o = o.fun_target(sign * tol);
                o = o.max_function_evals(limit * 4);
                limit = one;
            } else {
                o = o.max_function_evals(one);
                if h.how > 1 {
                    limit = one * 4;
                }
            }
            let r = o.max_function_evals_per_run(one * 4).build().unwrap();
            let res = if c.parallel { r.run_parallel(|| &obj) } else { r.run(|| &obj) };
            (res.best, Some(res.reason))
        };
        let evals = count.load(Ordering::SeqCst);
        let left = best.as_ref().map_or(f64::INFINITY, |b| f.excess(b.point.as_slice()));
        let ok = match (h.how, h.target, &reason) {
            (0, ..) => true,
            (_, true, Some(r)) => *r == RestartTerminationReason::FunTarget,
            (1, false, Some(r)) => matches!(r, RestartTerminationReason::MaxRuns | RestartTerminationReason::MaxFunctionEvals),
            (_, false, Some(r)) => *r == RestartTerminationReason::MaxFunctionEvals,
            _ => false,
        };
        if left <= tol && ok && evals <= limit {
            let o = Outcome::new(true)
                .class(c.quad.class())
                .class(["fmin/fmax", "Local", "IPOP", "BIPOP"][h.how as usize])
                .class(if h.target { "with a target" } else { "without a target" });
            return Ok(if k > 0 { o.class("unlucky seed").count("unlucky seeds", k) } else { o });
        }
        fails.push(format!("seed {}: {:e} left after {} evaluations, reason {:?}", seed, left, evals, reason));
    }
    fail!(
        "not solved to {:e} within {} evaluations (three reference runs needed at most {}) with any of four seeds: {}",
        tol, one, refs, fails.join("; ")
    )
}

pub fn property() -> Property {
    Property {
        id: "C26",
        rule: "functions that are rotated or have a condition number above 3, solved by the run; batches of at least 100 runs against as many runs of a reference CMA-ES; restarts and convenience calls",
        assumptions: vec![
            "the seed may be unlucky: a case fails only if four different seeds fail, a batch only if more than 4 % of its runs fail or their mean cost is more than 5 % plus six standard errors above the reference".into(),
            "convex quadratics of dimension up to 10 (14 thorough), condition number up to 1e4, step size of the order of the distance to the optimum".into(),
        ],
        sections: vec![
            Box::new(Section { name: "solve", quick: 4000, thorough: 200_000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "cost", quick: 120, thorough: 4_000, strategy: batch, check: check_batch, fixed: no_fixed }),
            Box::new(Section { name: "restarts", quick: 2000, thorough: 100_000, strategy: how, check: check_how, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
