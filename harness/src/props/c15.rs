//! C15: FunTarget, TolFun, TolFunRel, TolFunHist and TolStagnation against a model of the documented
//! criteria, fed with the recorded objective values.
use crate::cfg::{core_cfg, nans, Cfg};
use crate::obj::{any_obj, hash01, new_log, take, Call, Obj};
use crate::runner::{CheckResult, Outcome, Property, Section, Tier};
use crate::util::{fser, mix};
use cmaes::{DVector, TerminationReason as R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// How the i-th call (of generation i / lambda) at x is valued
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Obj(Obj),
    /// one of the listed values
    Pool(#[serde(with = "fser::vec")] Vec<f64>, u64),
    /// goes down until the given generation, then up; with noise
    Valley { turn: usize, down: f64, up: f64, noise: f64, h: u64 },
    /// amplitude * rate^generation * noise
    Converge { amp: f64, rate: f64, h: u64 },
    /// sin(2 pi g / period) plus a noisy plateau of radius 1: a run that never settles
    Wave { period: f64, h: u64 },
    /// the best value only gets worse, the median better (or the other way round)
    Cross { flip: bool, h: u64 },
    /// constant by blocks of generations
    Steps { len: usize, h: u64 },
}

fn u01(h: u64, i: u64) -> f64 {
    (mix(h ^ mix(i)) >> 11) as f64 / (1u64 << 53) as f64
}

impl Val {
    pub fn eval(&self, x: &[f64], i: usize, lam: usize) -> f64 {
        let g = i / lam;
        match self {
            Val::Obj(o) => o.eval(x),
            Val::Pool(p, h) => p[(mix(h ^ i as u64) % p.len() as u64) as usize],
            Val::Valley { turn, down, up, noise, h } => {
                let t = if g < *turn { -down * g as f64 } else { -down * *turn as f64 + up * (g - turn) as f64 };
                t + noise * u01(*h, i as u64)
            }
            Val::Converge { amp, rate, h } => 1.0 + amp * rate.powi(g as i32) * u01(*h, i as u64),
            Val::Wave { period, h } => {
                let r = x.iter().map(|v| v * v).sum::<f64>();
                let r = if r > 1.0 { r } else { hash01(x, *h) };
                10.0 * (2.0 * std::f64::consts::PI * g as f64 / period).sin() + 0.01 * r
            }
            Val::Cross { flip, h } => {
                // lowest value of the generation moves one way, all others the other way
                let t = if *flip { -(g as f64) } else { g as f64 } * 0.01;
                if i % lam == g % lam {
                    -100.0 + t
                } else {
                    100.0 - t + u01(*h, i as u64) * 0.1
                }
            }
            Val::Steps { len, h } => (mix(h ^ (g / len) as u64) % 4) as f64,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    val: Val,
    gens: usize,
    /// which tolerances are placed on a quantity observed in the run: (criterion, generation, ulps)
    place: Vec<(u8, u16, i8)>,
    /// calls that return NaN (by index): generations aborted by them leave no trace
    #[serde(default)]
    nan: Vec<usize>,
}

pub fn vals(_: Tier) -> BoxedStrategy<Val> {
    prop_oneof![
        3 => any_obj().prop_map(Val::Obj),
        2 => (prop::collection::vec(prop_oneof![5 => -3.0..3.0f64, 2 => Just(0.0), 1 => Just(f64::INFINITY), 1 => Just(f64::NEG_INFINITY), 1 => Just(1e300), 1 => Just(-1e300), 1 => Just(f64::MAX), 1 => Just(f64::MIN), 1 => Just(5e-324)], 1..5), any::<u64>()).prop_map(|(p, h)| Val::Pool(p, h)),
        4 => (0..80usize, prop_oneof![Just(0.0), 0.0..2.0f64], prop_oneof![Just(0.0), 0.0..1.0f64], prop_oneof![Just(0.0), 0.0..2.0f64], any::<u64>())
            .prop_map(|(turn, down, up, noise, h)| Val::Valley { turn, down, up, noise, h }),
        2 => (1e-6..10.0f64, 0.3..1.0f64, any::<u64>()).prop_map(|(amp, rate, h)| Val::Converge { amp, rate, h }),
        1 => (5.0..100.0f64, any::<u64>()).prop_map(|(period, h)| Val::Wave { period, h }),
        1 => (any::<bool>(), any::<u64>()).prop_map(|(flip, h)| Val::Cross { flip, h }),
        1 => (1..30usize, any::<u64>()).prop_map(|(len, h)| Val::Steps { len, h }),
    ]
    .boxed()
}

pub fn tol() -> BoxedStrategy<Option<f64>> {
    prop_oneof![2 => Just(None), 1 => Just(Some(0.0)), 3 => (-14..2i32).prop_map(|e| Some(10f64.powi(e))), 1 => (0.0..3.0f64).prop_map(Some), 1 => Just(Some(f64::INFINITY)), 1 => Just(Some(-1.0))].boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let long = if t == Tier::Quick { 400usize } else { 1500 };
    (
        core_cfg(6, 16),
        vals(t),
        prop_oneof![2 => 1..60usize, 2 => 60..250usize, 1 => 250..long],
        (tol(), tol(), tol()),
        prop_oneof![2 => Just(None), 5 => (0..30usize).prop_map(Some), 1 => (30..80usize).prop_map(Some)],
        prop::option::of(-5.0..5.0f64),
        prop::collection::vec((0..4u8, any::<u16>(), -1..=1i8), 0..3),
        nans(),
    )
        .prop_map(|(mut cfg, val, gens, (a, b, c), st, target, place, nan)| {
            cfg.tol_fun = a;
            cfg.tol_fun_rel = b;
            cfg.tol_fun_hist = c;
            cfg.tol_stagnation = st;
            cfg.fun_target = target;
            Case { cfg, val, gens, place, nan }
        })
        .boxed()
}

/// A median with a flag telling that it involves no rounding
#[derive(Clone, Copy, Debug)]
struct Med {
    v: f64,
    exact: bool,
}

fn better(max: bool, a: f64, b: f64) -> bool {
    if max {
        a > b
    } else {
        a < b
    }
}

fn gen_median(sorted: &[f64]) -> Med {
    let n = sorted.len();
    if n % 2 == 1 {
        return Med { v: sorted[n / 2], exact: true };
    }
    let (a, b) = (sorted[n / 2 - 1], sorted[n / 2]);
    let mut v = (a + b) / 2.0;
    if v.is_infinite() && a.is_finite() && b.is_finite() {
        v = a / 2.0 + b / 2.0;
    }
    if v.is_nan() {
        // infinities of opposite signs: the worse one (sorted from best to worst)
        Med { v: b, exact: true }
    } else {
        Med { v, exact: a == b }
    }
}

fn median_of(v: &[Med]) -> Med {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.v.partial_cmp(&b.v).unwrap());
    let n = s.len();
    if n == 0 {
        return Med { v: f64::NAN, exact: true };
    }
    if n % 2 == 1 {
        return s[n / 2];
    }
    let (a, b) = (s[n / 2 - 1], s[n / 2]);
    Med { v: (a.v + b.v) / 2.0, exact: a.exact && b.exact && a.v == b.v }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Yes,
    No,
    Either,
}
impl Want {
    fn of(b: bool) -> Want {
        if b {
            Want::Yes
        } else {
            Want::No
        }
    }
    fn and(self, o: Want) -> Want {
        match (self, o) {
            (Want::No, _) | (_, Want::No) => Want::No,
            (Want::Yes, Want::Yes) => Want::Yes,
            _ => Want::Either,
        }
    }
}

struct Model {
    max: bool,
    lam: usize,
    dim: usize,
    best: VecDeque<Med>,
    med: VecDeque<Med>,
    first: Option<Med>,
    best_med: Option<Med>,
    gen: usize,
}

/// Ranges observed in one generation
#[derive(Clone, Copy, Debug, Default)]
struct Seen {
    hist: Option<f64>,
    cur: f64,
    rel: Option<f64>,
    best: f64,
}

fn range(v: impl Iterator<Item = f64>) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for x in v {
        lo = lo.min(x);
        hi = hi.max(x);
    }
    hi - lo
}

impl Model {
    fn new(c: &Cfg) -> Self {
        Model {
            max: c.max,
            lam: c.lam(),
            dim: c.dim(),
            best: VecDeque::new(),
            med: VecDeque::new(),
            first: None,
            best_med: None,
            gen: 0,
        }
    }
    fn window(&self) -> usize {
        10 + (30 * self.dim + self.lam - 1) / self.lam
    }
    fn push(&mut self, vals: &[f64]) -> Seen {
        let mut s = vals.to_vec();
        s.sort_by(|a, b| if self.max { b.partial_cmp(a).unwrap() } else { a.partial_cmp(b).unwrap() });
        self.gen += 1;
        self.best.push_front(Med { v: s[0], exact: true });
        let m = gen_median(&s);
        self.med.push_front(m);
        self.best.truncate(20_000);
        self.med.truncate(20_000);
        self.first = self.first.or(Some(m));
        if self.best_med.map_or(true, |b| better(self.max, m.v, b.v)) {
            self.best_med = Some(m);
        }
        let hist = if self.best.len() >= self.window() {
            Some(range(self.best.iter().take(self.window()).map(|m| m.v)))
        } else {
            None
        };
        Seen {
            hist,
            cur: range(s.iter().cloned()),
            rel: hist.map(|_| (self.first.unwrap().v - self.best_med.unwrap().v).abs()),
            best: s[0],
        }
    }
    fn stagnation(&self, option: usize) -> Want {
        let w = (self.gen / 5).min(20_000);
        if w < option {
            return Want::No;
        }
        let sub = w * 3 / 10;
        if sub == 0 {
            return Want::No;
        }
        let worse = |h: &VecDeque<Med>| {
            let new: Vec<Med> = h.iter().take(sub).cloned().collect();
            let old: Vec<Med> = h.iter().skip(w - sub).take(sub).cloned().collect();
            let (a, b) = (median_of(&old), median_of(&new));
            if a.v.is_nan() || b.v.is_nan() {
                return Want::No;
            }
            if !(a.exact && b.exact) && (a.v - b.v).abs() <= 1e-14 * a.v.abs().max(b.v.abs()) {
                return Want::Either;
            }
            Want::of(better(self.max, a.v, b.v))
        };
        worse(&self.best).and(worse(&self.med))
    }
}

fn run(c: &Case, cfg: &Cfg, mut each: impl FnMut(usize, &[Call], &[R]) -> Result<bool, String>) -> Result<usize, String> {
    let lam = cfg.lam();
    let log = new_log();
    let l2 = log.clone();
    let mut i = 0;
    let val = c.val.clone();
    let nan = c.nan.clone();
    let f = move |x: &DVector<f64>| {
        let v = if nan.contains(&i) { f64::NAN } else { val.eval(x.as_slice(), i, lam) };
        i += 1;
        l2.lock().unwrap().push(Call { x: x.as_slice().to_vec(), v });
        v
    };
    let mut o = cfg.options().build(f).unwrap();
    for g in 0..c.gens {
        let t = o.next();
        let calls = take(&log);
        let r = t.map(|t| t.reasons).unwrap_or_default();
        if r.contains(&R::PosDefCov) {
            return Ok(g);
        }
        if calls.iter().any(|c| c.v.is_nan()) {
            if c.nan.is_empty() {
                return Ok(g);
            }
            continue;
        }
        if !each(g, &calls, &r)? {
            return Ok(g + 1);
        }
    }
    Ok(c.gens)
}

fn place(base: f64, ulps: i8) -> f64 {
    if !(base > 0.0) || !base.is_finite() {
        return base;
    }
    f64::from_bits((base.to_bits() as i64 + ulps as i64) as u64)
}

fn check(c: &Case) -> CheckResult {
    let mut cfg = c.cfg.clone();
    let mut placed = 0;
    if !c.place.is_empty() {
        // first pass: collect what the criteria look at
        let mut m = Model::new(&cfg);
        let mut seen: Vec<Seen> = vec![];
        run(c, &cfg, |_, calls, _| {
            let v: Vec<f64> = calls.iter().map(|c| c.v).collect();
            if v.iter().any(|v| v.is_nan()) {
                return Ok(false);
            }
            seen.push(m.push(&v));
            Ok(true)
        })?;
        for (what, g, ulps) in &c.place {
            if seen.is_empty() {
                break;
            }
            let k = *g as usize * seen.len() / 65536;
            let s = seen[k];
            match (what, s.hist) {
                (0, Some(h)) => cfg.tol_fun_hist = Some(place(h, *ulps)),
                (1, Some(h)) => cfg.tol_fun = Some(place(h.max(s.cur), *ulps)),
                (2, Some(h)) => {
                    let r = s.rel.unwrap();
                    if r > 0.0 && r.is_finite() {
                        cfg.tol_fun_rel = Some(h.max(s.cur) / r * (1.0 + 1e-9 * *ulps as f64));
                    }
                }
                _ => cfg.fun_target = Some(if *ulps == 0 || s.best == 0.0 || !s.best.is_finite() { s.best } else { s.best + s.best.abs() * 1e-12 * *ulps as f64 }),
            }
            placed += 1;
        }
    }
    let mut m = Model::new(&cfg);
    let mut hits = [0u64; 5];
    let mut either = 0;
    let tf = cfg.tol_fun.unwrap_or(1e-12);
    let tr = cfg.tol_fun_rel.unwrap_or(0.0);
    let th = cfg.tol_fun_hist.unwrap_or(1e-12);
    let st = cfg.tol_stagnation.unwrap_or_else(|| {
        100 + (100.0 * (cfg.dim() as f64).powf(1.5) / cfg.lam() as f64).ceil() as usize
    });
    let mut window = 0;
    let done = run(c, &cfg, |g, calls, reasons| {
        let v: Vec<f64> = calls.iter().map(|c| c.v).collect();
        if v.iter().any(|v| v.is_nan()) {
            return Ok(false);
        }
        let s = m.push(&v);
        let lt = |a: f64, b: f64| Want::of(a < b);
        let near = |a: f64, b: f64| {
            if (a - b).abs() <= 1e-13 * a.abs().max(b.abs()) && !(a == b && a.is_infinite()) && !(a == 0.0 && b == 0.0) {
                Want::Either
            } else {
                Want::of(a < b)
            }
        };
        let want = [
            (R::FunTarget, Want::of(cfg.fun_target.map_or(false, |t| v.iter().any(|v| better(cfg.max, *v, t))))),
            (R::TolFunHist, s.hist.map_or(Want::No, |h| lt(h, th))),
            (R::TolFun, s.hist.map_or(Want::No, |h| lt(h, tf).and(lt(s.cur, tf)))),
            (
                R::TolFunRel,
                match (s.hist, s.rel) {
                    (Some(h), Some(r)) => {
                        let exact = tr == 0.0 || r == 0.0 || r.is_infinite();
                        // a difference of nearly equal medians is itself rounded
                        let b = [m.first.unwrap().v.abs(), m.best_med.unwrap().v.abs()].iter().fold(0.0f64, |a, b| a.max(*b));
                        if !exact && r < 1e-13 * b {
                            Want::Either
                        } else if exact {
                            lt(h, tr * r).and(lt(s.cur, tr * r))
                        } else if r > 1e-3 * b {
                            near(h, tr * r).and(near(s.cur, tr * r))
                        } else {
                            let slack = 4e-16 * b / r;
                            let f = |a: f64| {
                                if (a - tr * r).abs() <= (1e-13 + slack) * (tr * r) {
                                    Want::Either
                                } else {
                                    Want::of(a < tr * r)
                                }
                            };
                            f(h).and(f(s.cur))
                        }
                    }
                    _ => Want::No,
                },
            ),
            (R::TolStagnation, m.stagnation(st)),
        ];
        window = m.gen / 5;
        for (k, (r, w)) in want.iter().enumerate() {
            let got = reasons.contains(r);
            match w {
                Want::Either => either += 1,
                w => {
                    if got != (*w == Want::Yes) {
                        return Err(format!(
                            "generation {}: {:?} {} (reasons {:?}); range of the best values of the last {} generations {:?}, of this generation {:e}, first to best median {:?}; target {:?}, tol_fun {:e}, tol_fun_rel {:e}, tol_fun_hist {:e}, tol_stagnation {} (window {})",
                            g + 1,
                            r,
                            if got { "reported although its condition does not hold" } else { "not reported although its condition holds" },
                            reasons,
                            m.window(),
                            s.hist,
                            s.cur,
                            s.rel,
                            cfg.fun_target,
                            tf,
                            tr,
                            th,
                            st,
                            m.gen / 5
                        ));
                    }
                }
            }
            hits[k] += (*w == Want::Yes) as u64;
        }
        Ok(true)
    })?;
    Ok(Outcome::new(hits.iter().sum::<u64>() > 0)
        .class(match c.val {
            Val::Obj(_) => "objective",
            Val::Pool(..) => "pool",
            Val::Valley { .. } => "valley",
            Val::Converge { .. } => "converging",
            Val::Wave { .. } => "wave",
            Val::Cross { .. } => "cross",
            Val::Steps { .. } => "steps",
        })
        .count("generations", done as u64)
        .count("fun_target", hits[0])
        .count("tol_fun_hist", hits[1])
        .count("tol_fun", hits[2])
        .count("tol_fun_rel", hits[3])
        .count("tol_stagnation", hits[4])
        .count("tolerances_placed_on_observed_values", placed)
        .count("undecided", either)
        .note(format!("target {}, hist {}, fun {}, rel {}, stagnation {} times in {} generations", hits[0], hits[1], hits[2], hits[3], hits[4], done)))
}

/// Runs beyond 100000 generations: the window is clamped at 20000
fn long_cases() -> Vec<Case> {
    let mk = |period: f64, st: usize, max: bool, seed: u64| {
        let mut cfg = Cfg::basic(vec![0.3], 0.5, seed);
        cfg.lambda = Some(5);
        cfg.max = max;
        cfg.tol_stagnation = Some(st);
        Case { cfg, val: Val::Wave { period, h: seed }, gens: 104_000, place: vec![], nan: vec![] }
    };
    vec![mk(1700.0, 19_990, false, 3), mk(2900.0, 20_000, true, 4), mk(1700.0, 20_001, false, 5)]
}

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "a generated run with scripted or ordinary objective values is continued through every termination; in each generation the reported reasons are compared with a model of the five value-based criteria computed from the recorded values; tolerances are also placed exactly on (and one ulp beside) quantities observed in the same run; three fixed runs of 104000 generations reach the clamp of the stagnation window; non-trivial when some criterion held.",
        assumptions: vec![
            "comparisons of rounded medians within 1e-14 (1e-13 for the relative tolerance) are undecided",
            "the median of a generation with infinities of both signs in the middle is the worse one",
        ],
        sections: vec![Box::new(Section { name: "criteria", quick: 12000, thorough: 250000, strategy, check, fixed: long_cases })],
        shards: 8,
    }
}
