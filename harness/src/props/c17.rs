//! C17: TolX, TolXUp, TolConditionCov, NoEffectAxis, NoEffectCoord.
use crate::cfg::{nans, core_cfg, Cfg};
use crate::model::{check_generation, lib_eig_error, Eig, Model, Step};
use crate::obj::{any_obj, new_log, Kind, Obj, Rec};
use crate::rec::{snap, step, Snap};
use crate::runner::{is_known, no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::vec_bits_eq;
use cmaes::TerminationReason as R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    /// tolerances placed next to an observed quantity: (criterion, generation, side)
    place: Vec<(u8, u16, i8)>,
    #[serde(default)]
    nan: Vec<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let long = if t == Tier::Quick { 700usize } else { 3000 };
    let plain = (core_cfg(8, 20), any_obj(), 1..80usize).boxed();
    // converges next to a shifted optimum, where precision runs out
    let converge = (
        core_cfg(6, 16),
        prop_oneof![2 => Just(Kind::Sphere), 2 => (1..10i32).prop_map(Kind::Ellipsoid), 1 => Just(Kind::Abs), 1 => Just(Kind::Rosenbrock)],
        prop_oneof![1 => Just(0.0), 1 => Just(1.0), 2 => -3.0..3.0f64, 1 => -1e4..1e4f64],
        prop_oneof![1 => 60..200usize, 2 => 200..long],
    )
        .prop_map(|(mut cfg, kind, shift, gens)| {
            cfg.max = false;
            cfg.sigma = cfg.sigma.clamp(1e-3, 10.0);
            cfg.mean.iter_mut().for_each(|m| *m = shift + *m * 0.1);
            (cfg, Obj { kind, shift, scale: 1.0, offset: 0.0 }, gens)
        })
        .boxed();
    // means so large that steps vanish
    let big = (core_cfg(8, 16), any_obj(), prop::collection::vec((13.0..17.5f64, 0..4u8, any::<bool>()), 8), 1..60usize)
        .prop_map(|(mut cfg, obj, mags, gens)| {
            cfg.sigma = cfg.sigma.clamp(0.1, 10.0);
            for (m, (e, pick, neg)) in cfg.mean.iter_mut().zip(mags) {
                if pick > 0 {
                    *m = 10f64.powf(e) * if neg { -1.0 } else { 1.0 };
                }
            }
            (cfg, obj, gens)
        })
        .boxed();
    let diverge = (core_cfg(8, 16), prop_oneof![Just(Kind::Linear), (2..12i32).prop_map(Kind::Ellipsoid)], any::<bool>(), 1..150usize)
        .prop_map(|(mut cfg, kind, neg, gens)| {
            cfg.sigma = cfg.sigma.clamp(0.01, 10.0);
            (cfg, Obj { kind, shift: 0.0, scale: if neg { -1.0 } else { 1.0 }, offset: 0.0 }, gens)
        })
        .boxed();
    (
        prop_oneof![2 => plain, 3 => converge, 3 => big, 2 => diverge],
        prop_oneof![2 => Just(None), 2 => (-14..1i32).prop_map(|e| Some(10f64.powi(e))), 1 => Just(Some(0.0)), 1 => Just(Some(1e3))],
        prop_oneof![2 => Just(None), 2 => (0..40i32).prop_map(|e| Some(1.3f64.powi(e))), 1 => Just(Some(0.0))],
        prop_oneof![2 => Just(None), 2 => (0..40i32).prop_map(|e| Some(1.7f64.powi(e))), 1 => Just(Some(0.5))],
        prop::collection::vec((0..3u8, any::<u16>(), prop_oneof![Just(-1i8), Just(1i8)]), 0..3),
        nans(),
    )
        .prop_map(|((mut cfg, obj, gens), tol_x, up, cond, place, nan)| {
            cfg.tol_x = tol_x.map(|t| t * cfg.sigma);
            cfg.tol_x_up = up;
            cfg.tol_condition_cov = cond;
            Case { cfg, obj, gens, place, nan }
        })
        .boxed()
}

pub const SIG: &str = "noeffectcoord-uses-variance";

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Yes,
    No,
    Maybe,
}

/// a < b up to relative rounding
fn less(a: f64, b: f64, rel: f64) -> T {
    if (a - b).abs() <= rel * a.abs().max(b.abs()) && !(a == 0.0 && b == 0.0) {
        T::Maybe
    } else if a < b {
        T::Yes
    } else {
        T::No
    }
}

/// Does adding +-(step within +-rel and +-abs) leave m unchanged?
fn unchanged(m: f64, step: f64, slack: f64) -> T {
    let s = step.abs();
    let (lo, hi) = ((s - slack).max(0.0), s + slack);
    let same = |d: f64| m + d == m;
    if same(hi) && same(-hi) {
        T::Yes
    } else if !same(lo) && !same(-lo) {
        T::No
    } else {
        T::Maybe
    }
}

struct Axes {
    eig: Eig,
    /// reported eigenvalue index -> own eigenvector, if all are well separated
    map: Option<Vec<usize>>,
    vec_err: f64,
}

impl Axes {
    fn identity(n: usize) -> Self {
        Axes { eig: Eig::identity(n), map: Some((0..n).collect()), vec_err: 0.0 }
    }
    fn of(post: &Snap, n: usize) -> Self {
        let eig = Eig::of(&post.cov, n);
        let err = lib_eig_error(&post.cov, &eig);
        let mut map = vec![];
        let mut used = vec![false; n];
        let mut ok = eig.min() > 0.0 && err < 1e-8;
        for v in &post.eig {
            let mut best = 0;
            for k in 0..n {
                if (eig.vals[k] - v).abs() < (eig.vals[best] - v).abs() {
                    best = k;
                }
            }
            if used[best] || (eig.vals[best] - v).abs() > 1e-6 * v.abs() {
                ok = false;
            }
            used[best] = true;
            map.push(best);
        }
        for a in 0..n {
            for b in 0..a {
                if (eig.vals[a] - eig.vals[b]).abs() < 1e-2 * eig.vals[a].abs().max(eig.vals[b].abs()) {
                    ok = false;
                }
            }
        }
        Axes { map: if ok { Some(map) } else { None }, vec_err: 1e-12 + 1e3 * err, eig }
    }
    /// Is the mean unchanged along own axis k?
    fn axis(&self, k: usize, mean: &[f64], sigma: f64) -> T {
        let n = self.eig.n;
        let len = 0.1 * sigma * self.eig.vals[k].sqrt();
        let mut all = T::Yes;
        for j in 0..n {
            let v = self.eig.vecs[k * n + j];
            // error of a component: directions with larger variance are determined to eps only
            let mut slack = len * v.abs() * 1e-6;
            if self.vec_err > 0.0 {
                slack += len * self.vec_err;
            }
            match unchanged(mean[j], len * v, slack) {
                T::No => return T::No,
                T::Maybe => all = T::Maybe,
                T::Yes => {}
            }
        }
        all
    }
}

fn quantities(s: &Snap, c: &Cfg) -> (f64, f64, f64) {
    let n = c.dim();
    let sd = (0..n).map(|i| s.sigma * s.cov[i * n + i].sqrt()).fold(0.0f64, f64::max);
    let up = s.sigma * s.eig.iter().cloned().fold(f64::NEG_INFINITY, f64::max).sqrt() / c.sigma;
    (sd, up, s.ratio * s.ratio)
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    let mut cfg = c.cfg.clone();
    if !c.place.is_empty() {
        let log = new_log();
        let mut o = cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
        let mut q = vec![];
        for _ in 0..c.gens {
            let r = step(&mut o, &log);
            if r.td.map_or(false, |t| t.reasons == [R::PosDefCov]) {
                break;
            }
            q.push(quantities(&r.after, &cfg));
        }
        for (what, g, side) in &c.place {
            if q.is_empty() {
                break;
            }
            let (sd, up, cond) = q[*g as usize * q.len() / 65536];
            let f = 1.0 + 1e-3 * *side as f64;
            match what {
                0 if sd.is_normal() => cfg.tol_x = Some(sd * f),
                1 if up.is_normal() => cfg.tol_x_up = Some(up * f),
                2 if cond.is_normal() => cfg.tol_condition_cov = Some(cond * f),
                _ => {}
            }
        }
    }
    let tol_x = cfg.tol_x.unwrap_or(1e-12 * cfg.sigma);
    let tol_up = cfg.tol_x_up.unwrap_or(1e8);
    let tol_cond = cfg.tol_condition_cov.unwrap_or(1e14);
    let log = new_log();
    let mut o = cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
    let mut m = Model::new(&cfg);
    let mut tracking = true;
    let mut axes = Axes::identity(n);
    let mut prior = snap(&o);
    // order in which the axes are checked: (generation + p) mod n, in either direction
    let mut orders: Vec<(usize, bool)> = (0..n).flat_map(|p| [(p, false), (p, true)]).collect();
    let mut known = vec![];
    let mut hits = [0u64; 5];
    let mut decided = [0u64; 5];
    let mut mixed = 0u64;
    for _ in 0..c.gens {
        let r = step(&mut o, &log);
        let g = r.after.gen;
        let reasons = r.td.as_ref().map(|t| t.reasons.clone()).unwrap_or_default();
        let a = &r.after;
        if reasons == [R::InvalidFunctionValue] && !c.nan.is_empty() {
            continue;
        }
        if reasons == [R::PosDefCov] || reasons.contains(&R::InvalidFunctionValue) {
            break;
        }
        let finite = a.cov.iter().chain(&a.mean).chain(&a.eig).all(|x| x.is_finite()) && a.sigma.is_finite();
        if !finite {
            break;
        }
        if tracking {
            tracking = matches!(check_generation(&mut m, &prior, &r.calls, a, 1e-7), Ok(Step::Ok { .. }) | Ok(Step::Tied));
        }
        if !vec_bits_eq(&a.eig, &prior.eig) {
            axes = Axes::of(a, n);
        }
        let got = |x: R| reasons.contains(&x);
        let mut judge = |k: usize, x: R, want: T, what: String| -> Result<(), String> {
            if want == T::Maybe {
                return Ok(());
            }
            decided[k] += 1;
            hits[k] += (want == T::Yes) as u64;
            if got(x) != (want == T::Yes) {
                return Err(format!(
                    "generation {}: {:?} {} (reasons {:?}): {}",
                    g,
                    x,
                    if got(x) { "reported although its condition does not hold" } else { "not reported although its condition holds" },
                    reasons,
                    what
                ));
            }
            Ok(())
        };
        // TolX
        let (sd, up, cond) = quantities(a, &cfg);
        let mut want = less(sd, tol_x, 1e-9);
        if want != T::No {
            if tracking {
                let pc = m.pc.iter().fold(0.0f64, |x, y| x.max((a.sigma * y).abs()));
                match less(pc, tol_x, 1e-5) {
                    T::No => want = T::No,
                    T::Maybe => want = T::Maybe,
                    T::Yes => {}
                }
            } else {
                want = T::Maybe;
            }
        }
        judge(0, R::TolX, want, format!("largest standard deviation {:e}, tol_x {:e}, path {:?}", sd, tol_x, if tracking { Some(&m.pc) } else { None }))?;
        // TolXUp
        judge(1, R::TolXUp, less(tol_up, up, 1e-9), format!("step size grew by {:e}, tol_x_up {:e}", up, tol_up))?;
        // TolConditionCov
        let want = if !cond.is_normal() { T::Yes } else { less(tol_cond, cond, 1e-9) };
        judge(2, R::TolConditionCov, want, format!("condition number {:e}, tolerance {:e}", cond, tol_cond))?;
        // NoEffectCoord
        let by = |f: &dyn Fn(f64) -> f64| -> T {
            let mut any = T::No;
            for i in 0..n {
                let s = 0.2 * a.sigma * f(a.cov[i * n + i]);
                match unchanged(a.mean[i], s, s * 1e-9) {
                    T::Yes => return T::Yes,
                    T::Maybe => any = T::Maybe,
                    T::No => {}
                }
            }
            any
        };
        let std = by(&|v| v.sqrt());
        let var = by(&|v| v);
        let is = if got(R::NoEffectCoord) { T::Yes } else { T::No };
        if std != T::Maybe && std != is && (var == is || var == T::Maybe) && is_known("C17", SIG) {
            known.push((SIG.to_string(), format!("generation {}: reported: {}", g, is == T::Yes)));
        } else {
            judge(
                3,
                R::NoEffectCoord,
                std,
                format!(
                    "mean {:?}, standard deviations {:?} (with the variance in their place the criterion would be {:?})",
                    a.mean,
                    (0..n).map(|i| a.sigma * a.cov[i * n + i].sqrt()).collect::<Vec<_>>(),
                    var
                ),
            )?;
        }
        // NoEffectAxis
        if axes.eig.min() > 0.0 {
            let st: Vec<T> = (0..n).map(|k| axes.axis(k, &a.mean, a.sigma)).collect();
            let spread = (0..n).all(|k| {
                // every direction of the distribution well above rounding
                0.1 * a.sigma * axes.eig.min().sqrt() > 1e-14 * a.mean[k].abs() * (n as f64).sqrt()
            });
            let tiny = (0..n).all(|k| 0.1 * a.sigma * axes.eig.max().sqrt() < 2e-17 * a.mean[k].abs());
            if spread {
                judge(4, R::NoEffectAxis, T::No, format!("mean {:?}, sigma {:e}, eigenvalues {:?}", a.mean, a.sigma, a.eig))?;
            } else if tiny {
                judge(4, R::NoEffectAxis, T::Yes, format!("mean {:?}, sigma {:e}, eigenvalues {:?}", a.mean, a.sigma, a.eig))?;
            } else if let Some(map) = &axes.map {
                let any = st.iter().any(|t| *t == T::Yes);
                let none = st.iter().any(|t| *t == T::No);
                if any && none {
                    mixed += 1;
                }
                let before = orders.clone();
                orders.retain(|(p, rev)| {
                    let i = if *rev { (p + n * (g / n + 1) - g) % n } else { (g + p) % n };
                    match st[map[i]] {
                        T::Maybe => true,
                        w => (w == T::Yes) == got(R::NoEffectAxis),
                    }
                });
                ensure!(
                    !orders.is_empty(),
                    "generation {}: NoEffectAxis {} but, checking the axes in turn, the mean {} along every axis that could be due: mean {:?}, sigma {:e}, eigenvalues {:?}; axes without effect: {:?}; orders possible before: {:?}",
                    g,
                    if got(R::NoEffectAxis) { "reported" } else { "not reported" },
                    if got(R::NoEffectAxis) { "changes" } else { "does not change" },
                    a.mean,
                    a.sigma,
                    a.eig,
                    map.iter().map(|k| st[*k]).collect::<Vec<_>>(),
                    before
                );
                if st.iter().all(|t| *t != T::Maybe) {
                    decided[4] += 1;
                    hits[4] += got(R::NoEffectAxis) as u64;
                }
            }
        }
        prior = r.after;
    }
    let mut out = Outcome::new(hits.iter().sum::<u64>() > 0)
        .class(c.obj.label())
        .count("tol_x_held", hits[0])
        .count("tol_x_up_held", hits[1])
        .count("tol_condition_cov_held", hits[2])
        .count("no_effect_coord_held", hits[3])
        .count("no_effect_axis_held", hits[4])
        .count("tol_x_decided", decided[0])
        .count("no_effect_coord_decided", decided[3])
        .count("no_effect_axis_decided", decided[4])
        .count("generations_with_some_axes_without_effect", mixed)
        .note(format!("held: TolX {}, TolXUp {}, TolConditionCov {}, NoEffectCoord {}, NoEffectAxis {}", hits[0], hits[1], hits[2], hits[3], hits[4]));
    for (k, name) in ["TolX", "TolXUp", "TolConditionCov", "NoEffectCoord", "NoEffectAxis"].iter().enumerate() {
        if hits[k] > 0 {
            out = out.class(format!("{} held", name));
        }
    }
    known.truncate(1);
    out.known = known;
    Ok(out)
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "generated runs (converging next to a shifted optimum, with huge means, diverging, ordinary) are continued through every termination; in each generation the five criteria are evaluated from the observed mean, step size, covariance and eigenvalues and from the model's evolution path; tolerances are also placed next to observed values; non-trivial when some criterion held.",
        assumptions: vec![
            "quantities within 1e-9 of a tolerance (1e-5 for the evolution path) are undecided; TolX is one-sided once rounding stops the path model",
            "NoEffectAxis with some axes without effect is decided when eigenvalues are separated by 1 percent, for any cyclic order of the axes",
        ],
        sections: vec![Box::new(Section { name: "criteria", quick: 12000, thorough: 200000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
