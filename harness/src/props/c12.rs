//! C12: constraints and resampling.
use super::c11::{normals, Whitener};
use crate::cfg::{core_cfg, wide_cfg, Cfg, Cons, RecCons};
use crate::obj::{any_obj, new_log, Kind, Obj, Rec};
use crate::rec::{drive, drive_built, snap, step, step_par, Stop};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{fser, vec_bits_eq};
use cmaes::{Bounds, Constraints, DVector};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    cons: Cons,
    /// None: option not set (10); Some(None): unlimited
    limit: Option<Option<usize>>,
    obj: Obj,
    gens: usize,
    parallel: bool,
}

fn cons_for(mean: Vec<f64>, sigma: f64, infinite: bool) -> BoxedStrategy<Cons> {
    let d = mean.len();
    let m1 = mean.clone();
    let m2 = mean.clone();
    if infinite {
        // acceptance bounded away from zero
        prop_oneof![
            2 => (-1.0..0.5f64).prop_map(move |c| Cons::Half(mean.iter().sum::<f64>() + c * sigma)),
            2 => (any::<u64>(), 0.05..0.95f64).prop_map(|(h, p)| Cons::Hash(h, p)),
            2 => (prop::collection::vec((0.5..3.0f64, 0.5..3.0f64), d), any::<bool>()).prop_map(move |(v, one)| Cons::Bounds {
                lower: v.iter().zip(&m1).enumerate().map(|(i, (p, m))| if one && i > 0 || d > 4 && i > 3 { f64::NEG_INFINITY } else { m - p.0 * sigma }).collect(),
                upper: v.iter().zip(&m2).enumerate().map(|(i, (p, m))| if d > 4 && i > 3 { f64::INFINITY } else { m + p.1 * sigma }).collect(),
            }),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => crate::cfg::some_cons(mean, sigma),
            2 => (any::<u64>(), 0.0..1.0f64).prop_map(|(h, p)| Cons::Hash(h, p)),
        ]
        .boxed()
    }
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, lam) = if t == Tier::Quick { (8usize, 24usize) } else { (16, 60) };
    (
        wide_cfg(dim, lam),
        prop_oneof![
            2 => Just(None),
            2 => Just(Some(None)),
            5 => (0..14usize).prop_map(|m| Some(Some(m))),
            1 => (14..200usize).prop_map(|m| Some(Some(m))),
        ],
    )
        .prop_flat_map(|(mut cfg, limit)| {
            if !cfg.sigma.is_normal() || cfg.sigma < 1e-3 {
                cfg.sigma = 0.5;
            }
            let inf = limit == Some(None);
            let cons = cons_for(cfg.mean.clone(), cfg.sigma, inf);
            (Just(cfg), cons, Just(limit), any_obj(), prop_oneof![3 => 1..8usize, 1 => 8..40usize], prop::bool::weighted(0.3), prop::bool::weighted(0.2))
        })
        .prop_map(|(mut cfg, cons, limit, obj, gens, parallel, pu)| {
            cfg.parallel_update = pu;
            Case { cfg, cons, limit, obj, gens, parallel }
        })
        .boxed()
}

/// With unlimited resampling a constraint that the search has run away from would never end: after
/// this many queries of one generation the constraint accepts everything.
const GIVE_UP: usize = 200_000;

#[derive(Clone, Debug)]
struct GiveUp {
    inner: RecCons,
}
impl Constraints for GiveUp {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let r = self.inner.cons.ok(x.as_slice());
        let mut l = self.inner.log.lock().unwrap();
        let r = r || l.len() > GIVE_UP;
        l.push((x.as_slice().to_vec(), r));
        r
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    let lam = c.cfg.lam();
    let qlog = Arc::new(Mutex::new(vec![]));
    let rc = GiveUp { inner: RecCons { cons: c.cons.clone(), log: qlog.clone() } };
    let limit = match c.limit {
        None => Some(10),
        Some(l) => l,
    };
    let mut opts = c.cfg.options().constraints(Box::new(rc));
    if let Some(l) = c.limit {
        opts = opts.max_resamples(l);
    }
    let log = new_log();
    let mut o = opts.build(Rec::new(&c.obj, &log)).unwrap();
    ensure!(qlog.lock().unwrap().is_empty(), "constraints queried before the first generation");
    let mut w = Whitener::new(n);
    let mut prior = snap(&o);
    let mut drawn: usize = 0;
    let mut zs = normals(c.cfg.seed, n, lam * 4);
    let mut unordered = 0u64;
    let (mut queries, mut rejected, mut forced, mut resampled_gens, mut compared) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for g in 0..c.gens {
        let r = if c.parallel { step_par(&mut o, &log) } else { step(&mut o, &log) };
        let q = std::mem::take(&mut *qlog.lock().unwrap());
        if !r.calls.iter().all(|c| c.x.iter().all(|v| v.is_finite())) {
            break;
        }
        ensure!(r.calls.len() == lam, "generation {}: {} points evaluated, population {}", g + 1, r.calls.len(), lam);
        let gave_up = q.len() > GIVE_UP;
        // replay the documented procedure on the recorded answers
        let mut kept: Vec<Vec<f64>> = vec![];
        let mut draws: Vec<Vec<f64>> = vec![];
        let mut pos = 0;
        let mut round = 0;
        let mut free = 0;
        let mut ordered = true;
        while kept.len() < lam {
            let remain = lam - kept.len();
            if limit.map_or(false, |m| round >= m) {
                free = remain;
                break;
            }
            ensure!(
                q.len() >= pos + remain,
                "generation {}: round {} should redraw {} points but only {} of them were checked against the constraints",
                g + 1,
                round + 1,
                remain,
                q.len() - pos
            );
            let mut seg: Vec<&(Vec<f64>, bool)> = q[pos..pos + remain].iter().collect();
            if c.cfg.parallel_update {
                // asked in any order: recover the order of the draws
                let from = drawn + draws.len();
                if zs.len() < from + remain && from < 40_000 {
                    zs = normals(c.cfg.seed, n, (from + remain) * 2);
                }
                match zs.get(from..from + remain).and_then(|z| w.order(&prior, &seg, z)) {
                    Some(o) => seg = o,
                    None => ordered = false,
                }
            }
            for (x, ok) in seg {
                if *ok {
                    kept.push(x.clone());
                }
                draws.push(x.clone());
            }
            pos += remain;
            round += 1;
        }
        let extra = q.len() - pos;
        ensure!(
            extra == 0 || (extra == free && free > 0),
            "generation {}: {} constraint checks beyond the {} of {} rounds (limit {:?})",
            g + 1,
            extra,
            pos,
            round,
            limit
        );
        let mut got: Vec<Vec<f64>> = r.calls.iter().map(|c| c.x.clone()).collect();
        if c.parallel || !ordered {
            // any evaluation order (or an order that could not be recovered): the kept ones must all be there
            let mut rest: Vec<Option<Vec<f64>>> = got.iter().cloned().map(Some).collect();
            for k in &kept {
                match rest.iter_mut().find(|p| p.as_ref().map_or(false, |p| vec_bits_eq(p, k))) {
                    Some(p) => *p = None,
                    None => fail!("generation {}: feasible draw {:?} was not evaluated", g + 1, k),
                }
            }
            let others: Vec<Vec<f64>> = rest.into_iter().flatten().collect();
            got = kept.iter().cloned().chain(others).collect();
        }
        for (i, k) in kept.iter().enumerate() {
            ensure!(
                vec_bits_eq(k, &got[i]),
                "generation {}: evaluation {} is {:?}, the feasible draw kept in its place {:?}",
                g + 1,
                i,
                got[i],
                k
            );
        }
        ensure!(kept.len() + free == lam, "generation {}: {} feasible draws and {} unconstrained ones", g + 1, kept.len(), free);
        if limit.is_none() && !gave_up {
            for x in &got {
                ensure!(c.cons.ok(x), "generation {}: infeasible point {:?} evaluated without a resampling limit", g + 1, x);
            }
        }
        draws.extend(got[kept.len()..].iter().cloned());
        // all draws continue the stream of normal numbers
        if gave_up {
            break;
        }
        if zs.len() < drawn + draws.len() && drawn + draws.len() < 40_000 {
            zs = normals(c.cfg.seed, n, (drawn + draws.len()) * 2);
        }
        if zs.len() >= drawn + draws.len() && ordered && (!c.parallel || free <= 1) && draws.len() < 3000 {
            if w.compare(&prior, &draws, &zs[drawn..drawn + draws.len()])
                .map_err(|e| format!("generation {} (draws include rejected ones): {}", g + 1, e))?
                .is_some()
            {
                compared += draws.len() as u64;
            }
        }
        drawn += draws.len();
        unordered += !ordered as u64;
        queries += pos as u64;
        rejected += (pos - kept.len()) as u64;
        forced += free as u64;
        resampled_gens += (round > 1 || free > 0) as u64;
        if r.td.as_ref().map_or(false, |t| t.reasons == [cmaes::TerminationReason::PosDefCov]) {
            break;
        }
        w.advance(&prior, &r.after);
        prior = r.after;
    }
    Ok(Outcome::new(rejected > 0)
        .class(match (&c.cons, limit) {
            (_, Some(0)) => "limit 0",
            (_, None) => "unlimited",
            (_, Some(_)) if forced > 0 => "limit reached",
            _ => "limited",
        })
        .class(match c.cons {
            Cons::Bounds { .. } => "bounds",
            Cons::Half(_) => "halfspace",
            Cons::Hash(..) => "random",
            Cons::Never => "never",
        })
        .class(if c.cfg.parallel_update { "parallel update" } else { "sequential update" })
        .count("generations_unordered", unordered)
        .count("queries", queries)
        .count("rejected", rejected)
        .count("accepted_after_the_limit", forced)
        .count("generations_with_resampling", resampled_gens)
        .count("draws_compared_with_the_stream", compared)
        .note(format!("{} queries, {} rejected, {} accepted after the limit", queries, rejected, forced)))
}

// ---- accepting constraints, zero limit -------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SameCase {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    how: How,
    m: usize,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum How {
    AcceptAll,
    InfiniteBounds,
    ZeroLimit,
    NoneSetLimit,
    /// .bounds() against a hand-written constraint
    BoundsVsCustom,
    /// .bounds() against .constraints(Bounds)
    BoundsVsStruct,
}

fn same_strategy(_: Tier) -> BoxedStrategy<SameCase> {
    use How::*;
    (
        core_cfg(8, 20),
        any_obj(),
        1..25usize,
        prop::sample::select(vec![AcceptAll, InfiniteBounds, ZeroLimit, NoneSetLimit, BoundsVsCustom, BoundsVsStruct]),
        0..12usize,
        prop::bool::weighted(0.2),
    )
        .prop_map(|(mut cfg, obj, gens, how, m, _)| {
            if cfg.sigma < 1e-3 {
                cfg.sigma = 0.5;
            }
            SameCase { cfg, obj, gens, how, m }
        })
        .boxed()
}

fn check_same(c: &SameCase) -> CheckResult {
    let n = c.cfg.dim();
    let mut a = c.cfg.clone();
    let mut b = c.cfg.clone();
    let mut queried: Option<RecCons> = None;
    match c.how {
        How::AcceptAll => {
            b.cons = Some(Cons::Hash(c.cfg.seed, 2.0));
            b.max_resamples = Some(Some(c.m));
        }
        How::InfiniteBounds => {
            b.cons = Some(Cons::Bounds { lower: vec![f64::NEG_INFINITY; n], upper: vec![f64::INFINITY; n] });
            if c.m % 2 == 0 {
                b.max_resamples = Some(None);
            }
        }
        How::ZeroLimit => {
            b.max_resamples = Some(Some(0));
            queried = Some(RecCons { cons: Cons::Never, log: Arc::new(Mutex::new(vec![])) });
        }
        How::NoneSetLimit => b.max_resamples = Some(if c.m == 0 { None } else { Some(c.m) }),
        How::BoundsVsCustom | How::BoundsVsStruct => {
            let w = c.cfg.sigma * (0.3 + (c.m as f64) * 0.1);
            a.cons = Some(Cons::Bounds {
                lower: c.cfg.mean.iter().map(|m| m - w).collect(),
                upper: c.cfg.mean.iter().map(|m| m + 1.5 * w).collect(),
            });
            b.cons = None;
        }
    }
    let ta = drive(&a, Rec::new(&c.obj, &new_log()), c.gens, Stop::Terminated);
    let log = new_log();
    let mut opts = match &queried {
        Some(q) => b.options_with_cons(q.clone()),
        None => b.options(),
    };
    match (c.how, &a.cons) {
        (How::BoundsVsCustom, Some(k)) => {
            opts = opts.constraints(Box::new(RecCons { cons: k.clone(), log: Arc::new(Mutex::new(vec![])) }));
        }
        (How::BoundsVsStruct, Some(Cons::Bounds { lower, upper })) => {
            opts = opts.constraints(Box::new(Bounds { lower: lower.clone(), upper: upper.clone() }));
        }
        _ => {}
    }
    let mut o = opts.build(Rec::new(&c.obj, &log)).unwrap();
    let tb = drive_built(&mut o, &log, c.gens, Stop::Terminated);
    if let Some(d) = ta.diff(&tb) {
        fail!("{:?}: {}", c.how, d);
    }
    if let Some(q) = queried {
        let k = q.log.lock().unwrap().len();
        ensure!(k == 0 || k == ta.evals() as usize, "{} constraint checks with a resampling limit of 0", k);
    }
    Ok(Outcome::new(ta.gens.len() >= 1).class(format!("{:?}", c.how)).count("generations", ta.gens.len() as u64))
}

// ---- bounds are closed intervals --------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BoundCase {
    cfg: Cfg,
    coord: usize,
    upper: bool,
    /// tighten by one unit in the last place
    tight: bool,
    obj: Obj,
    #[serde(with = "fser::vec")]
    point: Vec<f64>,
}

fn bound_strategy(_: Tier) -> BoxedStrategy<BoundCase> {
    core_cfg(8, 20)
        .prop_flat_map(|cfg| {
            let d = cfg.dim();
            let special = prop_oneof![
                6 => -2.0..2.0f64,
                1 => Just(0.0),
                1 => Just(-0.0),
                1 => Just(f64::INFINITY),
                1 => Just(f64::NEG_INFINITY),
                1 => Just(f64::NAN),
                1 => Just(1.0),
            ];
            (Just(cfg), 0..d, any::<bool>(), any::<bool>(), any_obj(), prop::collection::vec(special, d))
        })
        .prop_map(|(cfg, coord, upper, tight, obj, point)| BoundCase { cfg, coord, upper, tight, obj, point })
        .boxed()
}

fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    f64::from_bits(if x > 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}
fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

fn check_bound(c: &BoundCase) -> CheckResult {
    // direct
    let n = c.cfg.dim();
    let (lo, hi) = (vec![-1.0; n], vec![1.0; n]);
    let b = Bounds { lower: lo.clone(), upper: hi.clone() };
    let want = c.point.iter().all(|x| *x >= -1.0 && *x <= 1.0);
    ensure!(
        b.meets_constraints(&DVector::from_vec(c.point.clone())) == want,
        "Bounds [-1, 1]: {:?} judged {}",
        c.point,
        !want
    );
    let b2 = Bounds { lower: c.point.clone(), upper: c.point.clone() };
    let want = !c.point.iter().any(|x| x.is_nan());
    ensure!(
        b2.clone_box().meets_constraints(&DVector::from_vec(c.point.clone())) == want,
        "Bounds [x, x] must contain exactly x: {:?} judged {}",
        c.point,
        !want
    );
    // a run whose bounds are exactly the extreme coordinates of its unconstrained first generation
    let first = drive(&c.cfg, Rec::new(&Obj::new(Kind::Sphere), &new_log()), 1, Stop::Never);
    let pts: Vec<&Vec<f64>> = first.gens[0].calls.iter().map(|c| &c.x).collect();
    let mut lower: Vec<f64> = (0..n).map(|k| pts.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min)).collect();
    let mut upper: Vec<f64> = (0..n).map(|k| pts.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max)).collect();
    let k = c.coord;
    let cut = if c.upper { upper[k] } else { lower[k] };
    if c.tight {
        if c.upper {
            upper[k] = next_down(cut);
        } else {
            lower[k] = next_up(cut);
        }
    }
    let log = new_log();
    let mut o = c.cfg.options().bounds(lower, upper).build(Rec::new(&Obj::new(Kind::Sphere), &log)).unwrap();
    let g = step(&mut o, &log);
    let got: Vec<&Vec<f64>> = g.calls.iter().map(|c| &c.x).collect();
    if !c.tight {
        for (i, (a, b)) in pts.iter().zip(&got).enumerate() {
            ensure!(
                vec_bits_eq(a, b),
                "bounds touching the drawn points exactly changed evaluation {}: {:?} instead of {:?}",
                i,
                b,
                a
            );
        }
    } else {
        let survivors: Vec<&&Vec<f64>> = pts.iter().filter(|p| p[k] != cut).collect();
        for (i, a) in survivors.iter().enumerate() {
            ensure!(vec_bits_eq(a, got[i]), "feasible draw {:?} not evaluated in its place ({:?})", a, got[i]);
        }
        for p in pts.iter().filter(|p| p[k] == cut) {
            ensure!(
                !got.iter().any(|q| vec_bits_eq(p, q)),
                "point {:?} lies outside the bounds by one unit in the last place but was evaluated in the first round",
                p
            );
        }
    }
    Ok(Outcome::new(true).class(if c.tight { "one ulp outside" } else { "on the boundary" }))
}

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "resampling: a recording constraint's answers are replayed through the documented procedure and compared with the evaluated points, and all draws (rejected ones included) with the normal stream of the seed; non-trivial when a draw was rejected. same: configurations that must not differ from an unconstrained (or equivalent) run, bit for bit. closed: bounds placed exactly on drawn coordinates or one ulp inside.",
        assumptions: vec![
            "a constraint is queried once per draw of a restricted round, in drawing order (parallel updates are not used here; they are compared in C03)",
            "unlimited resampling is exercised with constraints of bounded rejection probability",
        ],
        sections: vec![
            Box::new(Section { name: "resampling", quick: 10000, thorough: 250000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "same", quick: 3000, thorough: 60000, strategy: same_strategy, check: check_same, fixed: no_fixed }),
            Box::new(Section { name: "closed", quick: 6000, thorough: 100000, strategy: bound_strategy, check: check_bound, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
