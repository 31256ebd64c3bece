//! C22: recorded plot data.
use crate::cfg::{wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Obj, Rec};
use crate::rec::{snap, td, Snap};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, close};
use cmaes::plotting::Plot;
use cmaes::termination::TerminationReason as R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Next,
    NextPar,
    Add,
    Clear,
    /// run to termination by a generation limit
    Run,
    RunPar,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    ops: Vec<Op>,
    max_gens: usize,
    #[serde(with = "crate::util::fser::vec")]
    script: Vec<f64>,
    nan_at: Option<usize>,
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -10.0..10.0f64,
        1 => Just(0.0),
        1 => (-300..300i32, -9.99..9.99f64).prop_map(|(e, m)| m * 10f64.powi(e)),
        1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 5e-324]),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (8usize, 60usize) } else { (25, 300) };
    let op = prop_oneof![
        12 => Just(Op::Next),
        3 => Just(Op::NextPar),
        3 => Just(Op::Add),
        1 => Just(Op::Clear),
        1 => Just(Op::Run),
        1 => Just(Op::RunPar),
    ];
    (
        with_cons(wide_cfg(dim, 25)),
        any_obj(),
        prop::collection::vec(op, 1..long),
        prop_oneof![1 => Just(1_000_000usize), 3 => 1..60usize],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(value(), 20..200)],
        prop::option::weighted(0.2, prop_oneof![0..30usize, 0..400usize]),
        prop_oneof![1 => Just(0usize), 1 => Just(1), 4 => 1..60usize, 3 => 1..300usize, 1 => Just(1_000_000), 1 => prop_oneof![Just(usize::MAX), (0..2000usize).prop_map(|k| usize::MAX - k), Just(usize::MAX / 2)]],
        0..4u8,
    )
        .prop_map(|(mut cfg, obj, mut ops, max_gens, script, nan_at, gap, exact)| {
            let lam = cfg.lam();
            cfg.plot_gap = Some(match exact {
                0 => gap % 10 * lam,
                1 => gap % 10 * lam + 1,
                _ => gap,
            });
            if max_gens > 1000 {
                ops.retain(|o| !matches!(o, Op::Run | Op::RunPar));
            }
            let par = ops.iter().any(|o| matches!(o, Op::NextPar | Op::RunPar));
            Case { cfg, obj, ops, max_gens, script: if par { vec![] } else { script }, nan_at: if par { None } else { nan_at } }
        })
        .boxed()
}

/// One recorded point, as far as it could be read
#[derive(Clone, Debug)]
struct Pt {
    evals: usize,
    best: f64,
    median: f64,
    sigma: f64,
    ratio: f64,
    mean: Vec<f64>,
    eig: Vec<f64>,
    scales: Vec<f64>,
}

/// The value of a field in a Debug text: everything up to the matching bracket
fn field<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("{}: [", name);
    let i = text.find(&key)? + key.len();
    let mut depth = 1;
    for (k, ch) in text[i..].char_indices() {
        match ch {
            '[' => depth += 1,
            ']' => {
                depth -= 1;
                if depth == 0 {
                    return Some(&text[i..i + k]);
                }
            }
            _ => {}
        }
    }
    None
}
fn list<T: std::str::FromStr>(t: &str) -> Option<Vec<T>> {
    t.split(',').map(|v| v.trim()).filter(|v| !v.is_empty()).map(|v| v.parse().ok()).collect()
}
fn lists(t: &str) -> Option<Vec<Vec<f64>>> {
    t.split(']').map(|v| v.trim().trim_start_matches(',').trim()).filter(|v| v.starts_with('[')).map(|v| list(&v[1..])).collect()
}

/// None: the Debug output cannot be read. Err: the fields disagree in length.
fn points(p: &Plot) -> Option<Result<Vec<Pt>, String>> {
    let t = format!("{:?}", p);
    let evals: Vec<usize> = list(field(&t, "function_evals")?)?;
    let best: Vec<f64> = list(field(&t, "best_function_value")?)?;
    let median: Vec<f64> = list(field(&t, "median_function_value")?)?;
    let sigma: Vec<f64> = list(field(&t, "sigma")?)?;
    let ratio: Vec<f64> = list(field(&t, "axis_ratio")?)?;
    let mean = lists(field(&t, "mean_dimensions")?)?;
    let eig = lists(field(&t, "sqrt_eigenvalues")?)?;
    let scales = lists(field(&t, "coord_axis_scales")?)?;
    let n = evals.len();
    let all = [best.len(), median.len(), sigma.len(), ratio.len()];
    if all.iter().any(|l| *l != n) || mean.iter().chain(&eig).chain(&scales).any(|v| v.len() != n) {
        return Some(Err(format!("{} evaluation counts, but {:?} values: {}", n, all, t)));
    }
    let at = |v: &Vec<Vec<f64>>, i: usize| v.iter().map(|d| d[i]).collect::<Vec<f64>>();
    Some(Ok((0..n)
        .map(|i| Pt {
            evals: evals[i],
            best: best[i],
            median: median[i],
            sigma: sigma[i],
            ratio: ratio[i],
            mean: at(&mean, i),
            eig: at(&eig, i),
            scales: at(&scales, i),
        })
        .collect()))
}

/// A point that must have been recorded; the median is None if undetermined
#[derive(Clone, Debug)]
struct Want {
    s: Snap,
    median: Option<f64>,
}

fn same(got: f64, want: f64) -> bool {
    bits_eq(got, want) || (got - want).abs() <= 1.1e-20 || close(got, want, 1e-9, 0.0)
}

fn cmp(p: &Pt, w: &Want) -> Result<(), String> {
    let s = &w.s;
    let n = s.mean.len();
    if p.evals != s.evals {
        return Err(format!("recorded at {} evaluations, expected {}", p.evals, s.evals));
    }
    let best = s.cur.as_ref().map_or(f64::NAN, |c| c.1);
    if !same(p.best, best) {
        return Err(format!("best value {:e} recorded for {:e} at {} evaluations", p.best, best, s.evals));
    }
    if let Some(m) = w.median {
        if !same(p.median, m) {
            return Err(format!("median {:e} recorded for {:e} at {} evaluations", p.median, m, s.evals));
        }
    }
    if !same(p.sigma, s.sigma) {
        return Err(format!("sigma {:e} recorded for {:e}", p.sigma, s.sigma));
    }
    if !same(p.ratio, s.ratio) {
        return Err(format!("axis ratio {:e} recorded for {:e}", p.ratio, s.ratio));
    }
    if p.mean.len() != n || p.mean.iter().zip(&s.mean).any(|(a, b)| !same(*a, *b)) {
        return Err(format!("mean {:?} recorded for {:?}", p.mean, s.mean));
    }
    let mut eig: Vec<f64> = s.eig.iter().map(|e| e.sqrt()).collect();
    eig.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let mut got = p.eig.clone();
    got.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    if got.len() != n || got.iter().zip(&eig).any(|(a, b)| !same(*a, *b)) {
        return Err(format!("axis scales {:?} recorded for {:?}", p.eig, eig));
    }
    let sc: Vec<f64> = (0..n).map(|i| s.cov[i * n + i].sqrt()).collect();
    if p.scales.len() != n || p.scales.iter().zip(&sc).any(|(a, b)| !same(*a, *b)) {
        return Err(format!("coordinate scales {:?} recorded for {:?}", p.scales, sc));
    }
    Ok(())
}

fn median(vals: &[f64]) -> Option<f64> {
    let mut v = vals.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    let (a, b) = (v[(n - 1) / 2], v[n / 2]);
    if a == b {
        Some(a)
    } else if a.abs() > 1e307 && b.abs() > 1e307 && a.is_finite() && b.is_finite() {
        Some(a / 2.0 + b / 2.0)
    } else if a.is_infinite() || b.is_infinite() || a.abs() > 1e307 || b.abs() > 1e307 {
        // the mean of the two is not determined
        None
    } else {
        Some((a + b) / 2.0)
    }
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let mk = || {
        let mut rec = Rec::new(&c.obj, &log);
        if !c.script.is_empty() {
            rec = rec.script(c.script.clone());
        }
        if let Some(n) = c.nan_at {
            rec = rec.nan_at(vec![n]);
        }
        rec
    };
    let mut cfg = c.cfg.clone();
    cfg.max_gens = Some(c.max_gens);
    let gap = cfg.plot_gap.unwrap();
    // states without plotting, to find every generation of a run
    let mut plain = cfg.clone();
    plain.plot_gap = None;
    let mut q = plain.options().build(mk()).expect("valid options");
    ensure!(q.get_plot().is_none() && q.get_mut_plot().is_none(), "a plot although plotting is disabled");
    q.add_plot_point();
    let mut s = cfg.options().build(mk()).expect("valid options");
    let lam = cfg.lam();
    let mut want: Vec<Want> = vec![Want { s: snap(&s), median: Some(f64::NAN) }];
    let mut now = want[0].clone();
    let mut last = (0usize, 0usize); // generation, evaluations
    let (mut cleared, mut capacity, mut unread) = (0u64, 0usize, 0u64);
    take(&log);
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::Next | Op::NextPar | Op::Run | Op::RunPar => {
                let run = matches!(op, Op::Run | Op::RunPar);
                let mut reasons = vec![];
                loop {
                    take(&log);
                    let t = if matches!(op, Op::NextPar | Op::RunPar) { q.next_parallel() } else { q.next() };
                    let vals: Vec<f64> = take(&log).iter().map(|k| k.v).collect();
                    let t = t.as_ref().map(td);
                    let aborted = t.as_ref().map_or(false, |t| t.reasons.contains(&R::InvalidFunctionValue) || t.reasons.contains(&R::PosDefCov));
                    now.s = snap(&q);
                    // a failed update comes after the evaluation of a generation
                    if vals.len() == lam && !vals.iter().any(|v| v.is_nan()) {
                        now.median = median(&vals);
                    }
                    if !aborted {
                        if now.s.gen <= 1 || now.s.evals >= last.1.saturating_add(gap) {
                            if now.s.gen != last.0 {
                                want.push(now.clone());
                                last = (now.s.gen, now.s.evals);
                            }
                        }
                    }
                    if let Some(t) = &t {
                        reasons = t.reasons.clone();
                    }
                    if !run || t.is_some() {
                        break;
                    }
                }
                if run && now.s.gen != last.0 {
                    want.push(now.clone());
                    last = (now.s.gen, now.s.evals);
                }
                let t = match op {
                    Op::Next => s.next(),
                    Op::NextPar => s.next_parallel(),
                    Op::Run => Some(s.run()),
                    _ => Some(s.run_parallel()),
                };
                take(&log);
                let got = t.as_ref().map(|t| t.reasons.clone()).unwrap_or_default();
                ensure!(got == reasons, "operation {}: reasons {:?} with plotting, {:?} without", k, got, reasons);
            }
            Op::Add => {
                s.add_plot_point();
                q.add_plot_point();
                if now.s.gen != last.0 {
                    want.push(now.clone());
                    last = (now.s.gen, now.s.evals);
                }
            }
            Op::Clear => {
                let p = s.get_mut_plot().unwrap();
                let before = p.capacity();
                p.clear();
                ensure!(p.capacity() == before, "clear() changed the capacity from {} to {}", before, p.capacity());
                want = vec![want.last().unwrap().clone()];
                cleared += 1;
            }
        }
        if let Some(d) = snap(&s).diff(&now.s) {
            fail!("operation {}: the run with plotting differs: {}", k, d);
        }
        let p = s.get_plot().unwrap();
        ensure!(p.len() == want.len(), "operation {} ({:?}): {} points, expected {} (gap {}, {} evaluations, last at {})", k, op, p.len(), want.len(), gap, now.s.evals, last.1);
        ensure!(!p.is_empty(), "is_empty() with {} points", p.len());
        ensure!(p.capacity() >= p.len() && p.capacity() >= capacity, "capacity {} after {} for {} points", p.capacity(), capacity, p.len());
        capacity = p.capacity();
        // the whole content now and then, and always at the end
        if k + 1 == c.ops.len() || k % 7 == 3 || matches!(op, Op::Clear) {
            match points(p) {
                None => unread += 1,
                Some(Err(e)) => fail!("{}", e),
                Some(Ok(pts)) => {
                    ensure!(pts.len() == want.len(), "{} recorded points, len() = {}", pts.len(), want.len());
                    for (i, (g, w)) in pts.iter().zip(&want).enumerate() {
                        if let Err(e) = cmp(g, w) {
                            fail!("operation {}, point {} of {}: {}", k, i, want.len(), e);
                        }
                    }
                    // a clone is an independent copy
                    let mut copy = p.clone();
                    copy.clear();
                    ensure!(copy.len() == 1 && p.len() == want.len(), "clearing a clone changed the plot");
                }
            }
        }
    }
    Ok(Outcome::new(unread == 0 && want.len() + cleared as usize > 1)
        .class(if unread > 0 { "unreadable" } else { "read" })
        .class(if cleared > 0 { "cleared" } else { "not cleared" })
        .class(if want.len() > 4 { "many points" } else { "few points" })
        .count("points", want.len() as u64))
}

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "a history is non-trivial if the recorded data could be read and has more than the initial point or was cleared",
        assumptions: vec![
            "the recorded values are read from the Debug output; without it only the number of points is checked",
            "recorded values may differ from the state by the plotting offset 1e-20",
        ],
        sections: vec![Box::new(Section { name: "data", quick: 20_000, thorough: 300_000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
