//! C27: the convenience functions.
use crate::capture::capture;
use crate::cfg::{dims, means, sigmas};
use crate::obj::{any_obj, new_log, take, Call, Log, Obj, Rec};
use crate::rec::calls_diff;
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, vec_bits_eq};
use cmaes::objective_function::Scale;
use cmaes::{CMAESOptions, DVector, Individual, Mode, ObjectiveFunction, ParallelObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    #[serde(with = "crate::util::fser::vec")]
    mean: Vec<f64>,
    #[serde(with = "crate::util::fser")]
    sigma: f64,
    obj: Obj,
    max: bool,
    parallel: bool,
    /// how the objective function and the mean are passed
    form: u8,
    /// evaluations after which the objective function returns NaN
    cut: usize,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let dim = if t == Tier::Quick { 10usize } else { 25 };
    dims(dim)
        .prop_flat_map(|d| (means(d), sigmas(), any_obj(), any::<bool>(), any::<bool>(), 0..5u8, prop_oneof![2 => 100..3000usize, 2 => Just(20_000)]))
        .prop_map(|(mean, sigma, obj, max, parallel, form, cut)| Case { mean, sigma, obj, max, parallel, form, cut })
        .boxed()
}

/// Recording objective that ends a run after some evaluations
#[derive(Clone)]
struct Cut(Rec, usize);
impl Cut {
    fn call(&self, x: &DVector<f64>) -> f64 {
        let v = self.0.call(x);
        if self.0.ncalls() > self.1 {
            f64::NAN
        } else {
            v
        }
    }
}
impl ObjectiveFunction for Cut {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}
impl ParallelObjectiveFunction for Cut {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

fn conv(c: &Case, log: &Log) -> Individual {
    let f = Cut(Rec::new(&c.obj, log), c.cut);
    let (m, s) = (c.mean.clone(), c.sigma);
    let ones = vec![1.0; m.len()];
    macro_rules! go {
        ($min:path, $max:path) => {
            match (c.form, c.max) {
                (0, false) => $min(f, m, s),
                (0, true) => $max(f, m, s),
                (1, false) => $min(|x: &DVector<f64>| f.call(x), m, s),
                (1, true) => $max(|x: &DVector<f64>| f.call(x), m, s),
                (2, false) => $min(Scale::new(f, ones), DVector::from_vec(m), s),
                (2, true) => $max(Scale::new(f, ones), DVector::from_vec(m), s),
                _ => unreachable!(),
            }
        };
    }
    match (c.parallel, c.form) {
        (false, 3) => {
            let b: Box<dyn ObjectiveFunction> = Box::new(f);
            if c.max {
                cmaes::fmax(b, m, s)
            } else {
                cmaes::fmin(b, m, s)
            }
        }
        (false, 4) => {
            let mut g = |x: &DVector<f64>| f.call(x);
            if c.max {
                cmaes::fmax(&mut g, m, s)
            } else {
                cmaes::fmin(&mut g, m, s)
            }
        }
        (true, 3) => {
            let b: Box<dyn ParallelObjectiveFunction> = Box::new(f);
            if c.max {
                cmaes::fmax_parallel(b, m, s)
            } else {
                cmaes::fmin_parallel(b, m, s)
            }
        }
        (true, 4) => {
            let g = |x: &DVector<f64>| f.call(x);
            if c.max {
                cmaes::fmax_parallel(&g, m, s)
            } else {
                cmaes::fmin_parallel(&g, m, s)
            }
        }
        (false, _) => go!(cmaes::fmin, cmaes::fmax),
        (true, _) => go!(cmaes::fmin_parallel, cmaes::fmax_parallel),
    }
}

fn sorted(mut v: Vec<Call>) -> Vec<Call> {
    v.sort_by(|a, b| {
        let k = |c: &Call| (c.x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.v.to_bits());
        k(a).cmp(&k(b))
    });
    v
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let (got, text) = capture(|| conv(c, &log));
    let calls = take(&log);
    let cut = calls.len() > c.cut;
    ensure!(!text.trim().is_empty(), "nothing was printed");
    // the individual is an evaluated one, and the best of them
    let better = |a: f64, b: f64| if c.max { a > b } else { a < b };
    let hit = calls.iter().any(|k| vec_bits_eq(&k.x, got.point.as_slice()) && bits_eq(k.v, got.value));
    ensure!(hit, "returned ({:?}, {:e}), which was never evaluated", got.point.as_slice(), got.value);
    ensure!(
        bits_eq(c.obj.eval(got.point.as_slice()), got.value),
        "returned the value {:e}, but f({:?}) = {:e}", got.value, got.point.as_slice(), c.obj.eval(got.point.as_slice())
    );
    let lam = 4 + (3.0 * (c.mean.len() as f64).ln()).floor() as usize;
    let full = calls.len().min(c.cut) / lam * lam;
    if !c.parallel || !cut {
        for k in &calls[..full] {
            ensure!(!better(k.v, got.value), "returned the value {:e}, but {:e} was found at {:?}", got.value, k.v, k.x);
        }
    }
    // the same run with the printed seed
    let seed: Option<u64> = text.lines().next().and_then(|l| l.rsplit_once("seed=")).and_then(|x| x.1.trim().parse().ok());
    let Some(seed) = seed else {
        return Ok(Outcome::trivial().class("no seed printed"));
    };
    let log2 = new_log();
    let f = Cut(Rec::new(&c.obj, &log2), c.cut);
    let mut s = CMAESOptions::new(c.mean.clone(), c.sigma)
        .mode(if c.max { Mode::Maximize } else { Mode::Minimize })
        .seed(seed)
        .build(f)
        .unwrap();
    let t = s.run();
    let own = take(&log2);
    let best = match t.overall_best {
        Some(b) => b,
        None => fail!("no individual in the run with seed {}", seed),
    };
    ensure!(
        vec_bits_eq(best.point.as_slice(), got.point.as_slice()) && bits_eq(best.value, got.value),
        "returned ({:?}, {:e}), a run with default options returns ({:?}, {:e})",
        got.point.as_slice(), got.value, best.point.as_slice(), best.value
    );
    if c.parallel && cut {
        // which evaluations of the last generation come first is undefined
        ensure!(own.len() > c.cut, "the run with default options made {} evaluations only", own.len());
    } else {
        let (a, b) = if c.parallel { (sorted(calls), sorted(own)) } else { (calls, own) };
        if let Some(d) = calls_diff(&a, &b) {
            fail!("against a run with default options and seed {}: {}", seed, d);
        }
    }
    let name = match (c.max, c.parallel) {
        (false, false) => "fmin",
        (true, false) => "fmax",
        (false, true) => "fmin_parallel",
        (true, true) => "fmax_parallel",
    };
    Ok(Outcome::new(t.reasons.len() > 0).class(name).class(if cut { "cut off" } else { "complete" }).class(c.obj.label()).count("evaluations", full as u64))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    dim: usize,
    max: bool,
    seedless: u64,
}
fn tstrategy(_: Tier) -> BoxedStrategy<TCase> {
    (3..8usize, any::<bool>(), any::<u64>()).prop_map(|(dim, max, seedless)| TCase { dim, max, seedless }).boxed()
}

/// Evaluations of the parallel variants overlap in time, those of the others do not; different
/// calls use different seeds.
fn check_threads(c: &TCase) -> CheckResult {
    let go = |par: bool| {
        let ids = Arc::new(Mutex::new(HashSet::new()));
        let first: Arc<Mutex<Option<Vec<f64>>>> = Arc::new(Mutex::new(None));
        let n = std::sync::atomic::AtomicUsize::new(0);
        let f = |x: &DVector<f64>| {
            if n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 70 {
                return f64::NAN;
            }
            ids.lock().unwrap().insert(std::thread::current().id());
            first.lock().unwrap().get_or_insert_with(|| x.as_slice().to_vec());
            std::thread::sleep(std::time::Duration::from_millis(2));
            x.magnitude()
        };
        let m = vec![1.0 + (c.seedless % 7) as f64; c.dim];
        capture(|| match (par, c.max) {
            (false, false) => cmaes::fmin(f, m, 1.0),
            (false, true) => cmaes::fmax(f, m, 1.0),
            (true, false) => cmaes::fmin_parallel(f, m, 1.0),
            (true, true) => cmaes::fmax_parallel(f, m, 1.0),
        });
        let k = ids.lock().unwrap().len();
        let x = first.lock().unwrap().clone().unwrap();
        (k, x)
    };
    let (seq, a) = go(false);
    let (par, b) = go(true);
    let (_, d) = go(false);
    ensure!(seq == 1, "the sequential function evaluated on {} threads", seq);
    ensure!(a != b && a != d, "different calls evaluate the same first point {:?}", a);
    if rayon::current_num_threads() < 2 {
        return Ok(Outcome::trivial().class("one thread"));
    }
    ensure!(par > 1, "the parallel function evaluated 70 slow calls on one thread of {}", rayon::current_num_threads());
    Ok(Outcome::new(true).class("threads"))
}

pub fn property() -> Property {
    Property {
        id: "C27",
        rule: "a call is non-trivial if its seed could be read and the same run with default options was made",
        assumptions: vec!["the printed seed identifies the run"],
        sections: vec![
            Box::new(Section { name: "replay", quick: 1_200, thorough: 15_000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "threads", quick: 24, thorough: 160, strategy: tstrategy, check: check_threads, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
