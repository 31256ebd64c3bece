//! Generated optimizer configurations.
use crate::util::fser;
use cmaes::{CMAESOptions, Constraints, DVector, Mode, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum W {
    Pos,
    Neg,
    Uni,
}
impl W {
    pub fn to(self) -> Weights {
        match self {
            W::Pos => Weights::Positive,
            W::Neg => Weights::Negative,
            W::Uni => Weights::Uniform,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cons {
    Bounds {
        #[serde(with = "fser::vec")]
        lower: Vec<f64>,
        #[serde(with = "fser::vec")]
        upper: Vec<f64>,
    },
    /// sum of coordinates >= c
    Half(#[serde(with = "fser")] f64),
    /// accept by point hash, with probability p
    Hash(u64, #[serde(with = "fser")] f64),
    Never,
}

impl Cons {
    pub fn ok(&self, x: &[f64]) -> bool {
        match self {
            Cons::Bounds { lower, upper } => {
                x.iter().enumerate().all(|(i, v)| *v >= lower[i] && *v <= upper[i])
            }
            Cons::Half(c) => x.iter().sum::<f64>() >= *c,
            Cons::Hash(h, p) => crate::obj::hash01(x, *h) < *p,
            Cons::Never => false,
        }
    }
}

/// A constraint object that records its queries.
#[derive(Clone)]
pub struct RecCons {
    pub cons: Cons,
    pub log: Arc<Mutex<Vec<(Vec<f64>, bool)>>>,
}
impl std::fmt::Debug for RecCons {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "RecCons({:?})", self.cons)
    }
}
impl Constraints for RecCons {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let r = self.cons.ok(x.as_slice());
        self.log
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push((x.as_slice().to_vec(), r));
        r
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    #[serde(with = "fser::vec")]
    pub mean: Vec<f64>,
    #[serde(with = "fser")]
    pub sigma: f64,
    /// None: default population size
    pub lambda: Option<usize>,
    pub weights: W,
    #[serde(with = "fser")]
    pub cm: f64,
    pub max: bool,
    pub seed: u64,
    #[serde(default)]
    pub parallel_update: bool,
    #[serde(default)]
    pub cons: Option<Cons>,
    /// None: default; Some(None): unlimited
    #[serde(default)]
    pub max_resamples: Option<Option<usize>>,
    #[serde(default)]
    pub max_evals: Option<usize>,
    #[serde(default)]
    pub max_gens: Option<usize>,
    #[serde(default, with = "fser::opt")]
    pub fun_target: Option<f64>,
    #[serde(default, with = "fser::opt")]
    pub tol_fun: Option<f64>,
    #[serde(default, with = "fser::opt")]
    pub tol_fun_rel: Option<f64>,
    #[serde(default, with = "fser::opt")]
    pub tol_fun_hist: Option<f64>,
    #[serde(default, with = "fser::opt")]
    pub tol_x: Option<f64>,
    #[serde(default)]
    pub tol_stagnation: Option<usize>,
    #[serde(default, with = "fser::opt")]
    pub tol_x_up: Option<f64>,
    #[serde(default, with = "fser::opt")]
    pub tol_condition_cov: Option<f64>,
    #[serde(default)]
    pub plot_gap: Option<usize>,
    #[serde(default)]
    pub print_gap: Option<usize>,
}

impl Cfg {
    pub fn dim(&self) -> usize {
        self.mean.len()
    }
    pub fn lam(&self) -> usize {
        self.lambda
            .unwrap_or_else(|| 4 + (3.0 * (self.dim() as f64).ln()).floor() as usize)
    }
    pub fn mode(&self) -> Mode {
        if self.max {
            Mode::Maximize
        } else {
            Mode::Minimize
        }
    }
    pub fn basic(mean: Vec<f64>, sigma: f64, seed: u64) -> Self {
        Cfg {
            mean,
            sigma,
            lambda: None,
            weights: W::Neg,
            cm: 1.0,
            max: false,
            seed,
            parallel_update: false,
            cons: None,
            max_resamples: None,
            max_evals: None,
            max_gens: None,
            fun_target: None,
            tol_fun: None,
            tol_fun_rel: None,
            tol_fun_hist: None,
            tol_x: None,
            tol_stagnation: None,
            tol_x_up: None,
            tol_condition_cov: None,
            plot_gap: None,
            print_gap: None,
        }
    }
    pub fn options(&self) -> CMAESOptions {
        let mut o = self.options_unseeded().seed(self.seed);
        if let Some(c) = &self.cons {
            o = match c {
                Cons::Bounds { lower, upper } => o.bounds(lower.clone(), upper.clone()),
                _ => o.constraints(Box::new(RecCons {
                    cons: c.clone(),
                    log: Arc::new(Mutex::new(vec![])),
                })),
            };
        }
        o
    }
    pub fn options_with_cons(&self, c: RecCons) -> CMAESOptions {
        self.options_unseeded().seed(self.seed).constraints(Box::new(c))
    }
    pub fn options_unseeded(&self) -> CMAESOptions {
        let mut o = CMAESOptions::new(self.mean.clone(), self.sigma)
            .weights(self.weights.to())
            .cm(self.cm)
            .mode(self.mode())
            .parallel_update(self.parallel_update);
        if let Some(l) = self.lambda {
            o = o.population_size(l);
        }
        if let Some(m) = self.max_resamples {
            o = o.max_resamples(m);
        }
        if let Some(v) = self.max_evals {
            o = o.max_function_evals(v);
        }
        if let Some(v) = self.max_gens {
            o = o.max_generations(v);
        }
        if let Some(v) = self.fun_target {
            o = o.fun_target(v);
        }
        if let Some(v) = self.tol_fun {
            o = o.tol_fun(v);
        }
        if let Some(v) = self.tol_fun_rel {
            o = o.tol_fun_rel(v);
        }
        if let Some(v) = self.tol_fun_hist {
            o = o.tol_fun_hist(v);
        }
        if let Some(v) = self.tol_x {
            o = o.tol_x(v);
        }
        if let Some(v) = self.tol_stagnation {
            o = o.tol_stagnation(v);
        }
        if let Some(v) = self.tol_x_up {
            o = o.tol_x_up(v);
        }
        if let Some(v) = self.tol_condition_cov {
            o = o.tol_condition_cov(v);
        }
        #[cfg(feature = "plot")]
        if let Some(g) = self.plot_gap {
            o = o.enable_plot(cmaes::PlotOptions::new(g, false));
        }
        if let Some(g) = self.print_gap {
            o = o.enable_printing(g);
        }
        o
    }
}

pub fn dims(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 1..=4usize.min(max),
        3 => 2..=10usize.min(max),
        1 => 1..=max,
    ]
    .boxed()
}

pub fn weights() -> BoxedStrategy<W> {
    prop_oneof![3 => Just(W::Neg), 2 => Just(W::Pos), 1 => Just(W::Uni)].boxed()
}

pub fn lambdas(max: usize) -> BoxedStrategy<Option<usize>> {
    prop_oneof![
        3 => Just(None),
        3 => (2..=9usize).prop_map(Some),
        2 => (2..=30usize.min(max)).prop_map(Some),
        1 => (2..=max).prop_map(Some),
    ]
    .boxed()
}

pub fn cms() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(1.0), 1 => 0.05..1.0f64].boxed()
}

pub fn sigmas() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(1.0),
        4 => 0.05..5.0f64,
        1 => (-30..30i32).prop_map(|e| 1.7 * 2f64.powi(e)),
    ]
    .boxed()
}

pub fn means(dim: usize) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        1 => Just(vec![0.0; dim]),
        4 => prop::collection::vec(-5.0..5.0f64, dim),
        1 => prop::collection::vec(-500.0..500.0f64, dim),
    ]
    .boxed()
}

pub fn core_cfg(maxdim: usize, maxlam: usize) -> BoxedStrategy<Cfg> {
    dims(maxdim)
        .prop_flat_map(move |d| {
            (means(d), sigmas(), lambdas(maxlam), weights(), cms(), any::<bool>(), seeds())
        })
        .prop_map(|(mean, sigma, lambda, weights, cm, max, seed)| Cfg {
            lambda,
            weights,
            cm,
            max,
            ..Cfg::basic(mean, sigma, seed)
        })
        .boxed()
}

/// Like `core_cfg`, with occasional high dimensions and large populations.
pub fn wide_cfg(maxdim: usize, maxlam: usize) -> BoxedStrategy<Cfg> {
    let cfg = |d: usize, lambda: BoxedStrategy<Option<usize>>| {
        (means(d), sigmas(), lambda, weights(), cms(), any::<bool>(), seeds()).prop_map(
            |(mean, sigma, lambda, weights, cm, max, seed)| Cfg { lambda, weights, cm, max, ..Cfg::basic(mean, sigma, seed) },
        )
    };
    prop_oneof![
        40 => core_cfg(maxdim, maxlam),
        1 => (maxdim..maxdim.max(12) * 4).prop_flat_map(move |d| cfg(d, prop_oneof![2 => Just(None), 1 => (2..40usize).prop_map(Some)].boxed())),
        1 => (1..7usize).prop_flat_map(move |d| cfg(d, prop_oneof![2 => 60..150usize, 2 => 150..600usize].prop_map(Some).boxed())),
    ]
    .boxed()
}

/// Any seed, with the special ones often enough to matter
pub fn seeds() -> BoxedStrategy<u64> {
    prop_oneof![
        20 => any::<u64>(),
        1 => prop::sample::select(vec![0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u32::MAX as u64, 1 << 32, 1 << 53]),
        1 => 0..300u64,
    ]
    .boxed()
}

/// Once in a while some calls of the objective function that return NaN
pub fn nans() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        7 => Just(vec![]),
        1 => prop::collection::vec(prop_oneof![1 => 0..30usize, 1 => 0..400usize], 1..4),
    ]
    .boxed()
}

/// Once in a while a number of generations beyond every window and history length.
pub fn marathon() -> BoxedStrategy<Option<usize>> {
    prop::option::weighted(0.0008, 20_050..23_000usize).boxed()
}

impl Cfg {
    /// Makes the case cheap enough for a marathon.
    pub fn shrink_for_marathon(&mut self) {
        self.mean.truncate(2);
        self.lambda = Some(self.lambda.unwrap_or(5).min(5));
    }
}

/// Feasible constraints around the initial mean
pub fn some_cons(mean: Vec<f64>, sigma: f64) -> BoxedStrategy<Cons> {
    let d = mean.len();
    let m1 = mean.clone();
    prop_oneof![
        3 => prop::collection::vec((0.0..2.0f64, 0.0..2.0f64), d).prop_map(move |v| Cons::Bounds {
            lower: v.iter().zip(&m1).map(|(p, m)| m - p.0 * sigma).collect(),
            upper: v.iter().zip(&m1).map(|(p, m)| m + p.1 * sigma).collect(),
        }),
        2 => (-1.0..1.0f64).prop_map(move |c| Cons::Half(mean.iter().sum::<f64>() + c * sigma)),
        1 => (any::<u64>(), 0.2..0.95f64).prop_map(|(h, p)| Cons::Hash(h, p)),
        1 => Just(Cons::Never),
    ]
    .boxed()
}

/// Adds optional limited-resampling constraints (always terminating).
pub fn with_cons(s: BoxedStrategy<Cfg>) -> BoxedStrategy<Cfg> {
    (s, prop::option::weighted(0.04, 44..56i32))
        .prop_map(|(mut c, collapsed)| {
        // a step size that (nearly) disappears in the mean: points and coordinates coincide
        let size = c.mean.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        if let (Some(e), true) = (collapsed, size > 0.0) {
            c.sigma = size * 2f64.powi(-e);
        }
        c
    })
    .prop_flat_map(|c| {
        let cons = some_cons(c.mean.clone(), c.sigma);
        (Just(c), prop::option::weighted(0.35, (cons, prop_oneof![Just(None), (0..6usize).prop_map(|m| Some(Some(m)))])))
    })
    .prop_map(|(mut c, k)| {
        if let Some((cons, m)) = k {
            c.cons = Some(cons);
            c.max_resamples = m;
        }
        c
    })
    .boxed()
}
