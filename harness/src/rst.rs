//! Generated restart configurations, recorded objective functions and parsed run information.
use crate::cfg::{weights, W};
use crate::obj::{hash01, Obj};
use crate::util::fser;
use cmaes::restart::{Local, RestartOptions, RestartResults, RestartStrategy, Restarter, BIPOP, IPOP};
use cmaes::{CMAESOptions, DVector, Mode, ObjectiveFunction, ParallelObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Strat {
    Local(usize, #[serde(with = "fser::opt")] Option<f64>),
    Ipop(Option<usize>),
    Bipop(#[serde(with = "fser::opt")] Option<f64>, Option<usize>),
}

impl Strat {
    pub fn label(&self) -> &'static str {
        match self {
            Strat::Local(..) => "Local",
            Strat::Ipop(_) => "IPOP",
            Strat::Bipop(..) => "BIPOP",
        }
    }
    pub fn to(&self) -> RestartStrategy {
        match self {
            Strat::Local(n, f) => RestartStrategy::Local(Local::new(*n, *f).unwrap()),
            Strat::Ipop(None) => RestartStrategy::IPOP(IPOP::default()),
            Strat::Ipop(Some(i)) => RestartStrategy::IPOP(IPOP::new(*i).unwrap()),
            Strat::Bipop(f, i) => RestartStrategy::BIPOP(BIPOP::new(*f, *i).unwrap()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCfg {
    pub dim: usize,
    #[serde(with = "fser")]
    pub a: f64,
    #[serde(with = "fser")]
    pub b: f64,
    pub strat: Strat,
    pub max: bool,
    #[serde(with = "fser::opt")]
    pub target: Option<f64>,
    pub max_evals: Option<usize>,
    pub run_evals: Option<usize>,
    pub run_gens: Option<usize>,
    pub par_update: bool,
    /// options changed in default_options (None: default options not set at all)
    pub def: Option<Def>,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Def {
    pub lambda: Option<usize>,
    pub weights: W,
    #[serde(with = "fser")]
    pub cm: f64,
    #[serde(with = "fser::opt")]
    pub tol_fun: Option<f64>,
    #[serde(with = "fser::opt")]
    pub tol_x: Option<f64>,
    pub tol_stagnation: Option<usize>,
}

impl RCfg {
    pub fn mode(&self) -> Mode {
        if self.max {
            Mode::Maximize
        } else {
            Mode::Minimize
        }
    }
    pub fn lo(&self) -> f64 {
        self.a.min(self.b)
    }
    pub fn hi(&self) -> f64 {
        self.a.max(self.b)
    }
    pub fn range(&self) -> f64 {
        self.hi() - self.lo()
    }
    pub fn better(&self, x: f64, y: f64) -> bool {
        if self.max {
            x > y
        } else {
            x < y
        }
    }
    pub fn default_options(&self) -> CMAESOptions {
        let mut o = CMAESOptions::new(vec![0.0; self.dim], 0.5);
        if let Some(d) = &self.def {
            o = o.weights(d.weights.to()).cm(d.cm);
            if let Some(l) = d.lambda {
                o = o.population_size(l);
            }
            if let Some(v) = d.tol_fun {
                o = o.tol_fun(v);
            }
            if let Some(v) = d.tol_x {
                o = o.tol_x(v);
            }
            if let Some(v) = d.tol_stagnation {
                o = o.tol_stagnation(v);
            }
        }
        o
    }
    pub fn lambda(&self) -> usize {
        self.default_options().population_size
    }
    pub fn options(&self) -> RestartOptions {
        let mut o = self.unseeded();
        o = o.seed(self.seed);
        o
    }
    pub fn unseeded(&self) -> RestartOptions {
        let mut o = RestartOptions::new(self.dim, self.a..=self.b, self.strat.to())
            .mode(self.mode())
            .parallel_update(self.par_update);
        if self.def.is_some() {
            o = o.default_options(self.default_options());
        }
        if let Some(v) = self.target {
            o = o.fun_target(v);
        }
        if let Some(v) = self.max_evals {
            o = o.max_function_evals(v);
        }
        if let Some(v) = self.run_evals {
            o = o.max_function_evals_per_run(v);
        }
        if let Some(v) = self.run_gens {
            o = o.max_generations_per_run(v);
        }
        o
    }
    pub fn restarter(&self, printing: bool) -> Restarter {
        self.options().enable_printing(printing).build().unwrap()
    }
}

#[derive(Clone, Debug)]
pub struct RCall {
    /// which objective function object was called
    pub inst: usize,
    /// how often that object had been called before
    pub n: usize,
    pub x: Vec<f64>,
    pub v: f64,
}
pub type RLog = Arc<Mutex<Vec<RCall>>>;

/// Recording objective; NaN at chosen calls (counted over the whole restart) or chosen points.
#[derive(Clone)]
pub struct RObj {
    pub obj: Obj,
    pub log: RLog,
    pub inst: usize,
    pub own: Arc<Mutex<usize>>,
    pub nan_at: Arc<Vec<usize>>,
    pub nan_p: f64,
}
impl RObj {
    pub fn new(obj: &Obj, log: &RLog, inst: usize, nan_at: &[usize], nan_p: f64) -> Self {
        RObj { obj: obj.clone(), log: log.clone(), inst, own: Arc::new(Mutex::new(0)), nan_at: Arc::new(nan_at.to_vec()), nan_p }
    }
    fn call(&self, x: &DVector<f64>) -> f64 {
        let n = {
            let mut o = self.own.lock().unwrap_or_else(|e| e.into_inner());
            *o += 1;
            *o - 1
        };
        let mut log = self.log.lock().unwrap_or_else(|e| e.into_inner());
        let v = if self.nan_at.contains(&log.len()) || (self.nan_p > 0.0 && hash01(x.as_slice(), 77) < self.nan_p) {
            f64::NAN
        } else {
            self.obj.eval(x.as_slice())
        };
        log.push(RCall { inst: self.inst, n, x: x.as_slice().to_vec(), v });
        v
    }
}
impl ObjectiveFunction for RObj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}
impl ParallelObjectiveFunction for RObj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

impl<'a> ObjectiveFunction for &'a mut RObj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}
impl<'a> ParallelObjectiveFunction for &'a RObj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

pub struct Ran {
    pub res: RestartResults,
    /// evaluations by objective function object
    pub calls: Vec<RCall>,
    pub made: usize,
}

impl Ran {
    /// Evaluations of each run (runs by fresh objective functions only)
    pub fn runs(&self) -> Vec<Vec<&RCall>> {
        let mut v: Vec<Vec<&RCall>> = vec![vec![]; self.made];
        for c in &self.calls {
            v[c.inst].push(c);
        }
        v
    }
}

/// Runs with fresh objective functions, sequentially.
pub fn run_fresh(r: Restarter, obj: &Obj, nan_at: &[usize], nan_p: f64) -> Ran {
    let log: RLog = Arc::new(Mutex::new(vec![]));
    let mut made = 0;
    let res = r.run(|| {
        made += 1;
        RObj::new(obj, &log, made - 1, nan_at, nan_p)
    });
    let calls = std::mem::take(&mut *log.lock().unwrap());
    Ran { res, calls, made }
}

#[derive(Clone, Debug)]
pub struct Info {
    pub lambda: usize,
    pub sigma0: f64,
    pub seed: u64,
    pub reasons: Vec<String>,
    pub evals: usize,
}

/// The run information printed by a restarter; None if it cannot be read.
pub fn parse_info(text: &str) -> Option<Vec<Info>> {
    let mut v: Vec<Info> = vec![];
    let field = |l: &str, name: &str| -> Option<String> {
        let i = l.find(&format!("{}=", name))? + name.len() + 1;
        let rest = &l[i..];
        Some(rest[..rest.find(", ").unwrap_or(rest.len())].trim().to_string())
    };
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("Run ") else { continue };
        let (no, _) = rest.split_once(' ')?;
        let no: usize = no.parse().ok()?;
        if rest.contains(" parameters:") {
            if no != v.len() + 1 {
                return None;
            }
            v.push(Info {
                lambda: field(l, "lambda")?.parse().ok()?,
                sigma0: field(l, "sigma0")?.parse().ok()?,
                seed: field(l, "seed")?.parse().ok()?,
                reasons: vec![],
                evals: 0,
            });
        } else if rest.contains(" results:") {
            if no != v.len() {
                return None;
            }
            let a = l.find("termination_reasons=[")? + 21;
            let e = l[a..].find(']')?;
            let i = v.last_mut()?;
            i.reasons = l[a..a + e].split(", ").map(|s| s.trim_matches('`').to_string()).collect();
            i.evals = field(l, "f-evals")?.parse().ok()?;
        }
    }
    Some(v)
}

pub fn def() -> BoxedStrategy<Option<Def>> {
    prop::option::of(
        (
            prop::option::of(2..12usize),
            weights(),
            prop_oneof![3 => Just(1.0), 1 => 0.2..1.0f64],
            prop::option::weighted(0.3, prop_oneof![Just(1e-2), Just(1e-6), Just(0.0)]),
            prop::option::weighted(0.3, prop_oneof![Just(1e-2), Just(1e-5)]),
            prop::option::weighted(0.3, 1..20usize),
        )
            .prop_map(|(lambda, weights, cm, tol_fun, tol_x, tol_stagnation)| Def { lambda, weights, cm, tol_fun, tol_x, tol_stagnation }),
    )
    .boxed()
}

pub fn strat() -> BoxedStrategy<Strat> {
    let f = prop::option::of(prop_oneof![3 => 0.05..3.0f64, 1 => 1e-3..20.0f64]);
    prop_oneof![
        2 => (0..8usize, f.clone()).prop_map(|(n, f)| Strat::Local(n, f)),
        2 => prop::option::of(1..=3usize).prop_map(Strat::Ipop),
        3 => (f, prop::option::of(1..=3usize)).prop_map(|(f, i)| Strat::Bipop(f, i)),
    ]
    .boxed()
}

/// Restart configurations of bounded cost.
pub fn rcfg(maxdim: usize) -> BoxedStrategy<RCfg> {
    (
        1..=maxdim,
        prop_oneof![4 => -10.0..10.0f64, 1 => Just(-1.0), 1 => -1e4..1e4f64],
        prop_oneof![4 => 0.01..20.0f64, 1 => Just(2.0), 1 => -20.0..-0.01f64, 1 => 1e3..1e5f64],
        strat(),
        any::<bool>(),
        prop::option::weighted(0.5, prop_oneof![1 => Just(0usize), 3 => 1..3000usize, 1 => 3000..20000usize]),
        prop_oneof![3 => (0..200usize).prop_map(Some), 1 => Just(Some(0)), 3 => Just(None)],
        prop_oneof![4 => (1..30usize).prop_map(Some), 2 => Just(None), 1 => Just(Some(0))],
        def(),
        crate::cfg::seeds(),
    )
        .prop_map(|(dim, a, w, strat, max, max_evals, run_evals, run_gens, def, seed)| {
            let mut c = RCfg {
                dim,
                a,
                b: a + w,
                strat,
                max,
                target: None,
                max_evals,
                run_evals,
                run_gens,
                par_update: false,
                def,
                seed,
            };
            let big = matches!(c.strat, Strat::Ipop(Some(3)) | Strat::Bipop(_, Some(3)));
            let mid = matches!(c.strat, Strat::Ipop(Some(2)) | Strat::Bipop(_, Some(2)) | Strat::Ipop(None) | Strat::Bipop(_, None));
            let unlimited = c.run_evals.is_none() && c.run_gens.map_or(true, |g| g > 4);
            if big || (mid && unlimited) {
                c.max_evals = Some(c.max_evals.unwrap_or(8000).min(8000));
            }
            if let (true, Strat::Local(n, _)) = (c.run_evals.is_none() && c.run_gens.is_none(), &mut c.strat) {
                *n = (*n).min(4);
            }
            c
        })
        .boxed()
}
