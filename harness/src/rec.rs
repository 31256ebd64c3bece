//! Snapshots of an optimizer's observable state and driven histories.
use crate::cfg::Cfg;
use crate::obj::{take, Call, Log, Rec};
use crate::util::{bits_eq, vec_bits_eq};
use cmaes::termination::TerminationReason;
use cmaes::{ObjectiveFunction, ParallelObjectiveFunction, TerminationData, CMAES};

#[derive(Clone, Debug)]
pub struct Snap {
    pub gen: usize,
    pub evals: usize,
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub cov: Vec<f64>,
    pub eig: Vec<f64>,
    pub ratio: f64,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
}

pub fn ind(i: Option<&cmaes::Individual>) -> Option<(Vec<f64>, f64)> {
    i.map(|i| (i.point.as_slice().to_vec(), i.value))
}

pub fn snap<F>(c: &CMAES<F>) -> Snap {
    Snap {
        gen: c.generation(),
        evals: c.function_evals(),
        mean: c.mean().as_slice().to_vec(),
        sigma: c.sigma(),
        cov: c.covariance_matrix().as_slice().to_vec(),
        eig: c.eigenvalues().as_slice().to_vec(),
        ratio: c.axis_ratio(),
        cur: ind(c.current_best_individual()),
        best: ind(c.overall_best_individual()),
    }
}

pub fn ind_eq(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => vec_bits_eq(&a.0, &b.0) && bits_eq(a.1, b.1),
        _ => false,
    }
}

/// Individual equality with objective values negated on one side
pub fn ind_eq_neg(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => vec_bits_eq(&a.0, &b.0) && bits_eq(a.1, -b.1),
        _ => false,
    }
}

impl Snap {
    /// First differing field of two snapshots (bit-exact), if any
    pub fn diff_state(&self, o: &Snap) -> Option<String> {
        if self.gen != o.gen {
            return Some(format!("generation {} vs {}", self.gen, o.gen));
        }
        if self.evals != o.evals {
            return Some(format!("function_evals {} vs {}", self.evals, o.evals));
        }
        if !vec_bits_eq(&self.mean, &o.mean) {
            return Some(format!("mean {:?} vs {:?}", self.mean, o.mean));
        }
        if !bits_eq(self.sigma, o.sigma) {
            return Some(format!("sigma {:e} vs {:e}", self.sigma, o.sigma));
        }
        if !vec_bits_eq(&self.cov, &o.cov) {
            return Some(format!("covariance {:?} vs {:?}", self.cov, o.cov));
        }
        if !vec_bits_eq(&self.eig, &o.eig) {
            return Some(format!("eigenvalues {:?} vs {:?}", self.eig, o.eig));
        }
        if !bits_eq(self.ratio, o.ratio) {
            return Some(format!("axis ratio {:e} vs {:e}", self.ratio, o.ratio));
        }
        None
    }
    pub fn diff(&self, o: &Snap) -> Option<String> {
        if let Some(d) = self.diff_state(o) {
            return Some(d);
        }
        if !ind_eq(&self.cur, &o.cur) {
            return Some(format!("current best {:?} vs {:?}", self.cur, o.cur));
        }
        if !ind_eq(&self.best, &o.best) {
            return Some(format!("overall best {:?} vs {:?}", self.best, o.best));
        }
        None
    }
}

#[derive(Clone, Debug)]
pub struct Td {
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
    pub final_mean: Vec<f64>,
    pub reasons: Vec<TerminationReason>,
}

pub fn td(t: &TerminationData) -> Td {
    Td {
        cur: ind(t.current_best.as_ref()),
        best: ind(t.overall_best.as_ref()),
        final_mean: t.final_mean.as_slice().to_vec(),
        reasons: t.reasons.clone(),
    }
}

impl Td {
    pub fn diff(&self, o: &Td) -> Option<String> {
        if self.reasons != o.reasons {
            return Some(format!("reasons {:?} vs {:?}", self.reasons, o.reasons));
        }
        if !ind_eq(&self.cur, &o.cur) {
            return Some(format!("current best {:?} vs {:?}", self.cur, o.cur));
        }
        if !ind_eq(&self.best, &o.best) {
            return Some(format!("overall best {:?} vs {:?}", self.best, o.best));
        }
        if !vec_bits_eq(&self.final_mean, &o.final_mean) {
            return Some(format!("final mean {:?} vs {:?}", self.final_mean, o.final_mean));
        }
        None
    }
}

pub fn opt_td_diff(a: &Option<Td>, b: &Option<Td>) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(a), Some(b)) => a.diff(b),
        (a, b) => Some(format!("termination {:?} vs {:?}", a, b)),
    }
}

/// One driven generation
#[derive(Clone, Debug)]
pub struct Gen {
    pub calls: Vec<Call>,
    pub after: Snap,
    pub td: Option<Td>,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub first: Snap,
    pub gens: Vec<Gen>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    /// Stop after the first termination
    Terminated,
    /// Keep calling next() whatever it returns
    Never,
}

pub fn step<F: ObjectiveFunction>(c: &mut CMAES<F>, log: &Log) -> Gen {
    let t = c.next();
    Gen { calls: take(log), after: snap(c), td: t.as_ref().map(td) }
}

pub fn step_par<F: ParallelObjectiveFunction>(c: &mut CMAES<F>, log: &Log) -> Gen {
    let t = c.next_parallel();
    Gen { calls: take(log), after: snap(c), td: t.as_ref().map(td) }
}

/// Drives up to `gens` generations with `next`.
pub fn drive(cfg: &Cfg, rec: Rec, gens: usize, stop: Stop) -> Trace {
    let log = rec.log.clone();
    let mut c = cfg.options().build(rec).expect("valid options");
    drive_built(&mut c, &log, gens, stop)
}

pub fn drive_built<F: ObjectiveFunction>(c: &mut CMAES<F>, log: &Log, gens: usize, stop: Stop) -> Trace {
    let mut t = Trace { first: snap(c), gens: vec![] };
    for _ in 0..gens {
        let g = step(c, log);
        let end = g.td.is_some();
        t.gens.push(g);
        if end && stop == Stop::Terminated {
            break;
        }
    }
    t
}

pub fn calls_diff(a: &[Call], b: &[Call]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} vs {} evaluations", a.len(), b.len()));
    }
    for (i, (p, q)) in a.iter().zip(b).enumerate() {
        if !vec_bits_eq(&p.x, &q.x) {
            return Some(format!("evaluation {}: point {:?} vs {:?}", i, p.x, q.x));
        }
        if !bits_eq(p.v, q.v) {
            return Some(format!("evaluation {}: value {:e} vs {:e}", i, p.v, q.v));
        }
    }
    None
}

impl Trace {
    /// Bit-exact comparison
    pub fn diff(&self, o: &Trace) -> Option<String> {
        if let Some(d) = self.first.diff(&o.first) {
            return Some(format!("initial state: {}", d));
        }
        for (g, (a, b)) in self.gens.iter().zip(&o.gens).enumerate() {
            if let Some(d) = calls_diff(&a.calls, &b.calls) {
                return Some(format!("generation {}: {}", g + 1, d));
            }
            if let Some(d) = a.after.diff(&b.after) {
                return Some(format!("generation {}: {}", g + 1, d));
            }
            if let Some(d) = opt_td_diff(&a.td, &b.td) {
                return Some(format!("generation {}: {}", g + 1, d));
            }
        }
        if self.gens.len() != o.gens.len() {
            return Some(format!("{} vs {} generations", self.gens.len(), o.gens.len()));
        }
        None
    }
    pub fn evals(&self) -> u64 {
        self.gens.iter().map(|g| g.calls.len() as u64).sum()
    }
}
