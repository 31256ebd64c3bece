//! Objective functions used as test inputs (pure functions of the point) and a recording wrapper.
use crate::util::{fnv, fser, mix};
use cmaes::{DVector, ObjectiveFunction, ParallelObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Sphere,
    /// sum 10^(e*i/(n-1)) x_i^2
    Ellipsoid(i32),
    Rosenbrock,
    Rastrigin,
    Linear,
    Abs,
    /// one value everywhere
    Const,
    /// floor(sphere / q): many exact ties
    Step(i32),
    /// sphere, +inf where x_0 > 0.3 (shifted coordinates)
    InfRegion,
    /// sphere, f64::MAX (of the sign of the scale) where x_0 > 0.3: the usual penalty
    MaxRegion,
    /// sphere, 0 or -0 (by the bits of the point) where it is below 0.5 per coordinate
    Zeros(u64),
    /// sphere, -inf in a small ball
    NegInf,
    /// pseudo-random in [-1,1) by the bits of the point
    Hash(u64),
    /// sphere plus pseudo-random noise
    Noisy(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Obj {
    pub kind: Kind,
    /// optimum offset, same in each coordinate
    #[serde(with = "fser")]
    pub shift: f64,
    #[serde(with = "fser")]
    pub scale: f64,
    #[serde(with = "fser")]
    pub offset: f64,
}

impl Obj {
    pub fn new(kind: Kind) -> Self {
        Obj { kind, shift: 0.0, scale: 1.0, offset: 0.0 }
    }
    pub fn eval(&self, x: &[f64]) -> f64 {
        let n = x.len();
        let s = |i: usize| x[i] - self.shift;
        let sphere = || (0..n).map(|i| s(i) * s(i)).sum::<f64>();
        let v = match &self.kind {
            Kind::Sphere => sphere(),
            Kind::Ellipsoid(e) => (0..n)
                .map(|i| {
                    let w = if n > 1 { *e as f64 * i as f64 / (n - 1) as f64 } else { 0.0 };
                    10f64.powf(w) * s(i) * s(i)
                })
                .sum::<f64>(),
            Kind::Rosenbrock => {
                if n == 1 {
                    sphere()
                } else {
                    (0..n - 1)
                        .map(|i| {
                            let (a, b) = (s(i), s(i + 1));
                            100.0 * (b - a * a) * (b - a * a) + (1.0 - a) * (1.0 - a)
                        })
                        .sum::<f64>()
                }
            }
            Kind::Rastrigin => {
                10.0 * n as f64
                    + (0..n)
                        .map(|i| s(i) * s(i) - 10.0 * (2.0 * std::f64::consts::PI * s(i)).cos())
                        .sum::<f64>()
            }
            Kind::Linear => (0..n).map(|i| s(i) * (1.0 + i as f64 * 0.1)).sum::<f64>(),
            Kind::Abs => (0..n).map(|i| s(i).abs()).sum::<f64>(),
            Kind::Const => 1.0,
            Kind::Step(q) => (sphere() * *q as f64).floor(),
            Kind::InfRegion => {
                if s(0) > 0.3 {
                    f64::INFINITY
                } else {
                    sphere()
                }
            }
            Kind::MaxRegion => {
                if s(0) > 0.3 {
                    return f64::MAX.copysign(self.scale);
                }
                sphere()
            }
            Kind::Zeros(h) => {
                let v = sphere();
                if v < 0.5 * n as f64 {
                    return 0f64.copysign(hash01(x, *h) - 0.5);
                }
                v
            }
            Kind::NegInf => {
                let v = sphere();
                if v < 0.01 * n as f64 {
                    f64::NEG_INFINITY
                } else {
                    v
                }
            }
            Kind::Hash(h) => hash01(x, *h) * 2.0 - 1.0,
            Kind::Noisy(h) => sphere() + hash01(x, *h),
        };
        self.scale * v + self.offset
    }
    pub fn label(&self) -> &'static str {
        match self.kind {
            Kind::Sphere => "sphere",
            Kind::Ellipsoid(_) => "ellipsoid",
            Kind::Rosenbrock => "rosenbrock",
            Kind::Rastrigin => "rastrigin",
            Kind::Linear => "linear",
            Kind::Abs => "abs",
            Kind::Const => "const",
            Kind::Step(_) => "step",
            Kind::InfRegion => "inf-region",
            Kind::MaxRegion => "max-region",
            Kind::Zeros(_) => "zeros",
            Kind::NegInf => "neg-inf",
            Kind::Hash(_) => "hash",
            Kind::Noisy(_) => "noisy",
        }
    }
}

pub fn hash01(x: &[f64], h: u64) -> f64 {
    let mut b = Vec::with_capacity(x.len() * 8 + 8);
    b.extend_from_slice(&h.to_le_bytes());
    for v in x {
        b.extend_from_slice(&v.to_bits().to_le_bytes());
    }
    (mix(fnv(&b)) >> 11) as f64 / (1u64 << 53) as f64
}

/// Smooth, tie-free kinds
pub fn smooth_kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        Just(Kind::Sphere),
        (0..5i32).prop_map(Kind::Ellipsoid),
        Just(Kind::Rosenbrock),
        Just(Kind::Rastrigin),
        Just(Kind::Linear),
        Just(Kind::Abs),
        any::<u64>().prop_map(Kind::Noisy),
        any::<u64>().prop_map(Kind::Hash),
    ]
    .boxed()
}

pub fn any_kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        6 => smooth_kind(),
        1 => Just(Kind::Const),
        1 => (1..4i32).prop_map(Kind::Step),
        1 => Just(Kind::InfRegion),
        1 => Just(Kind::MaxRegion),
        1 => any::<u64>().prop_map(Kind::Zeros),
        1 => Just(Kind::NegInf),
    ]
    .boxed()
}

pub fn obj_of(kind: BoxedStrategy<Kind>) -> BoxedStrategy<Obj> {
    (kind, prop_oneof![3 => Just(0.0), 1 => -3.0..3.0f64], prop_oneof![3 => Just(1.0), 1 => Just(1e-6), 1 => Just(1e9), 1 => Just(-1.0)],
     prop_oneof![3 => Just(0.0), 1 => -10.0..10.0f64])
        .prop_map(|(kind, shift, scale, offset)| Obj { kind, shift, scale, offset })
        .boxed()
}

pub fn any_obj() -> BoxedStrategy<Obj> {
    obj_of(any_kind())
}
pub fn smooth_obj() -> BoxedStrategy<Obj> {
    obj_of(smooth_kind())
}

/// One evaluation: the point as received and the value returned.
#[derive(Clone, Debug)]
pub struct Call {
    pub x: Vec<f64>,
    pub v: f64,
}

pub type Log = Arc<Mutex<Vec<Call>>>;

pub fn new_log() -> Log {
    Arc::new(Mutex::new(vec![]))
}
pub fn take(log: &Log) -> Vec<Call> {
    std::mem::take(&mut *log.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Recording objective. `script` (if any) gives the value of the i-th call; `nan_at` makes the
/// listed calls return NaN.
#[derive(Clone)]
pub struct Rec {
    pub obj: Obj,
    pub log: Log,
    pub script: Option<Arc<Vec<f64>>>,
    pub nan_at: Arc<Vec<usize>>,
    /// NaN at a pseudo-random share of the points, chosen by a hash of the point
    pub nan_hash: Option<(u64, f64)>,
    pub calls: Arc<Mutex<usize>>,
    pub negate: bool,
}

impl Rec {
    pub fn new(obj: &Obj, log: &Log) -> Self {
        Rec {
            obj: obj.clone(),
            log: log.clone(),
            script: None,
            nan_at: Arc::new(vec![]),
            nan_hash: None,
            calls: Arc::new(Mutex::new(0)),
            negate: false,
        }
    }
    pub fn script(mut self, s: Vec<f64>) -> Self {
        self.script = Some(Arc::new(s));
        self
    }
    pub fn nan_at(mut self, s: Vec<usize>) -> Self {
        self.nan_at = Arc::new(s);
        self
    }
    pub fn negate(mut self, n: bool) -> Self {
        self.negate = n;
        self
    }
    pub fn ncalls(&self) -> usize {
        *self.calls.lock().unwrap()
    }
    pub fn call(&self, x: &DVector<f64>) -> f64 {
        let i = {
            let mut c = self.calls.lock().unwrap_or_else(|e| e.into_inner());
            *c += 1;
            *c - 1
        };
        let mut v = if self.nan_at.contains(&i) || self.nan_hash.map_or(false, |(h, p)| hash01(x.as_slice(), h) < p) {
            f64::NAN
        } else {
            match &self.script {
                Some(s) if !s.is_empty() => s[i % s.len()],
                _ => self.obj.eval(x.as_slice()),
            }
        };
        if self.negate {
            v = -v;
        }
        self.log
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push(Call { x: x.as_slice().to_vec(), v });
        v
    }
}

impl ObjectiveFunction for Rec {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}
impl ParallelObjectiveFunction for Rec {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}
