//! C25: objective function adapters are transparent.
use crate::cfg::{wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Call, Log, Obj, Rec};
use crate::rec::{calls_diff, snap, td, Snap, Td};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, vec_bits_eq};
use cmaes::objective_function::Scale;
use cmaes::{DVector, ObjectiveFunction, ParallelObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// A user type with its own state, used by value and by reference
struct User(Rec, usize);
impl ObjectiveFunction for User {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.1 += 1;
        self.0.call(x)
    }
}
impl<'a> ObjectiveFunction for &'a mut User {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        User::evaluate(*self, x)
    }
}
impl ParallelObjectiveFunction for User {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.0.call(x)
    }
}
impl<'a> ParallelObjectiveFunction for &'a User {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        User::evaluate_parallel(*self, x)
    }
}

thread_local! {
    static FNPTR: RefCell<Option<Rec>> = const { RefCell::new(None) };
}
static FNPTR_PAR: std::sync::Mutex<Option<Rec>> = std::sync::Mutex::new(None);
fn pointer_target(x: &DVector<f64>) -> f64 {
    FNPTR.with(|r| r.borrow().as_ref().unwrap().call(x))
}
fn pointer_target_par(x: &DVector<f64>) -> f64 {
    let r = FNPTR_PAR.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap();
    r.call(x)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    /// values by call number instead of by point (sequential variants only)
    #[serde(with = "crate::util::fser::vec")]
    script: Vec<f64>,
    #[serde(with = "crate::util::fser::vec")]
    factors: Vec<f64>,
    via_run: bool,
}

fn factor() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => 0.01..10.0f64,
        1 => -3.0..3.0f64,
        1 => (-40..40i32).prop_map(|e| 2f64.powi(e)),
        1 => Just(1.0),
        1 => Just(0.0),
    ]
    .boxed()
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -10.0..10.0f64,
        1 => Just(f64::INFINITY),
        1 => Just(-0.0),
        1 => Just(f64::MAX),
        1 => Just(5e-324),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, gens) = if t == Tier::Quick { (8usize, 25usize) } else { (20, 120) };
    with_cons(wide_cfg(dim, 20))
        .prop_flat_map(move |cfg| {
            let d = cfg.dim();
            (
                Just(cfg),
                any_obj(),
                1..gens,
                prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(value(), 5..40)],
                prop::collection::vec(factor(), d),
                any::<bool>(),
            )
        })
        .prop_map(|(cfg, obj, gens, script, factors, via_run)| Case { cfg, obj, gens, script, factors, via_run })
        .boxed()
}

struct Out {
    calls: Vec<Call>,
    snaps: Vec<Snap>,
    td: Option<Td>,
}

fn seq<F: ObjectiveFunction>(c: &Case, log: &Log, f: F) -> Out {
    let mut cfg = c.cfg.clone();
    cfg.max_gens = Some(c.gens);
    let mut s = cfg.options().build(f).expect("valid options");
    let mut snaps = vec![snap(&s)];
    let mut t = None;
    if c.via_run {
        t = Some(td(&s.run()));
    } else {
        while t.is_none() {
            t = s.next().as_ref().map(td);
            snaps.push(snap(&s));
        }
    }
    snaps.push(snap(&s));
    Out { calls: take(log), snaps, td: t }
}

fn par<F: ParallelObjectiveFunction>(c: &Case, log: &Log, f: F) -> Out {
    let mut cfg = c.cfg.clone();
    cfg.max_gens = Some(c.gens);
    let mut s = cfg.options().build(f).expect("valid options");
    let mut snaps = vec![snap(&s)];
    let mut t = None;
    if c.via_run {
        t = Some(td(&s.run_parallel()));
    } else {
        while t.is_none() {
            t = s.next_parallel().as_ref().map(td);
            snaps.push(snap(&s));
        }
    }
    snaps.push(snap(&s));
    // the order of parallel evaluations is not defined
    let mut calls = take(log);
    calls.sort_by(|a, b| {
        let k = |c: &Call| (c.x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.v.to_bits());
        k(a).cmp(&k(b))
    });
    Out { calls, snaps, td: t }
}

fn cmp(name: &str, a: &Out, b: &Out) -> Result<(), String> {
    if let Some(d) = calls_diff(&a.calls, &b.calls) {
        return Err(format!("{}: {}", name, d));
    }
    for (i, (p, q)) in a.snaps.iter().zip(&b.snaps).enumerate() {
        if let Some(d) = p.diff(q) {
            return Err(format!("{}: state {}: {}", name, i, d));
        }
    }
    if a.snaps.len() != b.snaps.len() {
        return Err(format!("{}: {} vs {} generations", name, a.snaps.len(), b.snaps.len()));
    }
    if let Some(d) = crate::rec::opt_td_diff(&a.td, &b.td) {
        return Err(format!("{}: {}", name, d));
    }
    Ok(())
}

fn check_seq(c: &Case) -> CheckResult {
    let log = new_log();
    let rec = || {
        let r = Rec::new(&c.obj, &log);
        if c.script.is_empty() {
            r
        } else {
            r.script(c.script.clone())
        }
    };
    let base = seq(c, &log, rec());
    macro_rules! same {
        ($name:expr, $f:expr) => {{
            let o = seq(c, &log, $f);
            if let Err(e) = cmp($name, &base, &o) {
                fail!("{}", e);
            }
        }};
    }
    {
        let r = rec();
        same!("closure", |x: &DVector<f64>| r.call(x));
        let r = rec();
        let mut n = 0usize;
        same!("capturing closure", |x: &DVector<f64>| {
            n += 1;
            r.call(x)
        });
        ensure!(n == base.calls.len(), "a closure counted {} of {} calls", n, base.calls.len());
        let r = rec();
        let mut n = 0usize;
        let mut f = |x: &DVector<f64>| {
            n += 1;
            r.call(x)
        };
        same!("&mut closure", &mut f);
        ensure!(n == base.calls.len(), "a borrowed closure counted {} of {} calls", n, base.calls.len());
    }
    let bx: Box<dyn ObjectiveFunction> = Box::new(rec());
    same!("boxed object", bx);
    let inner: Box<dyn ObjectiveFunction> = Box::new(rec());
    let bx: Box<dyn ObjectiveFunction> = Box::new(inner);
    same!("doubly boxed object", bx);
    let r = rec();
    let bx: Box<dyn ObjectiveFunction> = Box::new(move |x: &DVector<f64>| r.call(x));
    same!("boxed closure as object", bx);
    let r = rec();
    let bx: Box<dyn FnMut(&DVector<f64>) -> f64> = Box::new(move |x: &DVector<f64>| r.call(x));
    same!("boxed closure", bx);
    FNPTR.with(|p| *p.borrow_mut() = Some(rec()));
    same!("function pointer", pointer_target as fn(&DVector<f64>) -> f64);
    FNPTR.with(|p| *p.borrow_mut() = Some(rec()));
    same!("function", pointer_target);
    let mut u = User(rec(), 0);
    same!("&mut user type", &mut u);
    ensure!(u.1 == base.calls.len(), "the user type counted {} of {} calls", u.1, base.calls.len());
    same!("user type", User(rec(), 0));
    same!("Scale by one", Scale::new(rec(), vec![1.0; c.cfg.dim()]));

    // scaling adapters against a closure that multiplies itself
    let fac = c.factors.clone();
    let r = rec();
    let own = seq(c, &log, |x: &DVector<f64>| {
        let y = DVector::from_iterator(x.len(), x.iter().zip(&fac).map(|(a, b)| a * b));
        r.call(&y)
    });
    macro_rules! scaled {
        ($name:expr, $f:expr) => {{
            let o = seq(c, &log, $f);
            if let Err(e) = cmp($name, &own, &o) {
                fail!("{}", e);
            }
        }};
    }
    scaled!("Scale", Scale::new(rec(), fac.clone()));
    scaled!("Scale of a vector", Scale::new(rec(), DVector::from_vec(fac.clone())));
    let mut s = Scale::new(User(rec(), 0), fac.clone());
    scaled!("&mut Scale", &mut s);
    ensure!(vec_bits_eq(s.scales().as_slice(), &fac), "scales() = {:?} of {:?}", s.scales(), fac);
    ensure!(s.into_wrapped_function().1 == own.calls.len(), "the wrapped function lost its state");
    let s = Scale::new(rec(), fac.clone());
    let bx: Box<dyn ObjectiveFunction> = Box::new(s.clone());
    scaled!("boxed clone of Scale", bx);
    let bx: Box<dyn ObjectiveFunction> = Box::new(rec());
    scaled!("Scale of a box", Scale::new(bx, fac.clone()));
    let r = rec();
    scaled!("Scale of a closure", Scale::new(|x: &DVector<f64>| r.call(x), fac.clone()));
    scaled!("Scale in Scale", Scale::new(Scale::new(rec(), vec![1.0; fac.len()]), fac.clone()));
    scaled!("Scale around Scale", Scale::new(Scale::new(rec(), fac.clone()), vec![1.0; fac.len()]));
    let evals = base.calls.len() as u64;
    Ok(Outcome::new(evals > 0)
        .class(if c.script.is_empty() { c.obj.label() } else { "script" })
        .class(if c.via_run { "run" } else { "next" })
        .count("evaluations", evals * 24))
}

fn check_par(c: &Case) -> CheckResult {
    let c = &Case { script: vec![], ..c.clone() };
    let log = new_log();
    let rec = || Rec::new(&c.obj, &log);
    let base = par(c, &log, rec());
    macro_rules! same {
        ($name:expr, $f:expr) => {{
            let o = par(c, &log, $f);
            if let Err(e) = cmp($name, &base, &o) {
                fail!("{}", e);
            }
        }};
    }
    let r = rec();
    same!("closure (parallel)", |x: &DVector<f64>| r.call(x));
    let r = rec();
    let f = |x: &DVector<f64>| r.call(x);
    same!("& closure (parallel)", &f);
    let bx: Box<dyn ParallelObjectiveFunction> = Box::new(rec());
    same!("boxed object (parallel)", bx);
    let r = rec();
    let bx: Box<dyn ParallelObjectiveFunction> = Box::new(move |x: &DVector<f64>| r.call(x));
    same!("boxed closure as object (parallel)", bx);
    let inner: Box<dyn ParallelObjectiveFunction> = Box::new(rec());
    let bx: Box<dyn ParallelObjectiveFunction> = Box::new(inner);
    same!("doubly boxed object (parallel)", bx);
    *FNPTR_PAR.lock().unwrap_or_else(|e| e.into_inner()) = Some(rec());
    same!("function pointer (parallel)", pointer_target_par as fn(&DVector<f64>) -> f64);
    let u = User(rec(), 0);
    same!("& user type (parallel)", &u);
    ensure!(u.0.ncalls() == base.calls.len(), "the user type counted {} of {} calls", u.0.ncalls(), base.calls.len());
    same!("user type (parallel)", User(rec(), 0));
    let fac = c.factors.clone();
    let r = rec();
    let own = par(c, &log, |x: &DVector<f64>| {
        let y = DVector::from_iterator(x.len(), x.iter().zip(&fac).map(|(a, b)| a * b));
        r.call(&y)
    });
    macro_rules! scaled {
        ($name:expr, $f:expr) => {{
            let o = par(c, &log, $f);
            if let Err(e) = cmp($name, &own, &o) {
                fail!("{}", e);
            }
        }};
    }
    scaled!("Scale (parallel)", Scale::new(rec(), fac.clone()));
    let s = Scale::new(rec(), fac.clone());
    scaled!("& Scale (parallel)", &s);
    ensure!(s.into_wrapped_function().ncalls() == own.calls.len(), "the wrapped function lost its state");
    let bx: Box<dyn ParallelObjectiveFunction> = Box::new(Scale::new(rec(), fac.clone()));
    scaled!("boxed Scale (parallel)", bx);
    let bx: Box<dyn ParallelObjectiveFunction> = Box::new(rec());
    scaled!("Scale of a box (parallel)", Scale::new(bx, fac.clone()));
    let r = rec();
    scaled!("Scale of a closure (parallel)", Scale::new(|x: &DVector<f64>| r.call(x), fac.clone()));
    scaled!("Scale in Scale (parallel)", Scale::new(Scale::new(rec(), vec![1.0; fac.len()]), fac.clone()));
    // the two evaluation modes see the same points
    let r = rec();
    let mut sq = seq(c, &log, &mut |x: &DVector<f64>| r.call(x));
    sq.calls.sort_by(|a, b| {
        let k = |c: &Call| (c.x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.v.to_bits());
        k(a).cmp(&k(b))
    });
    if let Some(d) = calls_diff(&sq.calls, &base.calls) {
        fail!("sequential against parallel: {}", d);
    }
    Ok(Outcome::new(!base.calls.is_empty()).class(c.obj.label()).count("evaluations", base.calls.len() as u64 * 16))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Point {
    #[serde(with = "crate::util::fser::vec")]
    x: Vec<f64>,
    #[serde(with = "crate::util::fser::vec")]
    f1: Vec<f64>,
    #[serde(with = "crate::util::fser::vec")]
    f2: Vec<f64>,
    #[serde(with = "crate::util::fser::vec")]
    v: Vec<f64>,
}

fn wild() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -10.0..10.0f64,
        2 => any::<u64>().prop_map(f64::from_bits),
        1 => prop::sample::select(vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324]),
    ]
    .boxed()
}

fn point_strategy(t: Tier) -> BoxedStrategy<Point> {
    (0..if t == Tier::Quick { 12usize } else { 60 })
        .prop_flat_map(|d| {
            let v = || prop::collection::vec(wild(), d);
            (v(), v(), v(), prop::collection::vec(wild(), 4))
        })
        .prop_map(|(x, f1, f2, v)| Point { x, f1, f2, v })
        .boxed()
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn check_point(p: &Point) -> CheckResult {
    let x = DVector::from_vec(p.x.clone());
    let mul = |x: &[f64], f: &[f64]| x.iter().zip(f).map(|(a, b)| a * b).collect::<Vec<f64>>();
    let y1 = mul(&p.x, &p.f1);
    let y12 = mul(&y1, &p.f2);
    let obj = Obj::new(crate::obj::Kind::Sphere);
    let log = new_log();
    let rec = || Rec::new(&obj, &log).script(p.v.clone());
    let expect = |what: &str, got: f64, i: usize, y: &[f64]| -> Result<(), String> {
        let calls = take(&log);
        if calls.len() != 1 {
            return Err(format!("{}: {} inner calls", what, calls.len()));
        }
        let ok = calls[0].x.len() == y.len() && calls[0].x.iter().zip(y).all(|(a, b)| same(*a, *b));
        if !ok {
            return Err(format!("{}: the inner function got {:?}, expected {:?}", what, calls[0].x, y));
        }
        if !same(got, p.v[i]) {
            return Err(format!("{}: returned {:e} for {:e}", what, got, p.v[i]));
        }
        Ok(())
    };
    macro_rules! is {
        ($what:expr, $got:expr, $i:expr, $y:expr) => {{
            let got = $got;
            if let Err(e) = expect($what, got, $i, $y) {
                fail!("{}", e);
            }
        }};
    }
    let mut s = Scale::new(rec(), p.f1.clone());
    let sc = s.scale(&x);
    ensure!(sc.len() == y1.len() && sc.iter().zip(&y1).all(|(a, b)| same(*a, *b)), "scale() = {:?}, expected {:?}", sc, y1);
    ensure!(s.scales().len() == p.f1.len() && s.scales().iter().zip(&p.f1).all(|(a, b)| same(*a, *b)), "scales() changed");
    for i in 0..2 {
        is!("Scale", s.evaluate(&x), i, &y1);
    }
    is!("&mut Scale", (&mut s).evaluate(&x), 2, &y1);
    is!("Scale in parallel", s.evaluate_parallel(&x), 3, &y1);
    let s = Scale::new(rec(), p.f1.clone());
    is!("&Scale in parallel", (&s).evaluate_parallel(&x), 0, &y1);
    let mut o = Scale::new(s.clone(), p.f2.clone());
    // outer factors first
    let y21 = mul(&mul(&p.x, &p.f2), &p.f1);
    is!("nested Scale", o.evaluate(&x), 1, &y21);
    is!("nested Scale in parallel", o.evaluate_parallel(&x), 2, &y21);
    let f = Scale::new(Scale::new(rec(), p.f2.clone()), p.f1.clone());
    is!("nested Scale", f.evaluate_parallel(&x), 0, &y12);
    let mut b: Box<dyn ObjectiveFunction> = Box::new(rec());
    is!("Box", b.evaluate(&x), 0, &p.x);
    is!("Box", b.evaluate(&x), 1, &p.x);
    let b: Box<dyn ParallelObjectiveFunction> = Box::new(rec());
    is!("Box in parallel", b.evaluate_parallel(&x), 0, &p.x);
    is!("Box in parallel", b.evaluate_parallel(&x), 1, &p.x);
    let r = rec();
    let mut c = |x: &DVector<f64>| r.call(x);
    is!("closure", ObjectiveFunction::evaluate(&mut c, &x), 0, &p.x);
    is!("&mut closure", ObjectiveFunction::evaluate(&mut &mut c, &x), 1, &p.x);
    is!("closure in parallel", ParallelObjectiveFunction::evaluate_parallel(&c, &x), 2, &p.x);
    Ok(Outcome::new(!p.x.is_empty() && y1.iter().any(|v| v.is_finite() && !bits_eq(*v, 0.0)))
        .class(if p.x.iter().chain(&p.v).any(|v| !v.is_finite()) { "non-finite" } else { "finite" }))
}

pub fn property() -> Property {
    Property {
        id: "C25",
        rule: "a run is non-trivial if it evaluated something; a point if some scaled coordinate is finite and non-zero",
        assumptions: vec!["parallel evaluations are compared as multisets", "NaN payloads are not compared"],
        sections: vec![
            Box::new(Section { name: "sequential", quick: 4_000, thorough: 60_000, strategy, check: check_seq, fixed: no_fixed }),
            Box::new(Section { name: "parallel", quick: 2_000, thorough: 30_000, strategy, check: check_par, fixed: no_fixed }),
            Box::new(Section { name: "pointwise", quick: 20_000, thorough: 300_000, strategy: point_strategy, check: check_point, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
