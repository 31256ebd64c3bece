//! C04: maximising f is minimising -f.
use crate::cfg::{nans, marathon, wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, Obj, Rec};
use crate::rec::{drive, ind_eq_neg, Stop, Trace};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, fser, vec_bits_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    /// objective values by call index instead of the objective (cyclic)
    #[serde(with = "fser::vec")]
    script: Vec<f64>,
    go_on: bool,
    #[serde(default)]
    nan: Vec<usize>,
}

pub fn script_values() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        4 => Just(vec![]),
        1 => prop::collection::vec(-4.0..4.0f64, 5..80),
        1 => prop::collection::vec((-3..4i32).prop_map(|x| x as f64), 5..80),
        1 => prop::collection::vec(prop_oneof![6 => -1.0..1.0f64, 1 => Just(f64::INFINITY), 1 => Just(f64::NEG_INFINITY), 1 => Just(0.0), 1 => Just(-0.0)], 5..60),
    ]
    .boxed()
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(10, 24)),
        any_obj(),
        prop_oneof![3 => 1..25usize, 1 => 25..120usize],
        script_values(),
        any::<bool>(),
        prop::option::weighted(0.3, -2.0..5.0f64),
        prop::option::weighted(0.3, 0.0..1.0f64),
        prop::option::weighted(0.3, 0.0..1.0f64),
        prop::option::weighted(0.3, 0.0..1.0f64),
        prop::option::weighted(0.4, 0..12usize),
        (marathon(), nans()),
    )
        .prop_map(|(mut cfg, obj, mut gens, script, mut go_on, ft, tf, tfr, tfh, ts, (long, nan))| {
            if let Some(g) = long {
                cfg.shrink_for_marathon();
                gens = g;
                go_on = true;
            }
            cfg.fun_target = ft;
            cfg.tol_fun = tf;
            cfg.tol_fun_rel = tfr;
            cfg.tol_fun_hist = tfh;
            cfg.tol_stagnation = ts;
            Case { cfg, obj, gens, script, go_on, nan }
        })
        .boxed()
}

/// Equality up to the sign of objective values
pub fn dual_diff(a: &Trace, b: &Trace) -> Option<String> {
    for (g, (x, y)) in a.gens.iter().zip(&b.gens).enumerate() {
        let g = g + 1;
        if x.calls.len() != y.calls.len() {
            return Some(format!("generation {}: {} vs {} evaluations", g, x.calls.len(), y.calls.len()));
        }
        for (p, q) in x.calls.iter().zip(&y.calls) {
            if !vec_bits_eq(&p.x, &q.x) {
                return Some(format!("generation {}: point {:?} vs {:?}", g, p.x, q.x));
            }
            if !bits_eq(p.v, -q.v) && !(p.v.is_nan() && q.v.is_nan()) {
                return Some(format!("generation {}: value {:e} vs {:e}", g, p.v, q.v));
            }
        }
        if let Some(d) = x.after.diff_state(&y.after) {
            return Some(format!("generation {}: {}", g, d));
        }
        if !ind_eq_neg(&x.after.cur, &y.after.cur) {
            return Some(format!("generation {}: current best {:?} vs {:?}", g, x.after.cur, y.after.cur));
        }
        if !ind_eq_neg(&x.after.best, &y.after.best) {
            return Some(format!("generation {}: overall best {:?} vs {:?}", g, x.after.best, y.after.best));
        }
        match (&x.td, &y.td) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                if p.reasons != q.reasons {
                    return Some(format!("generation {}: reasons {:?} vs {:?}", g, p.reasons, q.reasons));
                }
                if !ind_eq_neg(&p.cur, &q.cur) || !ind_eq_neg(&p.best, &q.best) || !vec_bits_eq(&p.final_mean, &q.final_mean) {
                    return Some(format!("generation {}: results {:?} vs {:?}", g, p, q));
                }
            }
            (p, q) => return Some(format!("generation {}: termination {:?} vs {:?}", g, p, q)),
        }
    }
    if a.gens.len() != b.gens.len() {
        return Some(format!("{} vs {} generations", a.gens.len(), b.gens.len()));
    }
    None
}

fn check(c: &Case) -> CheckResult {
    let stop = if c.go_on { Stop::Never } else { Stop::Terminated };
    let mk = |neg: bool| {
        let r = Rec::new(&c.obj, &new_log()).negate(neg).nan_at(c.nan.clone());
        if c.script.is_empty() {
            r
        } else {
            r.script(c.script.clone())
        }
    };
    let mut a = c.cfg.clone();
    a.max = false;
    let mut b = c.cfg.clone();
    b.max = true;
    b.fun_target = a.fun_target.map(|t| -t);
    let ta = drive(&a, mk(false), c.gens, stop);
    let tb = drive(&b, mk(true), c.gens, stop);
    if let Some(d) = dual_diff(&ta, &tb) {
        fail!("minimising f vs maximising -f: {}", d);
    }
    let term = ta.gens.iter().any(|g| g.td.is_some());
    let mut o = Outcome::new(ta.gens.len() >= 2)
        .class(if c.script.is_empty() { c.obj.label() } else { "scripted" })
        .class(if term { "terminated" } else { "running" })
        .count("generations", ta.gens.len() as u64)
        .note(format!("{} generations mirrored", ta.gens.len()));
    for g in &ta.gens {
        if let Some(t) = &g.td {
            for r in &t.reasons {
                o = o.class(format!("reason {:?}", r));
            }
            break;
        }
    }
    Ok(o)
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "a generated configuration is run minimising f and maximising -f (target negated), f being a generated function or a generated sequence of values with ties and infinities; non-trivial when at least two generations were compared bit for bit.",
        assumptions: vec![],
        sections: vec![Box::new(Section { name: "mirror", quick: 12000, thorough: 300000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
