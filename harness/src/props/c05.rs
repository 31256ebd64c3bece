//! C05: best individuals.
use super::c04::script_values;
use crate::cfg::{marathon, nans, wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Call, Obj, Rec};
use crate::rec::{snap, step, step_par, Snap};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{bits_eq, fser, vec_bits_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    #[serde(with = "fser::vec")]
    script: Vec<f64>,
    parallel: bool,
    whole: bool,
    #[serde(default)]
    nan: Vec<usize>,
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(8, 24)),
        any_obj(),
        prop_oneof![3 => 1..25usize, 1 => 25..150usize],
        script_values(),
        prop::bool::weighted(0.25),
        prop::bool::weighted(0.25),
        marathon(),
        nans(),
    )
        .prop_map(|(mut cfg, obj, mut gens, script, parallel, mut whole, long, nan)| {
            if let Some(g) = long {
                cfg.shrink_for_marathon();
                gens = g;
                whole = false;
            }
            let nan = if whole { vec![] } else { nan };
            Case { cfg, obj, gens, script, parallel, whole, nan }
        })
        .boxed()
}

fn better(max: bool, a: f64, b: f64) -> bool {
    if max {
        a > b
    } else {
        a < b
    }
}

fn best_value(max: bool, calls: &[Call]) -> f64 {
    calls
        .iter()
        .map(|c| c.v)
        .reduce(|a, b| if better(max, b, a) { b } else { a })
        .unwrap()
}

fn is_among(calls: &[Call], i: &(Vec<f64>, f64)) -> bool {
    calls.iter().any(|c| vec_bits_eq(&c.x, &i.0) && bits_eq(c.v, i.1))
}

fn check_bests(max: bool, all: &[Call], last: &[Call], s: &Snap, what: &str) -> Result<(), String> {
    let cur = s.cur.as_ref().ok_or(format!("{}: no current best individual", what))?;
    let best = s.best.as_ref().ok_or(format!("{}: no overall best individual", what))?;
    let want = best_value(max, last);
    ensure!(
        bits_eq(cur.1, want),
        "{}: current best value {:e}, the generation's best is {:e}",
        what,
        cur.1,
        want
    );
    ensure!(is_among(last, cur), "{}: current best {:?} is not an evaluated point of the generation", what, cur);
    let want = best_value(max, all);
    ensure!(
        bits_eq(best.1, want),
        "{}: overall best value {:e}, the best of {} evaluations is {:e}",
        what,
        best.1,
        all.len(),
        want
    );
    ensure!(is_among(all, best), "{}: overall best {:?} was never evaluated", what, best);
    Ok(())
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let mut rec = Rec::new(&c.obj, &log).nan_at(c.nan.clone());
    if !c.script.is_empty() {
        rec = rec.script(c.script.clone());
    }
    let max = c.cfg.max;
    let mut improved = 0;
    let mut worse = 0;
    if c.whole {
        let mut cfg = c.cfg.clone();
        cfg.max_gens = Some(c.gens);
        let mut o = cfg.options().build(rec).unwrap();
        let t = if c.parallel { o.run_parallel() } else { o.run() };
        let calls = take(&log);
        let lam = cfg.lam();
        let last = &calls[calls.len() - lam..];
        let s = snap(&o);
        check_bests(max, &calls, last, &s, "run")?;
        let t = crate::rec::td(&t);
        ensure!(crate::rec::ind_eq(&t.cur, &s.cur), "returned current best {:?}, getter {:?}", t.cur, s.cur);
        ensure!(crate::rec::ind_eq(&t.best, &s.best), "returned overall best {:?}, getter {:?}", t.best, s.best);
        improved = 1;
        worse = 1;
    } else {
        let mut o = c.cfg.options().build(rec).unwrap();
        let s = snap(&o);
        ensure!(s.cur.is_none() && s.best.is_none(), "best individuals before the first generation");
        for g in 0..c.gens {
            let Snap { best: prev, cur: pcur, .. } = snap(&o);
            let r = if c.parallel { step_par(&mut o, &log) } else { step(&mut o, &log) };
            if r.calls.iter().any(|c| c.v.is_nan()) {
                if c.nan.is_empty() {
                    // the run diverged to non-finite points
                    break;
                }
                // not a completed generation
                ensure!(
                    crate::rec::ind_eq(&prev, &r.after.best) && crate::rec::ind_eq(&pcur, &r.after.cur),
                    "generation {}: bests {:?} {:?} after a generation with an invalid value, {:?} {:?} before",
                    g + 1,
                    r.after.cur,
                    r.after.best,
                    pcur,
                    prev
                );
                continue;
            }
            // the best so far (known to have been evaluated) and the latest generation
            let mut all: Vec<Call> = prev.iter().map(|(x, v)| Call { x: x.clone(), v: *v }).collect();
            all.extend(r.calls.iter().cloned());
            check_bests(max, &all, &r.calls, &r.after, &format!("generation {}", g + 1))?;
            let now = r.after.best.clone().unwrap();
            if let Some(p) = prev {
                if better(max, now.1, p.1) {
                    improved += 1;
                } else {
                    worse += 1;
                    ensure!(
                        bits_eq(now.1, p.1),
                        "generation {}: overall best went from {:e} to {:e}",
                        g + 1,
                        p.1,
                        now.1
                    );
                    ensure!(
                        vec_bits_eq(&now.0, &p.0),
                        "generation {}: overall best {:?} was replaced by the equally good {:?}",
                        g + 1,
                        p,
                        now
                    );
                }
            }
            if let Some(t) = &r.td {
                ensure!(
                    crate::rec::ind_eq(&t.cur, &r.after.cur) && crate::rec::ind_eq(&t.best, &r.after.best),
                    "generation {}: returned bests {:?} {:?}, getters {:?} {:?}",
                    g + 1,
                    t.cur,
                    t.best,
                    r.after.cur,
                    r.after.best
                );
                if t.reasons.contains(&cmaes::TerminationReason::PosDefCov) {
                    break;
                }
            }
        }
    }
    Ok(Outcome::new(improved > 0 && worse > 0)
        .class(if c.script.is_empty() { c.obj.label() } else { "scripted" })
        .class(if c.parallel { "parallel" } else { "sequential" })
        .class(if max { "max" } else { "min" })
        .count("improvements", improved)
        .note(format!("{} improvements, {} generations without", improved, worse)))
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "a generated history (function or scripted values with ties and infinities, sequential or parallel, both modes) is recorded; bests are recomputed from every recorded evaluation after each generation; non-trivial when the overall best improved in one generation and did not in another.",
        assumptions: vec!["which of several equally good points of one generation is reported is left open"],
        sections: vec![Box::new(Section { name: "history", quick: 16000, thorough: 400000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
