//! C07: NaN objective values.
use super::c15::{tol, vals, Val};
use crate::cfg::{core_cfg, wide_cfg, with_cons, Cfg};
use crate::model::{check_generation, Model};
use crate::obj::{any_obj, new_log, take, Kind, Obj, Rec};
use crate::rec::{snap, step, step_par, td};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::termination::TerminationReason as R;
use cmaes::DVector;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    /// call indices (fractions of lambda*gens, in 1/1000) that return NaN
    nans: Vec<u16>,
    parallel: bool,
    whole: bool,
    neg_nan: bool,
    /// values by call (repeated), instead of the objective
    #[serde(default, with = "crate::util::fser::vec")]
    script: Vec<f64>,
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    (
        with_cons(wide_cfg(8, 24)),
        any_obj(),
        1..14usize,
        prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(0..1000u16, 1..5)],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.25),
        any::<bool>(),
        prop::option::weighted(0.2, 0..40usize),
        prop_oneof![
            2 => Just(vec![]),
            1 => prop::collection::vec(
                prop_oneof![
                    2 => Just(f64::INFINITY),
                    2 => Just(f64::NEG_INFINITY),
                    2 => -3.0..3.0f64,
                    1 => prop_oneof![Just(0.0), Just(-0.0), Just(f64::MAX), Just(f64::MIN), Just(5e-324)],
                ],
                1..60,
            ),
        ],
        prop::option::weighted(0.5, 0..12usize),
        prop_oneof![1 => 1..40usize, 2 => 30..200usize],
    )
        .prop_map(|(mut cfg, obj, gens, nans, parallel, whole, neg_nan, plot, script, stag, long)| {
            cfg.plot_gap = plot;
            cfg.tol_stagnation = stag;
            let gens = if script.is_empty() { gens } else { long };
            Case { cfg, obj, gens, nans, parallel, whole, neg_nan, script }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let lam = c.cfg.lam();
    let total = lam * c.gens;
    let nans: Vec<usize> = c.nans.iter().map(|f| *f as usize * total / 1000).collect();
    let rec = Rec::new(&c.obj, &log).nan_at(nans.clone()).negate(c.neg_nan).script(c.script.clone());
    let inf_kind = matches!(c.obj.kind, Kind::InfRegion | Kind::NegInf) || c.script.iter().any(|v| v.is_infinite());
    if c.whole {
        let mut cfg = c.cfg.clone();
        cfg.max_gens = Some(c.gens);
        let mut o = cfg.options().build(rec).unwrap();
        let t = td(&if c.parallel { o.run_parallel() } else { o.run() });
        let calls = take(&log);
        let s = snap(&o);
        if t.reasons.contains(&R::PosDefCov) {
            return Ok(Outcome::trivial());
        }
        let nan = calls.iter().any(|c| c.v.is_nan());
        if nan {
            ensure!(t.reasons == [R::InvalidFunctionValue], "NaN returned, reasons {:?}", t.reasons);
            let full = calls.iter().position(|c| c.v.is_nan()).unwrap() / lam;
            ensure!(s.gen == full, "generation() = {} when NaN appears in generation {}", s.gen, full + 1);
            ensure!(calls.len() <= (full + 1) * lam, "run went on for {} evaluations after NaN", calls.len() - full * lam);
            ensure!(s.best.is_some() == (full > 0), "overall best {:?} after {} complete generations", s.best, full);
        } else {
            ensure!(!t.reasons.contains(&R::InvalidFunctionValue), "InvalidFunctionValue without a NaN");
        }
        ensure!(
            crate::rec::ind_eq(&t.best, &s.best) && crate::rec::ind_eq(&t.cur, &s.cur),
            "returned bests differ from the getters"
        );
        ensure!(s.evals == calls.len(), "function_evals() = {} after {} evaluations", s.evals, calls.len());
        return Ok(Outcome::new(nan).class("run").class(if nan { "nan" } else { "no-nan" }));
    }
    let mut o = c.cfg.options().build(rec).unwrap();
    let mut model = Model::new(&c.cfg);
    let mut model_ok = true;
    let mut evals = 0;
    let (mut aborted, mut after_abort) = (0, 0);
    for g in 0..c.gens + c.nans.len() {
        let prior = snap(&o);
        let r = if c.parallel { step_par(&mut o, &log) } else { step(&mut o, &log) };
        evals += r.calls.len();
        let nan = r.calls.iter().any(|c| c.v.is_nan());
        let reasons = r.td.as_ref().map(|t| t.reasons.clone()).unwrap_or_default();
        if reasons.contains(&R::PosDefCov) {
            break;
        }
        ensure!(
            r.after.evals == evals,
            "call {}: function_evals() = {} after {} evaluations{}",
            g + 1,
            r.after.evals,
            evals,
            if nan { " (generation aborted by NaN)" } else { "" }
        );
        if nan {
            aborted += 1;
            ensure!(
                reasons == [R::InvalidFunctionValue],
                "call {}: NaN was returned but next() reports {:?}",
                g + 1,
                reasons
            );
            ensure!(r.calls.len() <= lam, "call {}: {} evaluations in a generation of {}", g + 1, r.calls.len(), lam);
            let mut p = prior.clone();
            p.evals = r.after.evals;
            if let Some(d) = p.diff(&r.after) {
                fail!("call {}: the generation aborted by NaN changed the state: {}", g + 1, d);
            }
            let t = r.td.unwrap();
            ensure!(
                crate::rec::ind_eq(&t.best, &prior.best)
                    && crate::rec::ind_eq(&t.cur, &prior.cur)
                    && crate::util::vec_bits_eq(&t.final_mean, &prior.mean),
                "call {}: results returned on NaN differ from the state: {:?}",
                g + 1,
                t
            );
        } else {
            if aborted > 0 {
                after_abort += 1;
            }
            ensure!(
                !reasons.contains(&R::InvalidFunctionValue),
                "call {}: InvalidFunctionValue without a NaN (values {:?})",
                g + 1,
                r.calls.iter().map(|c| c.v).collect::<Vec<_>>()
            );
            ensure!(r.calls.len() == lam, "call {}: {} evaluations in a generation of {}", g + 1, r.calls.len(), lam);
            ensure!(r.after.gen == prior.gen + 1, "call {}: generation() went from {} to {}", g + 1, prior.gen, r.after.gen);
            let b = r.after.best.as_ref().unwrap();
            ensure!(!b.1.is_nan() && !r.after.cur.as_ref().unwrap().1.is_nan(), "call {}: NaN best value", g + 1);
            ensure!(r.after.mean.iter().all(|m| !m.is_nan()), "call {}: NaN mean", g + 1);
            // the aborted generation left no trace in the hidden state either
            if model_ok {
                model_ok = !matches!(
                    check_generation(&mut model, &prior, &r.calls, &r.after, 1e-6)
                        .map_err(|e| format!("call {} ({} generations aborted before): {}", g + 1, aborted, e))?,
                    crate::model::Step::Skip
                );
            }
        }
    }
    Ok(Outcome::new(aborted > 0 || inf_kind)
        .class(if aborted > 0 { "nan" } else { "no-nan" })
        .class(if after_abort > 0 { "resumed" } else { "not-resumed" })
        .class(if inf_kind { "infinite-values" } else { "finite-values" })
        .class(if c.parallel { "parallel" } else { "sequential" })
        .count("aborted_generations", aborted)
        .count("generations_after_an_abort", after_abort)
        .note(format!("{} generations aborted, {} after", aborted, after_abort)))
}

/// The criteria based on objective values only see completed generations: a run with aborted
/// generations against one without, with the same values in the completed ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resume {
    cfg: Cfg,
    val: Val,
    gens: usize,
    /// (completed generations before the abort in 1/1000 of gens, individual that is NaN, plus 100 times
    /// the number of further aborts)
    aborts: Vec<(u16, u16)>,
    parallel: bool,
}

fn resume_strategy(t: Tier) -> BoxedStrategy<Resume> {
    (
        core_cfg(5, 14),
        vals(t).prop_filter("values by call only", |v| !matches!(v, Val::Obj(_) | Val::Wave { .. })),
        prop_oneof![2 => 1..60usize, 2 => 60..200usize],
        (tol(), tol(), tol()),
        prop_oneof![2 => Just(None), 5 => (0..30usize).prop_map(Some)],
        prop::option::of(-5.0..5.0f64),
        prop::collection::vec((0..1000u16, 0..300u16), 1..6),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(mut cfg, val, gens, (a, b, c), st, target, aborts, parallel)| {
            cfg.tol_fun = a;
            cfg.tol_fun_rel = b;
            cfg.tol_fun_hist = c;
            cfg.tol_stagnation = st;
            cfg.fun_target = target;
            Resume { cfg, val, gens, aborts, parallel }
        })
        .boxed()
}

fn resume_check(c: &Resume) -> CheckResult {
    let lam = c.cfg.lam();
    // one entry per completed generation: value-based reasons, bests
    let run = |aborts: &[(usize, usize)]| -> Result<(Vec<(Vec<R>, u64, u64)>, usize), String> {
        let st = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(usize::MAX)));
        let s2 = st.clone();
        let val = c.val.clone();
        // (completed generations, calls in this generation, call that returns NaN)
        let f = move |x: &DVector<f64>| {
            let k = s2.1.fetch_add(1, SeqCst);
            if k == s2.2.load(SeqCst) {
                return f64::NAN;
            }
            val.eval(x.as_slice(), s2.0.load(SeqCst) * lam + k % lam, lam)
        };
        let mut o = c.cfg.options().build(f).unwrap();
        let mut out = vec![];
        let mut aborted = 0;
        let mut todo = aborts.to_vec();
        while out.len() < c.gens {
            let g = out.len();
            st.0.store(g, SeqCst);
            st.1.store(0, SeqCst);
            let nan = todo.iter().position(|a| a.0 == g).map(|i| todo.remove(i).1);
            st.2.store(nan.unwrap_or(usize::MAX), SeqCst);
            let r = if c.parallel { o.next_parallel() } else { o.next() };
            let mut r = r.map(|t| t.reasons).unwrap_or_default();
            if r.contains(&R::PosDefCov) {
                break;
            }
            ensure!(
                r.contains(&R::InvalidFunctionValue) == nan.is_some(),
                "after {} completed generations: {}, reasons {:?}",
                g,
                if nan.is_some() { "NaN was returned" } else { "no NaN was returned" },
                r
            );
            if nan.is_some() {
                aborted += 1;
                continue;
            }
            r.retain(|r| matches!(r, R::FunTarget | R::TolFun | R::TolFunRel | R::TolFunHist | R::TolStagnation));
            out.push((
                r,
                o.current_best_individual().map_or(0, |b| (b.value + 0.0).to_bits()),
                o.overall_best_individual().map_or(0, |b| (b.value + 0.0).to_bits()),
            ));
        }
        Ok((out, aborted))
    };
    let aborts: Vec<(usize, usize)> = c
        .aborts
        .iter()
        .flat_map(|a| std::iter::repeat((a.0 as usize * c.gens / 1000, a.1 as usize % 100 % lam)).take(1 + a.1 as usize / 100))
        .collect();
    let (a, _) = run(&[])?;
    let (b, aborted) = run(&aborts)?;
    let mut fired = 0u64;
    for (g, (p, q)) in a.iter().zip(&b).enumerate() {
        ensure!(
            p == q,
            "completed generation {}: value-based reasons, current and overall best {:?}; with generations aborted by NaN in between (after {:?}) {:?}",
            g + 1,
            (&p.0, f64::from_bits(p.1), f64::from_bits(p.2)),
            aborts.iter().map(|a| a.0).collect::<Vec<_>>(),
            (&q.0, f64::from_bits(q.1), f64::from_bits(q.2))
        );
        fired += p.0.len() as u64;
    }
    Ok(Outcome::new(fired > 0 && aborted > 0)
        .class(if fired > 0 { "criteria held" } else { "no criterion held" })
        .class(if c.parallel { "parallel" } else { "sequential" })
        .count("aborted_generations", aborted as u64)
        .count("generations_compared", a.len().min(b.len()) as u64))
}

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "NaN is injected at generated calls of a generated history, which is driven on through the aborts; state, bests and counters are compared around every abort and later generations with the reference update; a second section runs the same values per completed generation with and without aborted generations in between and compares the value-based termination reasons and bests; non-trivial when an abort happened or the objective returns infinities.",
        assumptions: vec!["how many points of an aborted generation are evaluated is left open (at most the population size)"],
        sections: vec![
            Box::new(Section { name: "faults", quick: 16000, thorough: 400000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "resume", quick: 6000, thorough: 150000, strategy: resume_strategy, check: resume_check, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
