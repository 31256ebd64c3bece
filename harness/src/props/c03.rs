//! C03: the parallel state update agrees with the sequential one up to rounding.
use super::c02::pool;
use crate::cfg::{cms, dims, means, sigmas, some_cons, weights, Cfg};
use crate::model::{check_generation, cov_diff, Model, Step};
use crate::obj::{new_log, smooth_obj, Obj, Rec};
use crate::rec::{drive, snap, step, step_par, Stop};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::vec_bits_eq;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    pool: usize,
    par_eval: bool,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let maxlam: usize = if t == Tier::Quick { 400 } else { 2000 };
    (dims(12), 0..3u8)
        .prop_flat_map(move |(d, k)| {
            let lam = match k {
                0 => (2..12usize).boxed(),
                1 => (12..80usize).boxed(),
                _ => (80usize..maxlam).boxed(),
            };
            (
                (means(d), sigmas(), lam, weights(), cms(), any::<bool>(), crate::cfg::seeds()),
                smooth_obj(),
                1..12usize,
                prop::sample::select(vec![1usize, 2, 4, 8]),
                any::<bool>(),
                prop::bool::weighted(0.2),
            )
        })
        .prop_flat_map(|((mean, sigma, lam, w, cm, max, seed), obj, gens, pool, par_eval, cons)| {
            let cfg = Cfg {
                lambda: Some(lam),
                weights: w,
                cm,
                max,
                ..Cfg::basic(mean.clone(), sigma, seed)
            };
            let cs = if cons {
                some_cons(mean, sigma).prop_map(Some).boxed()
            } else {
                Just(None).boxed()
            };
            (Just(Case { cfg, obj, gens, pool, par_eval }), cs)
        })
        .prop_map(|(mut c, cs)| {
            c.cfg.cons = cs;
            c
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    // first generation: identical points, state equal up to rounding
    let seq = drive(&c.cfg, Rec::new(&c.obj, &new_log()), 1, Stop::Never);
    let mut cfg = c.cfg.clone();
    cfg.parallel_update = true;
    let log = new_log();
    let mut o = cfg.options().build(Rec::new(&c.obj, &log)).unwrap();
    ensure!(o.parameters().parallel_update(), "parallel_update is not reported by the parameters");
    let mut model = Model::new(&cfg);
    let mut prior = snap(&o);
    let pl = pool(c.pool);
    let mut checked = 0;
    let mut skipped = 0;
    let max = c.cfg.max;
    for g in 0..c.gens {
        let mut r = if c.par_eval {
            crate::util::on_pool(&pl, || step_par(&mut o, &log))
        } else {
            crate::util::on_pool(&pl, || step(&mut o, &log))
        };
        if let Some(t) = &r.td {
            if t.reasons == [cmaes::TerminationReason::PosDefCov] {
                break;
            }
        }
        ensure!(r.calls.len() == cfg.lam(), "{} points evaluated instead of {}", r.calls.len(), cfg.lam());
        if g == 0 {
            let w = &seq.gens[0];
            super::c02::same_multiset(&w.calls, &r.calls)
                .map_err(|e| format!("first generation, sequential vs parallel update: {}", e))?;
            if !c.par_eval {
                ensure!(
                    w.calls.iter().zip(&r.calls).all(|(a, b)| vec_bits_eq(&a.x, &b.x)),
                    "first generation evaluates the same points in another order"
                );
            }
            r.calls = w.calls.clone(); // order of drawing, for stable ranking
            let a = &w.after;
            let b = &r.after;
            let pos = w.td.as_ref().map_or(false, |t| t.reasons == [cmaes::TerminationReason::PosDefCov]);
            if !pos {
                for k in 0..n {
                    let sc = seq.first.sigma + a.mean[k].abs() * 1e-6;
                    ensure!(
                        (a.mean[k] - b.mean[k]).abs() <= 1e-9 * sc,
                        "mean after the first generation: {:?} vs {:?} with parallel_update",
                        a.mean,
                        b.mean
                    );
                }
                ensure!(
                    (a.sigma - b.sigma).abs() <= 1e-9 * a.sigma,
                    "sigma after the first generation: {:e} vs {:e}",
                    a.sigma,
                    b.sigma
                );
                let d = cov_diff(&b.cov, &a.cov, n);
                ensure!(d <= 1e-9, "covariance after the first generation differs by {:e}: {:?} vs {:?}", d, a.cov, b.cov);
                ensure!(a.gen == b.gen && a.evals == b.evals, "counters differ");
                crate::rec::ind_eq(&a.best, &b.best)
                    .then_some(())
                    .ok_or("best individuals differ after the first generation")?;
            }
        }
        match check_generation(&mut model, &prior, &r.calls, &r.after, 1e-7)
            .map_err(|e| format!("generation {} with parallel_update, pool {}: {}", g + 1, c.pool, e))?
        {
            Step::Ok { .. } => checked += 1,
            Step::Tied => {}
            Step::Skip => {
                skipped += 1;
                break;
            }
        }
        let _ = max;
        prior = r.after;
    }
    Ok(Outcome::new(c.pool > 1 && checked >= 1)
        .class(if cfg.lam() > 80 { "large-lambda" } else { "small-lambda" })
        .class(format!("pool={}", c.pool))
        .class(format!("{:?}", cfg.weights))
        .count("generations_checked", checked)
        .count("undecided", skipped)
        .note(format!("{} generations against the reference update", checked)))
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "a generated configuration (population up to 400, thorough 2000) with parallel_update on, on a pool of generated size: first generation compared with the sequential update, every generation compared with the reference update; non-trivial when the pool has several threads and at least one generation was checked.",
        assumptions: vec!["rounding tolerance 1e-9 in the first generation, 1e-7 one-step afterwards"],
        sections: vec![Box::new(Section {
            name: "agreement",
            quick: 5000,
            thorough: 100000,
            strategy,
            check,
            fixed: no_fixed,
        })],
        shards: 6,
    }
}
