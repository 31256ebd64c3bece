//! C08: every generation performs the published update.
use crate::cfg::{nans, wide_cfg, with_cons, Cfg};
use crate::model::{check_generation, Model, Step};
use crate::obj::{any_obj, new_log, Kind, Obj, Rec};
use crate::rec::{snap, step, step_par};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::TerminationReason as R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    /// bit g: generation g uses next_parallel (cyclic)
    mix: u16,
    #[serde(default)]
    nan: Vec<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, lam, long) = if t == Tier::Quick { (16usize, 60usize, 120usize) } else { (40, 200, 800) };
    (
        with_cons(wide_cfg(dim, lam)),
        prop_oneof![4 => any_obj(), 1 => (0..8i32).prop_map(|e| Obj::new(Kind::Ellipsoid(e))), 1 => Just(Obj::new(Kind::Linear))],
        prop_oneof![3 => 1..30usize, 1 => 30..long],
        prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
        nans(),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(mut cfg, obj, gens, mix, nan, pu)| {
            cfg.parallel_update = pu;
            Case { cfg, obj, gens, mix, nan }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let mut o = c.cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
    let mut m = Model::new(&c.cfg);
    let (mut ok, mut tied, mut stalled, mut skipped) = (0u64, 0u64, 0u64, 0u64);
    let mut prior = snap(&o);
    for g in 0..c.gens {
        let r = if c.mix >> (g % 16) & 1 == 1 { step_par(&mut o, &log) } else { step(&mut o, &log) };
        if let Some(t) = &r.td {
            if t.reasons == [R::PosDefCov] {
                break;
            }
            if t.reasons == [R::InvalidFunctionValue] {
                prior = r.after;
                continue;
            }
        }
        if r.calls.iter().any(|c| !c.x.iter().all(|x| x.is_finite())) {
            break;
        }
        match check_generation(&mut m, &prior, &r.calls, &r.after, 1e-7).map_err(|e| format!("generation {}: {}", g + 1, e))? {
            Step::Ok { hs } => {
                ok += 1;
                if !hs {
                    stalled += 1;
                }
            }
            Step::Tied => tied += 1,
            Step::Skip => {
                skipped += 1;
                break;
            }
        }
        prior = r.after;
    }
    let neg = m.p.w.iter().any(|w| *w < 0.0);
    Ok(Outcome::new(ok >= 2)
        .class(c.obj.label())
        .class(format!("{:?}", c.cfg.weights))
        .class(if stalled > 0 { "path stalled" } else { "path never stalled" })
        .class(if m.p.eigen_gap_gens() > 1 { "lazy decomposition" } else { "decomposition every generation" })
        .class(if c.cfg.cm < 1.0 { "cm<1" } else { "cm=1" })
        .count("generations_checked", ok)
        .count("generations_with_stalled_path", stalled)
        .count("generations_with_negative_weights", if neg { ok } else { 0 })
        .count("generations_with_unresolved_ties", tied)
        .count("cases_ended_undecided", skipped)
        .note(format!("{} generations against the model", ok)))
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a generated run is replayed through an independent implementation of the CMA-ES update (own eigendecomposition) from the recorded evaluations; every generation's mean, sigma and covariance are compared; non-trivial when at least two generations were decided.",
        assumptions: vec![
            "tolerance 1e-7 relative to the distribution's scale, widened by the conditioning of the reconstruction; generations where rounding dominates are undecided and end the case",
            "the decomposition in force is the one of the last generation in which the reported eigenvalues changed (its cadence is C10)",
        ],
        sections: vec![Box::new(Section { name: "update", quick: 12000, thorough: 200000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
