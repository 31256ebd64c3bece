//! C10: covariance matrix, eigenvalues, axis ratio, PosDefCov.
use crate::cfg::{nans, wide_cfg, with_cons, Cfg};
use crate::model::Eig;
use crate::obj::{any_obj, new_log, Kind, Obj, Rec};
use crate::rec::{snap, step, step_par};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::vec_bits_eq;
use cmaes::TerminationReason as R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    parallel: bool,
    #[serde(default)]
    nan: Vec<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (14usize, 1200usize) } else { (40, 6000) };
    (
        with_cons(wide_cfg(dim, 40)),
        prop_oneof![
            3 => any_obj(),
            1 => (4..26i32).prop_map(|e| Obj::new(Kind::Ellipsoid(e))),
            1 => Just(Obj::new(Kind::Linear)),
            1 => any::<u64>().prop_map(|h| Obj::new(Kind::Hash(h))),
        ],
        prop_oneof![3 => 1..60usize, 1 => 60..long],
        any::<bool>(),
        prop::bool::weighted(0.2),
        nans(),
    )
        .prop_map(|(mut cfg, obj, gens, parallel, pu, nan)| {
            cfg.parallel_update = pu;
            Case { cfg, obj, gens, parallel, nan }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    let log = new_log();
    let mut o = c.cfg.options().build(Rec::new(&c.obj, &log).nan_at(c.nan.clone())).unwrap();
    let s = snap(&o);
    let ident = Eig::identity(n);
    ensure!(vec_bits_eq(&s.cov, &ident.vecs), "the covariance matrix does not start as the identity: {:?}", s.cov);
    ensure!(vec_bits_eq(&s.eig, &ident.vals) && s.ratio == 1.0, "initial eigenvalues {:?}, axis ratio {}", s.eig, s.ratio);
    let per = o.generations_per_eigen_update();
    ensure!(per >= 1, "generations_per_eigen_update() = 0");
    let mut prior = s;
    let mut since = 0;
    let (mut refreshed, mut kept, mut posdef) = (0u64, 0u64, 0u64);
    let mut maxcond: f64 = 1.0;
    for g in 0..c.gens {
        let g = g + 1;
        let r = if c.parallel { step_par(&mut o, &log) } else { step(&mut o, &log) };
        let a = &r.after;
        let reasons = r.td.map(|t| t.reasons).unwrap_or_default();
        if reasons.contains(&R::InvalidFunctionValue) && !c.nan.is_empty() {
            ensure!(
                vec_bits_eq(&a.cov, &prior.cov) && vec_bits_eq(&a.eig, &prior.eig) && a.ratio == prior.ratio,
                "generation {}: the distribution changed in a generation with an invalid value",
                g
            );
            continue;
        }
        if reasons.contains(&R::InvalidFunctionValue) || !(a.cov.iter().all(|x| x.is_finite()) && a.sigma.is_finite()) {
            break;
        }
        for i in 0..n {
            for j in 0..i {
                ensure!(
                    a.cov[i * n + j].to_bits() == a.cov[j * n + i].to_bits(),
                    "generation {}: C is not symmetric: C[{},{}] = {:e}, C[{},{}] = {:e}",
                    g,
                    i,
                    j,
                    a.cov[j * n + i],
                    j,
                    i,
                    a.cov[i * n + j]
                );
            }
        }
        let e = Eig::of(&a.cov, n);
        // overflow/underflow range: nothing to decide
        if !(e.max() < 1e150 && e.max() > 1e-150) {
            break;
        }
        if reasons.contains(&R::PosDefCov) {
            ensure!(reasons == [R::PosDefCov], "generation {}: PosDefCov among {:?}", g, reasons);
            let rel = e.min() / e.max();
            if rel > 1e-13 * n as f64 {
                fail!("generation {}: PosDefCov although C is positive definite (eigenvalues {:?})", g, e.vals);
            }
            posdef += 1;
            break;
        }
        ensure!(a.eig.iter().all(|x| *x > 0.0), "generation {}: eigenvalues {:?} without PosDefCov", g, a.eig);
        let mx = a.eig.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mn = a.eig.iter().cloned().fold(f64::INFINITY, f64::min);
        maxcond = maxcond.max(mx / mn);
        let want = (mx / mn).sqrt();
        ensure!(
            crate::util::close(a.ratio, want, 1e-12, 0.0),
            "generation {}: axis_ratio() = {:e}, eigenvalues give {:e}",
            g,
            a.ratio,
            want
        );
        if vec_bits_eq(&a.eig, &prior.eig) {
            since += 1;
            kept += 1;
            ensure!(
                since < per,
                "generation {}: eigenvalues not refreshed for {} generations (reported interval: {})",
                g,
                since,
                per
            );
        } else {
            since = 0;
            refreshed += 1;
            ensure!(
                e.min() > -1e-12 * n as f64 * e.max(),
                "generation {}: C is not positive definite (eigenvalues {:?}) but no PosDefCov is reported",
                g,
                e.vals
            );
            let mut got = a.eig.clone();
            let mut want = e.vals.clone();
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let err = got.iter().zip(&want).fold(0.0f64, |m, (a, b)| m.max((a - b).abs())) / e.max();
            if !(err < 1e-11 * n as f64) {
                fail!(
                    "generation {}: eigenvalues {:?} differ from those of the covariance matrix {:?} (relative {:e}; condition {:e})",
                    g,
                    got,
                    want,
                    err,
                    e.max() / e.min()
                );
            }
        }
        prior = r.after;
    }
    Ok(Outcome::new(refreshed >= 2)
        .class(c.obj.label())
        .class(if per > 1 { "lazy" } else { "every generation" })
        .class(format!("condition 1e{}", (maxcond.log10() / 4.0).floor() as i32 * 4))
        .class(if posdef > 0 { "PosDefCov" } else { "no PosDefCov" })
        .count("decompositions_checked", refreshed)
        .count("generations_without_decomposition", kept)
        .note(format!("{} decompositions, condition {:.2e}", refreshed, maxcond)))
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "a generated run (including ill-conditioned, divergent and long ones, continued through termination) is observed after every generation: symmetry bit for bit, eigenvalues against an independent Jacobi decomposition, refresh interval, axis ratio; non-trivial when at least two decompositions were compared.",
        assumptions: vec![
            "a refresh is recognised by changed eigenvalues",
            "eigenvalues are compared to 1e-11 n relative to the largest one; PosDefCov is decided up to the same relative error",
        ],
        sections: vec![Box::new(Section { name: "consistency", quick: 5000, thorough: 80000, strategy, check, fixed: no_fixed })],
        shards: 8,
    }
}
