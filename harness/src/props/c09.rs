//! C09: strategy parameters and weights.
use crate::cfg::{W};
use crate::model::params;
use crate::runner::{CheckResult, Outcome, Property, Section, Tier};
use cmaes::{CMAESOptions, DVector, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    lambda: Option<usize>,
    w: W,
    cm: Option<f64>,
    sigma: f64,
    max: bool,
    par: bool,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, lam) = if t == Tier::Quick { (200usize, 2000usize) } else { (600, 20000) };
    (
        prop_oneof![4 => 1..12usize, 2 => 12..60usize, 1 => 60..dim],
        prop_oneof![2 => Just(None), 5 => (2..14usize).prop_map(Some), 3 => (14..100usize).prop_map(Some), 1 => (100..lam).prop_map(Some)],
        crate::cfg::weights(),
        prop::option::of(prop_oneof![0.001..1.0f64, Just(1.0)]),
        1e-3..1e3f64,
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(n, lambda, w, cm, sigma, max, par)| Case { n, lambda, w, cm, sigma, max, par })
        .boxed()
}

fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for n in 1..=24 {
        for w in [W::Pos, W::Neg, W::Uni] {
            v.push(Case { n, lambda: None, w, cm: None, sigma: 1.0, max: false, par: false });
            for l in 2..=24 {
                v.push(Case { n, lambda: Some(l), w, cm: None, sigma: 1.0, max: false, par: false });
            }
        }
    }
    v
}

fn check(c: &Case) -> CheckResult {
    let mut o = CMAESOptions::new(vec![0.5; c.n], c.sigma).parallel_update(c.par);
    if c.max {
        o = o.mode(cmaes::Mode::Maximize);
    }
    // the default weighting is Negative; set it explicitly in half of the cases
    if !(c.w == W::Neg && c.n % 2 == 0) {
        o = o.weights(c.w.to());
    }
    if let Some(l) = c.lambda {
        o = o.population_size(l);
    }
    if let Some(cm) = c.cm {
        o = o.cm(cm);
    }
    let s = o.build(|_: &DVector<f64>| 0.0).map_err(|e| format!("valid options rejected: {:?}", e))?;
    let p = s.parameters();
    let n = c.n;
    let lambda = c.lambda.unwrap_or(4 + (3.0 * (n as f64).ln()).floor() as usize);
    ensure!(p.lambda() == lambda, "lambda = {}, expected {}", p.lambda(), lambda);
    ensure!(p.dim() == n, "dim = {}, expected {}", p.dim(), n);
    let m = params(n, lambda, c.w, c.cm.unwrap_or(1.0));
    ensure!(p.mu() == m.mu, "mu = {}, expected {}", p.mu(), m.mu);
    let near = |a: f64, b: f64| crate::util::close(a, b, 1e-11, 1e-14);
    for (name, a, b) in [
        ("mu_eff", p.mu_eff(), m.mu_eff),
        ("cc", p.cc(), m.cc),
        ("c1", p.c1(), m.c1),
        ("c_sigma", p.cs(), m.cs),
        ("c_mu", p.cmu(), m.cmu),
        ("cm", p.cm(), m.cm),
        ("damping", p.damp_s(), m.ds),
        ("initial sigma", p.initial_sigma(), c.sigma),
    ] {
        ensure!(near(a, b), "{} = {:e}, the published formula gives {:e}", name, a, b);
    }
    let w = p.weights().as_slice();
    // weights beyond the recombination weights may be left out when they are zero
    let at = |v: &[f64], i: usize| v.get(i).cloned().unwrap_or(0.0);
    for i in 0..lambda.max(w.len()) {
        ensure!(
            near(at(w, i), at(&m.w, i)),
            "weight {} = {:e}, the published formula gives {:e}",
            i + 1,
            at(w, i),
            at(&m.w, i)
        );
    }
    // independent invariants
    ensure!(w.len() >= m.mu && w.len() <= lambda, "{} weights for lambda {}", w.len(), lambda);
    ensure!(w.windows(2).all(|x| x[0] >= x[1]), "weights are not in decreasing order: {:?}", w);
    ensure!(w[..m.mu].iter().all(|x| *x > 0.0), "a recombination weight is not positive");
    ensure!(w[m.mu..].iter().all(|x| *x <= 0.0), "a weight beyond the recombination weights is positive");
    let sum: f64 = w.iter().filter(|x| **x > 0.0).sum();
    ensure!((sum - 1.0).abs() < 1e-10, "the positive weights sum to {}", sum);
    let neg: f64 = w.iter().filter(|x| **x < 0.0).sum();
    if c.w != W::Neg {
        ensure!(neg == 0.0, "negative weights with {:?}", c.w);
    }
    for (name, v) in [("cc", p.cc()), ("c1", p.c1()), ("c_sigma", p.cs()), ("c_mu", p.cmu())] {
        ensure!((0.0..=1.0).contains(&v), "{} = {} lies outside [0, 1]", name, v);
    }
    ensure!(p.c1() + p.cmu() <= 1.0 + 1e-12, "c1 + c_mu = {}", p.c1() + p.cmu());
    ensure!(p.damp_s() >= 1.0, "damping {}", p.damp_s());
    // keeps C positive definite: decay of C minus the largest possible negative contribution
    // (each negative weight contributes at most |w| * n in the whitened metric)
    let decay = 1.0 - p.c1() - p.cmu() * w.iter().sum::<f64>() + p.cmu() * neg * n as f64;
    ensure!(decay >= -1e-9, "the negative weights can make C lose positive definiteness ({:e})", decay);
    ensure!(
        std::mem::discriminant(&p.weights_setting()) == std::mem::discriminant(&c.w.to()),
        "weights setting {:?}",
        match p.weights_setting() {
            Weights::Positive => "Positive",
            Weights::Negative => "Negative",
            Weights::Uniform => "Uniform",
        }
    );
    Ok(Outcome::new(true)
        .class(format!("{:?}", c.w))
        .class(if c.lambda.is_none() { "default lambda" } else if lambda < 14 { "small lambda" } else { "large lambda" })
        .class(if neg < 0.0 { "negative weights" } else { "no negative weights" })
        .note(format!("n {}, lambda {}, mu_eff {:.3}", n, lambda, m.mu_eff)))
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "dimension, population size, weighting and cm are generated (all small combinations always included) and every reported parameter is compared with the published formula; every case is non-trivial.",
        assumptions: vec!["relative tolerance 1e-11"],
        sections: vec![Box::new(Section { name: "formulas", quick: 20000, thorough: 400000, strategy, check, fixed })],
        shards: 8,
    }
}
