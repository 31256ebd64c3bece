//! C01: seeded runs are reproducible however they are driven.
use crate::cfg::{nans, wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Obj, Rec, Log};
use crate::rec::{drive, drive_built, opt_td_diff, snap, step, td, Gen, Stop, Trace};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::{DVector, ObjectiveFunction};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    variant: Variant,
    /// calls that return NaN
    #[serde(default)]
    nan: Vec<usize>,
    /// step on after terminations
    #[serde(default)]
    go_on: bool,
}

impl Case {
    fn rec(&self, log: &Log) -> Rec {
        Rec::new(&self.obj, log).nan_at(self.nan.clone())
    }
    fn stop(&self) -> Stop {
        if self.go_on {
            Stop::Never
        } else {
            Stop::Terminated
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Variant {
    /// same again through next()
    Again,
    /// run() with a generation limit
    Run,
    /// no getter is called between generations
    Blind,
    /// `&mut` objective
    Ref,
    /// boxed trait object
    Boxed,
    /// a custom objective type
    Custom,
    /// printing and plotting on, plot saved/cleared in between
    Verbose,
    /// other optimizers run in between
    Interleaved,
    /// four threads at once
    Threads,
    /// the options object is cloned and the clone is built
    Cloned,
    /// a process-wide generator is used in between by building unseeded optimizers
    Unseeded,
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    use Variant::*;
    (
        with_cons(wide_cfg(12, 24)),
        any_obj(),
        prop_oneof![3 => 1..12usize, 1 => 12..60usize],
        prop::sample::select(vec![
            Again, Run, Blind, Ref, Boxed, Custom, Verbose, Interleaved, Threads, Cloned, Unseeded,
        ]),
        nans(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(cfg, obj, gens, variant, nan, go_on)| Case { cfg, obj, gens, variant, nan, go_on })
        .boxed()
}

struct Custom {
    inner: Rec,
    state: u64,
}
impl ObjectiveFunction for Custom {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.state += 1;
        self.inner.call(x)
    }
}

fn reference(c: &Case) -> Trace {
    drive(&c.cfg, c.rec(&new_log()), c.gens, c.stop())
}

fn check(c: &Case) -> CheckResult {
    let want = reference(c);
    let cfg = &c.cfg;
    let log = new_log();
    let rec = c.rec(&log);
    let mut got: Option<Trace> = None;
    match c.variant {
        Variant::Again => got = Some(reference(c)),
        Variant::Run => {
            let mut cf = cfg.clone();
            cf.max_gens = Some(c.gens);
            let want = drive(&cf, c.rec(&new_log()), c.gens + 1, Stop::Terminated);
            let mut o = cf.options().build(rec).unwrap();
            let t = o.run();
            let calls = take(&log);
            let last = want.gens.last().unwrap();
            let all: Vec<_> = want.gens.iter().flat_map(|g| g.calls.clone()).collect();
            if let Some(d) = crate::rec::calls_diff(&all, &calls) {
                fail!("next() vs run(): {}", d);
            }
            if let Some(d) = last.after.diff(&snap(&o)) {
                fail!("next() vs run(), final state: {}", d);
            }
            if let Some(d) = opt_td_diff(&last.td, &Some(td(&t))) {
                fail!("next() vs run(): {}", d);
            }
        }
        Variant::Blind => {
            let mut o = cfg.options().build(rec).unwrap();
            for g in 0..want.gens.len() {
                let t = o.next();
                let calls = take(&log);
                if let Some(d) = crate::rec::calls_diff(&want.gens[g].calls, &calls) {
                    fail!("without getters, generation {}: {}", g + 1, d);
                }
                if let Some(d) = opt_td_diff(&want.gens[g].td, &t.as_ref().map(td)) {
                    fail!("without getters, generation {}: {}", g + 1, d);
                }
            }
            if let Some(d) = want.gens.last().unwrap().after.diff(&snap(&o)) {
                fail!("without getters, final state: {}", d);
            }
        }
        Variant::Ref => {
            let mut f = |x: &DVector<f64>| rec.call(x);
            let mut o = cfg.options().build(&mut f).unwrap();
            got = Some(drive_built(&mut o, &log, c.gens, c.stop()));
        }
        Variant::Boxed => {
            let b: Box<dyn ObjectiveFunction> = Box::new(rec);
            let mut o = cfg.options().build(b).unwrap();
            got = Some(drive_built(&mut o, &log, c.gens, c.stop()));
        }
        Variant::Custom => {
            let mut o = cfg.options().build(Custom { inner: rec, state: 0 }).unwrap();
            got = Some(drive_built(&mut o, &log, c.gens, c.stop()));
            let n: usize = want.gens.iter().map(|g| g.calls.len()).sum();
            let f = o.into_objective_function();
            ensure!(f.state == n as u64, "custom objective kept {} calls of {}", f.state, n);
        }
        Variant::Verbose => {
            let mut cf = cfg.clone();
            cf.plot_gap = Some((cfg.seed % 50) as usize);
            cf.print_gap = Some((cfg.seed % 7) as usize);
            let mut o = cf.options().build(rec).unwrap();
            let mut t = Trace { first: snap(&o), gens: vec![] };
            for g in 0..c.gens {
                let r: Gen = step(&mut o, &log);
                #[cfg(feature = "plot")]
                {
                    o.add_plot_point();
                    if g % 3 == 0 {
                        o.get_mut_plot().unwrap().clear();
                    }
                }
                o.print_info();
                if g % 4 == 0 {
                    o.print_final_info(&[]);
                    o.print_initial_info();
                }
                let end = r.td.is_some() && !c.go_on;
                t.gens.push(r);
                if end {
                    break;
                }
            }
            got = Some(t);
        }
        Variant::Interleaved => {
            let mut other = cfg.clone();
            other.seed = cfg.seed ^ 1;
            if cfg.seed % 3 == 0 {
                // another shape as well
                other.lambda = Some(cfg.lam() + 1 + (cfg.seed % 7) as usize);
                other.max = !cfg.max;
                other.sigma *= 0.5;
            }
            let mut p = other.options().build(Rec::new(&c.obj, &new_log())).unwrap();
            let mut o = cfg.options().build(rec).unwrap();
            let mut t = Trace { first: snap(&o), gens: vec![] };
            for _ in 0..c.gens {
                let _ = p.next();
                let mut q = cfg.options().build(Rec::new(&c.obj, &new_log())).unwrap();
                let r = step(&mut o, &log);
                let _ = q.next();
                let end = r.td.is_some() && !c.go_on;
                t.gens.push(r);
                if end {
                    break;
                }
            }
            got = Some(t);
        }
        Variant::Threads => {
            let ts: Vec<Trace> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4).map(|_| s.spawn(|| reference(c))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for t in ts {
                if let Some(d) = want.diff(&t) {
                    fail!("run on another thread: {}", d);
                }
            }
        }
        Variant::Cloned => {
            let o = cfg.options();
            let k = o.clone();
            let mut a = k.build(rec).unwrap();
            let t = drive_built(&mut a, &log, c.gens, c.stop());
            if let Some(d) = want.diff(&t) {
                fail!("cloned options: {}", d);
            }
            let log2 = new_log();
            let mut b = o.build(c.rec(&log2)).unwrap();
            got = Some(drive_built(&mut b, &log2, c.gens, c.stop()));
        }
        Variant::Unseeded => {
            // a run without a seed is reproduced from the seed it reports
            let mut cf = cfg.clone();
            cf.cons = None;
            let mut a = cf.options_unseeded().build(rec).unwrap();
            let seed = a.parameters().seed();
            let first = drive_built(&mut a, &log, c.gens, c.stop());
            cf.seed = seed;
            let again = drive(&cf, c.rec(&new_log()), c.gens, c.stop());
            if let Some(d) = first.diff(&again) {
                fail!("run repeated from its reported seed {}: {}", seed, d);
            }
            let b = cf.options_unseeded().build(Rec::new(&c.obj, &new_log())).unwrap();
            ensure!(b.parameters().seed() != seed, "two unseeded optimizers share the seed {}", seed);
        }
    }
    if let Some(got) = got {
        if let Some(d) = want.diff(&got) {
            fail!("{:?}: {}", c.variant, d);
        }
    }
    let o = cfg.options().build(Rec::new(&c.obj, &new_log())).unwrap();
    ensure!(
        o.parameters().seed() == cfg.seed,
        "seed {} reported as {}",
        cfg.seed,
        o.parameters().seed()
    );
    Ok(Outcome::new(want.gens.len() >= 2)
        .class(format!("{:?}", c.variant))
        .class(c.obj.label())
        .count("generations", want.gens.len() as u64)
        .count("evaluations", want.evals())
        .note(format!("{} generations identical", want.gens.len())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeedCase {
    cfg: Cfg,
    other: SeedRel,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SeedRel {
    Bit(u32),
    Add(u64),
    Any(u64),
}

fn seed_strategy(_: Tier) -> BoxedStrategy<SeedCase> {
    (
        wide_cfg(8, 12),
        prop_oneof![
            3 => (0..64u32).prop_map(SeedRel::Bit),
            1 => (1..1000u64).prop_map(SeedRel::Add),
            1 => crate::cfg::seeds().prop_map(SeedRel::Any)
        ],
    )
        .prop_map(|(cfg, other)| SeedCase { cfg, other })
        .boxed()
}

fn check_seed(c: &SeedCase) -> CheckResult {
    let mut b = c.cfg.clone();
    b.seed = match c.other {
        SeedRel::Bit(k) => b.seed ^ (1 << k),
        SeedRel::Add(k) => b.seed.wrapping_add(k),
        SeedRel::Any(s) => s,
    };
    if b.seed == c.cfg.seed {
        return Ok(Outcome::trivial());
    }
    let o = Obj::new(crate::obj::Kind::Sphere);
    let ta = drive(&c.cfg, Rec::new(&o, &new_log()), 1, Stop::Never);
    let tb = drive(&b, Rec::new(&o, &new_log()), 1, Stop::Never);
    // standardised first steps, so that rounding against a large mean cannot merge them
    let z = |t: &Trace| -> Vec<f64> { t.gens[0].calls.iter().flat_map(|c| c.x.clone()).collect() };
    let (za, zb) = (z(&ta), z(&tb));
    let same = za.iter().zip(&zb).filter(|(a, b)| a == b).count();
    ensure!(
        same * 4 <= za.len(),
        "seeds {} and {} give {} of {} identical coordinates in the first generation",
        c.cfg.seed,
        b.seed,
        same,
        za.len()
    );
    Ok(Outcome::new(true).class(match c.other {
        SeedRel::Bit(k) if k >= 32 => "high-bit",
        SeedRel::Bit(_) => "low-bit",
        SeedRel::Add(_) => "offset",
        SeedRel::Any(_) => "unrelated",
    }))
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "drivers: a generated configuration (dimension, population, weights, constraints, seed) and objective are driven twice, the second time in another way; non-trivial when at least two generations were compared bit for bit. seeds: two related seeds on one configuration; non-trivial when they differ.",
        assumptions: vec!["parallel_update is off; its rounding is C03", "objectives are deterministic"],
        sections: vec![
            Box::new(Section { name: "drivers", quick: 12000, thorough: 300000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "seeds", quick: 6000, thorough: 200000, strategy: seed_strategy, check: check_seed, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
