//! C11: candidates are mean + sigma * (square root of C) * z with standard normal z that depend on
//! the seed, the dimension and the number of earlier draws only.
use crate::cfg::{wide_cfg, Cfg};
use crate::model::{lib_eig_error, Eig};
use crate::obj::{any_obj, new_log, Kind, Obj, Rec};
use crate::rec::{drive, snap, step, step_par, Snap, Stop};
use crate::runner::{is_known, no_fixed, CheckResult, Outcome, Property, Section, Tier};
use crate::util::{ks_stat, norm, phi, vec_bits_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The first `k` normal vectors of a seed, seen through one generation of another optimizer with
/// mean 0, step size 1 and population `k`.
pub fn normals(seed: u64, dim: usize, k: usize) -> Vec<Vec<f64>> {
    let mut c = Cfg::basic(vec![0.0; dim], 1.0, seed);
    c.lambda = Some(k.max(2));
    let t = drive(&c, Rec::new(&Obj::new(Kind::Linear), &new_log()), 1, Stop::Never);
    t.gens[0].calls.iter().map(|c| c.x.clone()).collect()
}

/// Tracks the decomposition in force and compares points with normal vectors.
pub struct Whitener {
    pub n: usize,
    pub eig: Eig,
    pub lib_err: f64,
    pub identity: bool,
}

impl Whitener {
    pub fn new(n: usize) -> Self {
        Whitener { n, eig: Eig::identity(n), lib_err: 0.0, identity: true }
    }
    pub fn advance(&mut self, prior: &Snap, post: &Snap) {
        if !vec_bits_eq(&prior.eig, &post.eig) {
            self.eig = Eig::of(&post.cov, self.n);
            self.lib_err = lib_eig_error(&post.cov, &self.eig);
            self.identity = false;
        }
    }
    /// Puts points that were recorded in any order into the order of the normal vectors they were
    /// made from; None if that is ambiguous.
    pub fn order<'a>(&self, prior: &Snap, seg: &[&'a (Vec<f64>, bool)], zs: &[Vec<f64>]) -> Option<Vec<&'a (Vec<f64>, bool)>> {
        let n = self.n;
        if !self.identity && (!(self.eig.min() > 0.0) || !(prior.sigma > 1e-150 && prior.sigma < 1e150)) {
            return None;
        }
        let mut have: Vec<(f64, &'a (Vec<f64>, bool))> = seg
            .iter()
            .map(|p| {
                let y: Vec<f64> = (0..n).map(|k| (p.0[k] - prior.mean[k]) / prior.sigma).collect();
                (if self.identity { y[0] } else { norm(&self.eig.whiten_basis(&y)) }, *p)
            })
            .collect();
        let mut want: Vec<(f64, usize)> = zs.iter().enumerate().map(|(i, z)| (if self.identity { z[0] } else { norm(z) }, i)).collect();
        if have.iter().any(|h| !h.0.is_finite()) {
            return None;
        }
        have.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        want.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if have.windows(2).any(|p| !(p[1].0 - p[0].0 > 1e-6)) || want.windows(2).any(|p| !(p[1].0 - p[0].0 > 1e-6)) {
            return None;
        }
        // (an inaccurate decomposition would mix them up)
        if have.iter().zip(&want).any(|(h, w)| !((h.0 - w.0).abs() < 3e-7)) {
            return None;
        }
        let mut out = vec![seg[0]; seg.len()];
        for (h, w) in have.iter().zip(&want) {
            out[w.1] = h.1;
        }
        Some(out)
    }
    /// None if rounding makes it undecidable, otherwise the largest difference that only the
    /// inaccuracy of the eigenvectors the library delivers explains
    pub fn compare(&self, prior: &Snap, xs: &[Vec<f64>], zs: &[Vec<f64>]) -> Result<Option<f64>, String> {
        let n = self.n;
        assert_eq!(xs.len(), zs.len());
        if self.identity {
            // C = I: the points themselves are determined
            for (i, (x, z)) in xs.iter().zip(zs).enumerate() {
                for k in 0..n {
                    let want = prior.mean[k] + prior.sigma * z[k];
                    let tol = 8.0 * f64::EPSILON * (prior.mean[k].abs() + (prior.sigma * z[k]).abs());
                    if !((x[k] - want).abs() <= tol) {
                        return Err(format!(
                            "draw {}: coordinate {} = {:e}, mean + sigma * z = {:e} (mean {:e}, sigma {:e}, z {:e})",
                            i, k, x[k], want, prior.mean[k], prior.sigma, z[k]
                        ));
                    }
                }
            }
            return Ok(Some(0.0));
        }
        if !(self.eig.min() > 0.0) || !(prior.sigma > 1e-150 && prior.sigma < 1e150) {
            return Ok(None);
        }
        let big = xs.iter().flatten().chain(&prior.mean).fold(0.0f64, |a, b| a.max(b.abs()));
        let cond = self.eig.max() / self.eig.min();
        let err = 400.0 * f64::EPSILON * (big / prior.sigma / self.eig.min().sqrt() + cond);
        if !(err < 1e-5) {
            return Ok(None);
        }
        let tol = err.max(1e-9);
        let mut inaccurate = 0.0f64;
        let w: Vec<Vec<f64>> = xs
            .iter()
            .map(|x| {
                let y: Vec<f64> = (0..n).map(|k| (x[k] - prior.mean[k]) / prior.sigma).collect();
                self.eig.whiten_basis(&y)
            })
            .collect();
        for i in 0..w.len() {
            // the rotation is the library's choice, inner products are not
            for j in i.saturating_sub(n)..=i {
                let a: f64 = (0..n).map(|k| w[i][k] * w[j][k]).sum();
                let b: f64 = (0..n).map(|k| zs[i][k] * zs[j][k]).sum();
                let sc = (norm(&zs[i]) + 1.0) * (norm(&zs[j]) + 1.0);
                let d = (a - b).abs() / sc;
                if !(d <= tol) {
                    if d <= 10.0 * self.lib_err && is_known("C11", SIG) {
                        inaccurate = inaccurate.max(d);
                        continue;
                    }
                    return Err(format!(
                        "whitened draws {} and {} have inner product {:e}, the normal vectors drawn for them {:e} (tolerance {:e})",
                        i,
                        j,
                        a,
                        b,
                        tol * sc
                    ));
                }
            }
        }
        Ok(Some(inaccurate))
    }
}

pub const SIG: &str = "eigenvectors-inaccurate";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    parallel: bool,
    /// the n-th call returns NaN
    nan: Option<usize>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, lam, long) = if t == Tier::Quick { (12usize, 40usize, 120usize) } else { (30, 150, 600) };
    (
        wide_cfg(dim, lam),
        any_obj(),
        prop_oneof![2 => 1..15usize, 1 => 15..long],
        any::<bool>(),
        prop::bool::weighted(0.2),
        prop::option::weighted(0.15, 0..100usize),
    )
        .prop_map(|(mut cfg, obj, gens, parallel, pu, nan)| {
            cfg.parallel_update = pu;
            Case { cfg, obj, gens, parallel, nan }
        })
        .boxed()
}

fn check(c: &Case) -> CheckResult {
    let n = c.cfg.dim();
    let lam = c.cfg.lam();
    let z = normals(c.cfg.seed, n, lam * c.gens);
    let log = new_log();
    let mut rec = Rec::new(&c.obj, &log);
    // (a parallel generation that fails may evaluate any subset)
    let nan = if c.parallel { None } else { c.nan };
    if let Some(k) = nan {
        rec = rec.nan_at(vec![k]);
    }
    let mut o = c.cfg.options().build(rec).unwrap();
    let mut w = Whitener::new(n);
    let mut prior = snap(&o);
    let (mut compared, mut undecided, mut beyond_identity, mut worst) = (0u64, 0u64, 0u64, 0.0f64);
    for g in 0..c.gens {
        let r = if c.parallel { step_par(&mut o, &log) } else { step(&mut o, &log) };
        if !r.calls.iter().all(|c| c.x.iter().all(|v| v.is_finite())) {
            break;
        }
        let mut xs: Vec<Vec<f64>> = r.calls.iter().map(|c| c.x.clone()).collect();
        let zs = &z[g * lam..(g + 1) * lam];
        if c.parallel && lam > 1 {
            // evaluation order is free: sort both by the point
            let mut want: Vec<usize> = (0..lam).collect();
            if w.identity {
                want.sort_by(|a, b| zs[*a][0].partial_cmp(&zs[*b][0]).unwrap());
                xs.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
            } else {
                // compare the sorted norms only
                if !(w.eig.min() > 0.0) {
                    break;
                }
                let e: Vec<f64> = sorted(zs.iter().map(|z| norm(z)).collect());
                let got: Vec<f64> = sorted(
                    xs.iter()
                        .map(|x| {
                            let y: Vec<f64> = (0..n).map(|k| (x[k] - prior.mean[k]) / prior.sigma).collect();
                            norm(&w.eig.whiten_basis(&y))
                        })
                        .collect(),
                );
                let cond = w.eig.max() / w.eig.min();
                let big = xs.iter().flatten().chain(&prior.mean).fold(0.0f64, |a, b| a.max(b.abs()));
                let err = 400.0 * f64::EPSILON * (big / prior.sigma / w.eig.min().sqrt() + cond);
                if err < 1e-5 && got.iter().all(|x| x.is_finite()) {
                    for (a, b) in e.iter().zip(&got) {
                        let d = (a - b).abs() / (a + 1.0);
                        if d > err.max(1e-9) && d <= 10.0 * w.lib_err && is_known("C11", SIG) {
                            worst = worst.max(d);
                            continue;
                        }
                        ensure!(
                            d <= err.max(1e-9),
                            "generation {}: whitened step lengths {:?}, normal vectors {:?}",
                            g + 1,
                            got,
                            e
                        );
                    }
                    compared += lam as u64;
                    beyond_identity += lam as u64;
                } else {
                    undecided += 1;
                }
                w.advance(&prior, &r.after);
                prior = r.after;
                continue;
            }
            let zs: Vec<Vec<f64>> = want.iter().map(|i| zs[*i].clone()).collect();
            match w.compare(&prior, &xs, &zs).map_err(|e| format!("generation {}: {}", g + 1, e))? {
                Some(d) => {
                    compared += lam as u64;
                    worst = worst.max(d);
                }
                None => undecided += 1,
            }
        } else {
            match w.compare(&prior, &xs, &zs[..xs.len()]).map_err(|e| format!("generation {}: {}", g + 1, e))? {
                Some(d) => {
                    worst = worst.max(d);
                    compared += xs.len() as u64;
                    if !w.identity {
                        beyond_identity += xs.len() as u64;
                    }
                }
                None => undecided += 1,
            }
        }
        if let Some(t) = &r.td {
            if t.reasons == [cmaes::TerminationReason::PosDefCov] {
                break;
            }
        }
        w.advance(&prior, &r.after);
        prior = r.after;
    }
    let mut out = Outcome::new(compared >= 4)
        .class(c.obj.label())
        .class(if nan.is_some() { "aborted generation" } else { "no abort" })
        .class(if c.parallel { "parallel" } else { "sequential" })
        .count("draws_compared", compared)
        .count("draws_compared_with_adapted_covariance", beyond_identity)
        .count("generations_undecided", undecided)
        .count("runs_with_inaccurate_eigenvectors", (worst > 0.0) as u64)
        .note(format!("{} draws compared, {} generations undecided", compared, undecided));
    if worst > 0.0 {
        out.known.push((SIG.to_string(), format!("whitened draws off by {:e}", worst)));
    }
    Ok(out)
}

fn sorted(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.total_cmp(b));
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StatCase {
    seed: u64,
    dim: usize,
}

fn stat_strategy(_: Tier) -> BoxedStrategy<StatCase> {
    (prop_oneof![2 => any::<u64>(), 1 => 0..1000u64], 1..=12usize).prop_map(|(seed, dim)| StatCase { seed, dim }).boxed()
}

fn check_stat(c: &StatCase) -> CheckResult {
    let total = 60_000;
    let k = total / c.dim;
    let z = normals(c.seed, c.dim, k);
    let what = format!("seed {}, dimension {}", c.seed, c.dim);
    let all: Vec<f64> = z.iter().flatten().cloned().collect();
    let n = all.len() as f64;
    let m = all.iter().sum::<f64>() / n;
    ensure!((m * n.sqrt()).abs() < 6.5, "{}: mean of {} normal numbers {:e}", what, n, m);
    let v = all.iter().map(|x| x * x).sum::<f64>() / n;
    ensure!(((v - 1.0) * (n / 2.0).sqrt()).abs() < 6.5, "{}: variance {:e}", what, v);
    let s3 = all.iter().map(|x| x.powi(3)).sum::<f64>() / n;
    ensure!((s3 * (n / 15.0).sqrt()).abs() < 6.5, "{}: third moment {:e}", what, s3);
    let s4 = all.iter().map(|x| x.powi(4)).sum::<f64>() / n;
    ensure!(((s4 - 3.0) * (n / 96.0).sqrt()).abs() < 9.0, "{}: fourth moment {:e}", what, s4);
    let mx = all.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    ensure!(mx > 3.2 && mx < 8.0, "{}: largest of {} normal numbers: {}", what, n, mx);
    let tail = all.iter().filter(|x| x.abs() > 3.0).count() as f64;
    let want = n * 0.0026998;
    ensure!((tail - want).abs() < 6.5 * want.sqrt() + 5.0, "{}: {} of {} beyond 3 (expected {:.0})", what, tail, n, want);
    let ks = ks_stat(&mut all.clone(), phi);
    ensure!(ks < 3.0, "{}: Kolmogorov-Smirnov statistic {:.2}", what, ks);
    // independence: between coordinates, between consecutive draws and numbers, in magnitude too
    let corr = |a: &dyn Fn(usize) -> f64, b: &dyn Fn(usize) -> f64, len: usize, sd: f64| -> f64 {
        (0..len).map(|i| a(i) * b(i)).sum::<f64>() / (len as f64).sqrt() / sd
    };
    for lag in 1..=4usize {
        let r = corr(&|i| all[i], &|i| all[i + lag], all.len() - lag, 1.0);
        ensure!(r.abs() < 6.5, "{}: numbers {} apart correlate ({:.1} sigma)", what, lag, r);
        let r = corr(&|i| all[i] * all[i] - 1.0, &|i| all[i + lag] * all[i + lag] - 1.0, all.len() - lag, 2.0);
        ensure!(r.abs() < 9.0, "{}: magnitudes {} apart correlate ({:.1} sigma)", what, lag, r);
        for d in 0..c.dim {
            let r = corr(&|i| z[i][d], &|i| z[i + lag][d], k - lag, 1.0);
            ensure!(r.abs() < 6.5, "{}: coordinate {} of draws {} apart correlates ({:.1} sigma)", what, d, lag, r);
        }
    }
    for a in 0..c.dim {
        let kf = k as f64;
        let m = z.iter().map(|z| z[a]).sum::<f64>() / kf.sqrt();
        ensure!(m.abs() < 6.5, "{}: coordinate {} has mean {:.1} sigma", what, a, m);
        let v = z.iter().map(|z| z[a] * z[a] - 1.0).sum::<f64>() / (2.0 * kf).sqrt();
        ensure!(v.abs() < 8.0, "{}: coordinate {} has variance off by {:.1} sigma", what, a, v);
        for b in 0..a {
            let r = corr(&|i| z[i][a], &|i| z[i][b], k, 1.0);
            ensure!(r.abs() < 6.5, "{}: coordinates {} and {} correlate ({:.1} sigma)", what, a, b, r);
        }
    }
    let mut bits: Vec<u64> = all.iter().map(|x| x.to_bits()).collect();
    bits.sort();
    let dup = bits.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(dup < 4, "{}: {} repeated numbers among {}", what, dup, n);
    // another seed: independent
    let y: Vec<f64> = normals(c.seed ^ 1, c.dim, k).into_iter().flatten().collect();
    let r = corr(&|i| all[i], &|i| y[i], all.len(), 1.0);
    ensure!(r.abs() < 6.5, "{}: the next seed's numbers correlate ({:.1} sigma)", what, r);
    Ok(Outcome::new(true)
        .class(format!("dim {}", c.dim))
        .count("normal_numbers", all.len() as u64)
        .note(format!("KS {:.2}, mean {:.1e}, variance {:.4}", ks, m, v)))
}

/// Far tails, pooled over seeds: needs millions of numbers.
fn check_tail(c: &StatCase) -> CheckResult {
    let (mut n, mut sum, mut repeated) = (0usize, [0usize; 4], 0usize);
    let mut mx = [0.0f64; 2];
    let cuts = [3.5, 4.0, 4.5, 5.0];
    let prob = [4.652582e-4, 6.334248e-5, 6.795346e-6, 5.733031e-7];
    for r in 0..12u64 {
        let mut far = vec![];
        for z in normals(c.seed.wrapping_add(r.wrapping_mul(0x9e37_79b9)), c.dim, 250_000 / c.dim) {
            for x in z {
                n += 1;
                mx[(x > 0.0) as usize] = mx[(x > 0.0) as usize].max(x.abs());
                for k in 0..4 {
                    sum[k] += (x.abs() > cuts[k]) as usize;
                }
                if x.abs() > 3.5 {
                    far.push(x.to_bits());
                }
            }
        }
        far.sort();
        repeated += far.windows(2).filter(|w| w[0] == w[1]).count();
    }
    let what = format!("{} seeds from {}, dimension {}", 12, c.seed, c.dim);
    for k in 0..4 {
        let want = n as f64 * prob[k];
        let got = sum[k] as f64;
        // (about 20 beyond 4.5 expected: none at all has probability 1e-9)
        ensure!(
            got < want + 6.5 * want.sqrt() + 8.0 && got > want - 6.5 * want.sqrt() && (k > 2 || got > 0.0),
            "{}: {} of {} normal numbers beyond {}, expected {:.1}",
            what,
            got,
            n,
            cuts[k],
            want
        );
    }
    ensure!(mx.iter().all(|m| *m > 3.9 && *m < 8.0), "{}: extremes of {} normal numbers -{} and {}", what, n, mx[0], mx[1]);
    ensure!(repeated < 3, "{}: {} repeated numbers among those beyond 3.5", what, repeated);
    Ok(Outcome::new(true)
        .class(format!("dim {}", c.dim))
        .count("normal_numbers_tail", n as u64)
        .count("beyond_4_5", sum[2] as u64)
        .note(format!("{} numbers, {} beyond 4.5, extremes -{:.2} and {:.2}", n, sum[2], mx[0], mx[1])))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PooledCase {
    seed: u64,
    dim: usize,
    runs: usize,
    gens: usize,
}

fn pooled_strategy(_: Tier) -> BoxedStrategy<PooledCase> {
    (any::<u64>(), 2..=6usize).prop_map(|(seed, dim)| PooledCase { seed, dim, runs: 60, gens: 25 }).boxed()
}

/// Whitened steps of adapted generations, pooled over many runs, are standard normal: judged
/// without the twin optimizer.
fn check_pooled(c: &PooledCase) -> CheckResult {
    let n = c.dim;
    let mut proj: Vec<f64> = vec![];
    let mut r2 = 0.0;
    let mut cnt = 0.0;
    for r in 0..c.runs {
        let mut cfg = Cfg::basic(vec![1.0; n], 0.7, c.seed.wrapping_add(r as u64 * 7919));
        cfg.lambda = Some(4 + r % 9);
        let log = new_log();
        let mut o = cfg.options().build(Rec::new(&Obj::new(Kind::Ellipsoid(2)), &log)).unwrap();
        let mut w = Whitener::new(n);
        let mut prior = snap(&o);
        for _ in 0..c.gens {
            let s = step(&mut o, &log);
            if w.lib_err < 1e-6 {
                for call in &s.calls {
                    let y: Vec<f64> = (0..n).map(|k| (call.x[k] - prior.mean[k]) / prior.sigma).collect();
                    let z = w.eig.whiten_basis(&y);
                    proj.extend_from_slice(&z);
                    r2 += z.iter().map(|x| x * x).sum::<f64>();
                    cnt += n as f64;
                }
            }
            w.advance(&prior, &s.after);
            prior = s.after;
        }
    }
    let d = (r2 - cnt) / (2.0 * cnt).sqrt();
    ensure!(d.abs() < 6.5, "whitened steps: mean square {:.5} over {} numbers ({:.1} sigma)", r2 / cnt, cnt, d);
    let ks = ks_stat(&mut proj, phi);
    ensure!(ks < 3.0, "whitened steps: Kolmogorov-Smirnov statistic {:.2} over {} numbers", ks, cnt);
    Ok(Outcome::new(true).count("numbers", cnt as u64).note(format!("KS {:.2}", ks)))
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "draws: every evaluated point of a generated run is compared with the normal numbers that a second optimizer of the same seed and dimension, but different mean, step size, population and objective, shows in its first generation; non-trivial when at least 4 draws were compared. statistics: moments, distribution and correlations of 60000 normal numbers of a generated seed. tails: numbers beyond 3.5, 4, 4.5 and 5 and repetitions among 3 million numbers of 12 seeds. pooled: whitened steps of adapted generations of 60 runs.",
        assumptions: vec![
            "after adaptation only inner products of whitened steps are compared (the eigenvector basis is the library's choice)",
            "statistical thresholds at 6.5 standard deviations or beyond",
        ],
        sections: vec![
            Box::new(Section { name: "draws", quick: 6000, thorough: 150000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "statistics", quick: 200, thorough: 6000, strategy: stat_strategy, check: check_stat, fixed: no_fixed }),
            Box::new(Section { name: "tails", quick: 8, thorough: 400, strategy: stat_strategy, check: check_tail, fixed: no_fixed }),
            Box::new(Section { name: "pooled", quick: 100, thorough: 4000, strategy: pooled_strategy, check: check_pooled, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
