//! Independent reference model: strategy parameters, weights, one-generation update, symmetric
//! eigendecomposition (cyclic Jacobi). Written from the published CMA-ES formulas.
use crate::cfg::{Cfg, W};
use crate::obj::Call;
use crate::rec::Snap;

#[derive(Clone, Debug)]
pub struct Params {
    pub n: usize,
    pub lambda: usize,
    pub mu: usize,
    pub mu_eff: f64,
    pub w: Vec<f64>,
    pub cc: f64,
    pub c1: f64,
    pub cs: f64,
    pub cmu: f64,
    pub cm: f64,
    pub ds: f64,
}

pub fn params(n: usize, lambda: usize, setting: W, cm: f64) -> Params {
    let mu = lambda / 2;
    let nf = n as f64;
    let pre = |i: usize| ((lambda as f64 + 1.0) * 0.5).ln() - (i as f64).ln();
    let raw: Vec<f64> = match setting {
        W::Uni => (1..=mu).map(|_| 1.0).collect(),
        W::Pos => (1..=mu).map(pre).collect(),
        W::Neg => (1..=lambda).map(pre).collect(),
    };
    let s1: f64 = raw[..mu].iter().sum();
    let s2: f64 = raw[..mu].iter().map(|x| x * x).sum();
    let mu_eff = s1 * s1 / s2;
    let cc = (4.0 + mu_eff / nf) / (nf + 4.0 + 2.0 * mu_eff / nf);
    let c1 = 2.0 / ((nf + 1.3) * (nf + 1.3) + mu_eff);
    let cmu = f64::min(
        1.0 - c1,
        2.0 * (mu_eff - 2.0 + 1.0 / mu_eff) / ((nf + 2.0) * (nf + 2.0) + mu_eff),
    );
    let cs = (mu_eff + 2.0) / (nf + mu_eff + 5.0);
    let ds = 1.0 + cs + 2.0 * f64::max(0.0, ((mu_eff - 1.0) / (nf + 1.0)).sqrt() - 1.0);
    let psum: f64 = raw.iter().filter(|x| **x > 0.0).sum();
    let nsum: f64 = raw.iter().filter(|x| **x < 0.0).map(|x| x.abs()).sum();
    let scale = if setting == W::Neg {
        let t1: f64 = raw[mu..].iter().sum();
        let t2: f64 = raw[mu..].iter().map(|x| x * x).sum();
        let me = t1 * t1 / t2;
        let a = 1.0 + c1 / cmu;
        let b = 1.0 + 2.0 * me / (mu_eff + 2.0);
        let c = (1.0 - c1 - cmu) / (nf * cmu);
        a.min(b).min(c)
    } else {
        0.0
    };
    let w = raw
        .iter()
        .map(|x| {
            if *x > 0.0 {
                x / psum
            } else if *x < 0.0 {
                x * scale / nsum
            } else {
                0.0
            }
        })
        .collect();
    Params { n, lambda, mu, mu_eff, w, cc, c1, cs, cmu, cm, ds }
}

impl Params {
    pub fn of(c: &Cfg) -> Params {
        params(c.dim(), c.lam(), c.weights, c.cm)
    }
    pub fn chi(&self) -> f64 {
        let n = self.n as f64;
        n.sqrt() * (1.0 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n))
    }
    /// Generations between two decompositions
    pub fn eigen_gap_evals(&self) -> f64 {
        let n = self.n as f64;
        (0.5 * n * self.lambda as f64 / ((self.c1 + self.cmu) * n * n)).ceil()
    }
    pub fn eigen_gap_gens(&self) -> usize {
        (self.eigen_gap_evals() / self.lambda as f64).ceil() as usize
    }
}

/// Eigenvalues and eigenvectors (columns) of a symmetric matrix given column-major.
pub fn jacobi(a: &[f64], n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut a = a.to_vec();
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        v[i * n + i] = 1.0;
    }
    let idx = |i: usize, j: usize| j * n + i;
    for _sweep in 0..60 {
        let mut off = 0.0;
        let mut diag = 0.0;
        for i in 0..n {
            diag += a[idx(i, i)] * a[idx(i, i)];
            for j in 0..i {
                off += a[idx(i, j)] * a[idx(i, j)];
            }
        }
        if off == 0.0 || off <= 1e-34 * diag || !off.is_finite() {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[idx(p, q)];
                if apq == 0.0 {
                    continue;
                }
                let theta = (a[idx(q, q)] - a[idx(p, p)]) / (2.0 * apq);
                let t = if theta.abs() > 1e150 {
                    0.5 / theta
                } else {
                    theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt())
                };
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let akp = a[idx(k, p)];
                    let akq = a[idx(k, q)];
                    a[idx(k, p)] = c * akp - s * akq;
                    a[idx(k, q)] = s * akp + c * akq;
                }
                for k in 0..n {
                    let apk = a[idx(p, k)];
                    let aqk = a[idx(q, k)];
                    a[idx(p, k)] = c * apk - s * aqk;
                    a[idx(q, k)] = s * apk + c * aqk;
                }
                a[idx(p, q)] = 0.0;
                a[idx(q, p)] = 0.0;
                for k in 0..n {
                    let vkp = v[idx(k, p)];
                    let vkq = v[idx(k, q)];
                    v[idx(k, p)] = c * vkp - s * vkq;
                    v[idx(k, q)] = s * vkp + c * vkq;
                }
            }
        }
    }
    ((0..n).map(|i| a[idx(i, i)]).collect(), v)
}

/// Eigendecomposition used for whitening
#[derive(Clone, Debug)]
pub struct Eig {
    pub n: usize,
    pub vals: Vec<f64>,
    pub vecs: Vec<f64>,
}

impl Eig {
    pub fn identity(n: usize) -> Self {
        let mut vecs = vec![0.0; n * n];
        for i in 0..n {
            vecs[i * n + i] = 1.0;
        }
        Eig { n, vals: vec![1.0; n], vecs }
    }
    pub fn of(cov: &[f64], n: usize) -> Self {
        let (vals, vecs) = jacobi(cov, n);
        Eig { n, vals, vecs }
    }
    pub fn min(&self) -> f64 {
        self.vals.iter().cloned().fold(f64::INFINITY, f64::min)
    }
    pub fn max(&self) -> f64 {
        self.vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max)
    }
    /// B^T y / D
    pub fn whiten_basis(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        (0..n)
            .map(|i| {
                (0..n).map(|k| self.vecs[i * n + k] * y[k]).sum::<f64>() / self.vals[i].sqrt()
            })
            .collect()
    }
    /// C^(-1/2) y
    pub fn whiten(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let z = self.whiten_basis(y);
        (0..n)
            .map(|k| (0..n).map(|i| self.vecs[i * n + k] * z[i]).sum::<f64>())
            .collect()
    }
}

pub fn whiten_norm(e: &Eig, y: &[f64]) -> f64 {
    crate::util::norm(&e.whiten_basis(y))
}

/// Indices of the calls ranked from best to worst (stable)
pub fn rank(calls: &[Call], max: bool) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..calls.len()).collect();
    ix.sort_by(|a, b| {
        let (a, b) = (calls[*a].v, calls[*b].v);
        let o = a.partial_cmp(&b).unwrap_or(std::cmp::Ordering::Equal);
        if max {
            o.reverse()
        } else {
            o
        }
    });
    ix
}

pub fn has_ties(calls: &[Call]) -> bool {
    let mut v: Vec<f64> = calls.iter().map(|c| c.v).filter(|v| !v.is_nan()).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.windows(2).any(|w| w[0] == w[1])
}

/// Path state of the model plus the decomposition in force.
#[derive(Clone, Debug)]
pub struct Model {
    pub p: Params,
    pub max: bool,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    pub eig: Eig,
    pub gens: usize,
    /// worst whitened error so far of the decompositions delivered by the linear algebra library
    pub eig_err: f64,
}

/// How far the eigendecomposition routine the crate uses (nalgebra's SymmetricEigen) is from
/// reproducing this matrix, relative to the matrix (in the whitened metric). It is normally near
/// machine precision, but the routine is inaccurate for about one matrix in a thousand.
pub fn lib_eig_error(cov: &[f64], e: &Eig) -> f64 {
    let n = e.n;
    let m = nalgebra::DMatrix::from_column_slice(n, n, cov);
    let se = match nalgebra::SymmetricEigen::try_new(m.clone(), 1e-20, 0) {
        Some(s) => s,
        None => return f64::INFINITY,
    };
    let r = &se.eigenvectors * nalgebra::DMatrix::from_diagonal(&se.eigenvalues) * se.eigenvectors.transpose() - m;
    let mut worst: f64 = 0.0;
    for i in 0..n {
        let ry: Vec<f64> = (0..n).map(|a| (0..n).map(|b| r[(a, b)] * e.vecs[i * n + b]).sum::<f64>()).collect();
        for j in 0..n {
            let x: f64 = (0..n).map(|a| e.vecs[j * n + a] * ry[a]).sum();
            let x = x.abs() / (e.vals[i] * e.vals[j]).sqrt();
            if x.is_nan() {
                return f64::INFINITY;
            }
            worst = worst.max(x);
        }
    }
    worst
}

#[derive(Clone, Debug)]
pub struct Pred {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub cov: Vec<f64>,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    /// distance of the stall indicator from its threshold (relative)
    pub hs_margin: f64,
    pub hs: bool,
    /// the other stall branch
    pub alt_cov: Vec<f64>,
    pub alt_pc: Vec<f64>,
}

impl Model {
    pub fn new(cfg: &Cfg) -> Self {
        let p = Params::of(cfg);
        let n = p.n;
        Model { p, max: cfg.max, ps: vec![0.0; n], pc: vec![0.0; n], eig: Eig::identity(n), gens: 0, eig_err: 0.0 }
    }

    /// Steps y_k = (x_k - m) / sigma
    pub fn steps(prior: &Snap, calls: &[Call]) -> Vec<Vec<f64>> {
        calls
            .iter()
            .map(|c| c.x.iter().zip(&prior.mean).map(|(x, m)| (x - m) / prior.sigma).collect())
            .collect()
    }

    /// Bound on the relative error with which the steps can be reconstructed (after whitening)
    pub fn step_error(&self, prior: &Snap, calls: &[Call]) -> f64 {
        let big = calls
            .iter()
            .flat_map(|c| c.x.iter())
            .chain(prior.mean.iter())
            .fold(0.0f64, |a, b| a.max(b.abs()));
        let cond = (self.eig.max() / self.eig.min()).sqrt();
        4.0 * f64::EPSILON * (big / prior.sigma / self.eig.min().sqrt() + cond * cond)
    }

    pub fn predict(&self, prior: &Snap, calls: &[Call], order: &[usize]) -> Pred {
        let y = Self::steps(prior, calls);
        let n = self.p.n;
        let yw: Vec<f64> = (0..n)
            .map(|k| (0..self.p.mu).map(|i| self.p.w[i] * y[order[i]][k]).sum())
            .collect();
        self.predict_with(prior, &y, order, &yw)
    }

    pub fn predict_with(&self, prior: &Snap, y: &[Vec<f64>], order: &[usize], yw: &[f64]) -> Pred {
        let p = &self.p;
        let n = p.n;
        let mean: Vec<f64> = (0..n).map(|k| prior.mean[k] + p.cm * prior.sigma * yw[k]).collect();
        let wh = self.eig.whiten(yw);
        let fs = (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt();
        let ps: Vec<f64> = (0..n).map(|k| (1.0 - p.cs) * self.ps[k] + fs * wh[k]).collect();
        let psn = crate::util::norm(&ps);
        let sigma = prior.sigma * ((p.cs / p.ds) * (psn / p.chi() - 1.0)).exp();
        let lhs = psn / (1.0 - (1.0 - p.cs).powf(2.0 * (self.gens as f64 + 1.0))).sqrt();
        let rhs = (1.4 + 2.0 / (n as f64 + 1.0)) * p.chi();
        let hs = lhs < rhs;
        let hs_margin = (lhs - rhs).abs() / rhs;
        // rank-mu part
        let mut rm = vec![0.0; n * n];
        for (i, w) in p.w.iter().enumerate() {
            let yi = &y[order[i]];
            let mut w = *w;
            if w < 0.0 {
                let q = whiten_norm(&self.eig, yi);
                w *= n as f64 / (q * q);
            }
            for a in 0..n {
                for b in 0..n {
                    rm[a * n + b] += w * yi[a] * yi[b];
                }
            }
        }
        let wsum: f64 = p.w.iter().sum();
        let fc = (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt();
        let make = |hs: bool| {
            let h = if hs { 1.0 } else { 0.0 };
            let pc: Vec<f64> = (0..n).map(|k| (1.0 - p.cc) * self.pc[k] + h * fc * yw[k]).collect();
            let dh = (1.0 - h) * p.cc * (2.0 - p.cc);
            let keep = 1.0 + p.c1 * dh - p.c1 - p.cmu * wsum;
            let mut c = vec![0.0; n * n];
            for a in 0..n {
                for b in 0..n {
                    c[a * n + b] =
                        keep * prior.cov[a * n + b] + p.c1 * pc[a] * pc[b] + p.cmu * rm[a * n + b];
                }
            }
            (pc, c)
        };
        let (pc, cov) = make(hs);
        let (alt_pc, alt_cov) = make(!hs);
        Pred { mean, sigma, cov, ps, pc, hs_margin, hs, alt_cov, alt_pc }
    }
}

/// Largest difference of two matrices relative to sqrt(diag products)
pub fn cov_diff(a: &[f64], b: &[f64], n: usize) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..n {
        for j in 0..n {
            let sc = (b[i * n + i].abs() * b[j * n + j].abs()).sqrt().max(1e-300);
            let x = (a[i * n + j] - b[i * n + j]).abs() / sc;
            if x.is_nan() {
                return f64::INFINITY;
            }
            d = d.max(x);
        }
    }
    d
}

pub enum Step {
    /// checked
    Ok { hs: bool },
    /// not decidable (rounding)
    Skip,
    /// checked except for tie order
    Tied,
}

/// Checks one completed generation against the model and advances the model.
pub fn check_generation(
    m: &mut Model,
    prior: &Snap,
    calls: &[Call],
    post: &Snap,
    tol: f64,
) -> Result<Step, String> {
    let n = m.p.n;
    let err = m.step_error(prior, calls) * 100.0 + m.eig_err * 10.0;
    if !(err < tol) || !(prior.sigma > 1e-150 && prior.sigma < 1e150) {
        return Ok(Step::Skip);
    }
    let tol = tol.max(err);
    let order = rank(calls, m.max);
    let mut pred = m.predict(prior, calls, &order);
    let mut res = Step::Ok { hs: pred.hs };
    let scale = |k: usize| prior.sigma * prior.cov[k * n + k].sqrt() + prior.mean[k].abs() * 1e-10;
    let mean_bad = |pred: &Pred| (0..n).find(|&k| !((pred.mean[k] - post.mean[k]).abs() <= tol * scale(k)));
    if let Some(k) = mean_bad(&pred) {
        if has_ties(calls) {
            // ranking within ties is unspecified: continue from the observed mean step
            let y = Model::steps(prior, calls);
            let yw: Vec<f64> = (0..n)
                .map(|k| (post.mean[k] - prior.mean[k]) / (m.p.cm * prior.sigma))
                .collect();
            pred = m.predict_with(prior, &y, &order, &yw);
            res = Step::Tied;
        } else {
            return Err(format!(
                "mean[{}] = {:e}, weighted recombination gives {:e} (prior mean {:e}, sigma {:e})",
                k, post.mean[k], pred.mean[k], prior.mean[k], prior.sigma
            ));
        }
    }
    if !((pred.sigma - post.sigma).abs() <= tol * pred.sigma) {
        return Err(format!(
            "sigma = {:e}, step-size adaptation gives {:e} (prior {:e})",
            post.sigma, pred.sigma, prior.sigma
        ));
    }
    let d = cov_diff(&pred.cov, &post.cov, n);
    let mut pc = pred.pc.clone();
    if !(d <= tol) {
        let alt = cov_diff(&pred.alt_cov, &post.cov, n);
        if pred.hs_margin < 1e-6 && alt <= tol {
            pc = pred.alt_pc.clone();
        } else if matches!(res, Step::Tied) || has_ties(calls) {
            res = Step::Tied;
        } else {
            return Err(format!(
                "covariance differs from the rank-one/rank-mu update by {:e} (relative): {:?} vs {:?}{}",
                d,
                post.cov,
                pred.cov,
                if alt <= tol { " [matches the other stall branch]" } else { "" }
            ));
        }
    }
    m.ps = pred.ps;
    m.pc = pc;
    m.gens += 1;
    // decomposition refreshed?
    if !crate::util::vec_bits_eq(&prior.eig, &post.eig) {
        m.eig = Eig::of(&post.cov, n);
        m.eig_err = m.eig_err.max(lib_eig_error(&post.cov, &m.eig));
    }
    Ok(res)
}
