//! Small helpers: float serialisation, hashing, statistics.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// f64 fields in replay files: numbers when finite, strings otherwise.
pub mod fser {
    use super::*;
    #[derive(Serialize, Deserialize)]
    #[serde(untagged)]
    enum Rep {
        N(f64),
        S(String),
    }
    fn rep(x: f64) -> Rep {
        if x.is_finite() {
            Rep::N(x)
        } else {
            Rep::S(format!("{}", x))
        }
    }
    fn unrep(r: Rep) -> f64 {
        match r {
            Rep::N(x) => x,
            Rep::S(s) => s.parse().unwrap_or(f64::NAN),
        }
    }
    pub fn serialize<S: Serializer>(x: &f64, s: S) -> Result<S::Ok, S::Error> {
        rep(*x).serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<f64, D::Error> {
        Ok(unrep(Rep::deserialize(d)?))
    }
    pub mod vec {
        use super::*;
        pub fn serialize<S: Serializer>(x: &[f64], s: S) -> Result<S::Ok, S::Error> {
            x.iter().map(|v| rep(*v)).collect::<Vec<_>>().serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<f64>, D::Error> {
            Ok(Vec::<Rep>::deserialize(d)?.into_iter().map(unrep).collect())
        }
    }
    pub mod opt {
        use super::*;
        pub fn serialize<S: Serializer>(x: &Option<f64>, s: S) -> Result<S::Ok, S::Error> {
            x.map(rep).serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Option<f64>, D::Error> {
            Ok(Option::<Rep>::deserialize(d)?.map(unrep))
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn bits_eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a == 0.0 && b == 0.0)
}

pub fn vec_bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| bits_eq(*x, *y))
}

/// |a-b| <= tol * max(|a|,|b|,floor)
pub fn close(a: f64, b: f64, tol: f64, floor: f64) -> bool {
    if bits_eq(a, b) {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs()).max(floor)
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// Standard normal CDF (erfc by continued fraction / series; absolute error < 1e-12).
pub fn phi(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}

pub fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let r = if z < 2.5 {
        // series for erf
        let mut sum = z;
        let mut term = z;
        let mut n = 0.0;
        loop {
            n += 1.0;
            term *= -z * z / n;
            let d = term / (2.0 * n + 1.0);
            sum += d;
            if d.abs() < 1e-17 * sum.abs() || n > 200.0 {
                break;
            }
        }
        1.0 - sum * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        // Lentz continued fraction
        let mut f = 0.0;
        for k in (1..=80).rev() {
            f = (k as f64 / 2.0) / (z + f);
        }
        (-z * z).exp() / std::f64::consts::PI.sqrt() / (z + f)
    };
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}

/// Kolmogorov-Smirnov: returns sqrt(n)*D against a CDF.
pub fn ks_stat(samples: &mut [f64], cdf: impl Fn(f64) -> f64) -> f64 {
    samples.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = samples.len() as f64;
    let mut d: f64 = 0.0;
    for (i, x) in samples.iter().enumerate() {
        let c = cdf(*x);
        d = d.max((c - i as f64 / n).abs()).max(((i + 1) as f64 / n - c).abs());
    }
    d * n.sqrt()
}

/// Process CPU time in seconds.
pub fn cpu_time() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// Lets a non-Send value be used by one pool thread while its owner waits.
pub struct Lend<T>(pub T);
unsafe impl<T> Send for Lend<T> {}
impl<T> Lend<T> {
    pub fn get(self) -> T {
        self.0
    }
}

/// Runs `f` on the pool and waits for it.
pub fn on_pool<T>(p: &rayon::ThreadPool, f: impl FnOnce() -> T) -> T {
    let l = Lend(f);
    p.install(move || Lend((l.get())())).get()
}
