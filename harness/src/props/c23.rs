//! C23: rendering and saving plots.
use crate::cfg::{dims, Cfg};
use crate::obj::{any_obj, new_log, Obj, Rec};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::plotting::{Plot, PLOT_HEIGHT, PLOT_WIDTH};
use cmaes::PlotOptions;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    #[serde(with = "crate::util::fser::vec")]
    script: Vec<f64>,
    nan_at: Option<usize>,
    scientific: bool,
    clear_at: Option<usize>,
}

fn coordinate() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -5.0..5.0f64,
        1 => Just(0.0),
        1 => (-300..300i32, -9.99..9.99f64).prop_map(|(e, m)| m * 10f64.powi(e)),
        1 => prop::sample::select(vec![-1.0, 1.0, 1e15, -1e15, 1e300, -1e300, 1e-300, -1e-300, 5e-324]),
    ]
    .boxed()
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -10.0..10.0f64,
        1 => Just(0.0),
        2 => (-307..308i32, -9.99..9.99f64).prop_map(|(e, m)| m * 10f64.powi(e)),
        1 => prop::sample::select(vec![f64::MAX, f64::MIN, 5e-324, -5e-324, 1e-20, 1e-21]),
        1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY]),
    ]
    .boxed()
}

fn scripts() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        4 => Just(vec![]),
        2 => prop::collection::vec(value(), 1..60),
        1 => value().prop_map(|v| vec![v]),
        // one kind of value per generation or so
        1 => prop::collection::vec((value(), 1..15usize), 1..6).prop_map(|v| v.into_iter().flat_map(|(v, n)| vec![v; n]).collect()),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (22usize, 40usize) } else { (60, 400) };
    prop_oneof![190 => dims(dim), 6 => 17..130usize, 2 => 130..320usize]
        .prop_flat_map(move |d| {
            (
                prop_oneof![
                    3 => prop::collection::vec(coordinate(), d),
                    1 => coordinate().prop_map(move |c| vec![c; d]),
                ],
                prop_oneof![4 => 0.05..5.0f64, 1 => (-300..300i32).prop_map(|e| 1.7 * 10f64.powi(e)), 1 => Just(1e-12)],
                any_obj(),
                if d > 130 { (0..4usize).boxed() } else { prop_oneof![5 => Just(0usize), 10 => 1..6usize, 10 => 1..long, 1 => 300..if d < 6 { 2000usize } else { 301 }].boxed() },
                scripts(),
                (prop::option::weighted(0.1, 0..40usize), prop_oneof![2 => Just(0usize), 1 => 1..100usize]),
                (any::<bool>(), prop::option::weighted(0.25, 0..20usize), any::<bool>(), any::<u64>()),
            )
        })
        .prop_map(|(mean, sigma, obj, gens, script, (nan_at, gap), (scientific, clear_at, max, seed))| {
            let mut cfg = Cfg::basic(mean, sigma, seed);
            cfg.max = max;
            cfg.plot_gap = Some(gap);
            Case { cfg, obj, gens, script, nan_at, scientific, clear_at }
        })
        .boxed()
}

fn work() -> PathBuf {
    std::env::var("VH_WORK").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("plots-{}", std::process::id()))
}

struct Image {
    w: usize,
    h: usize,
    rgb: Vec<u8>,
}

fn decode(bytes: &[u8]) -> Result<Image, String> {
    let mut d = png::Decoder::new(bytes);
    d.set_transformations(png::Transformations::normalize_to_color8());
    let mut r = d.read_info().map_err(|e| format!("not a PNG file: {}", e))?;
    let mut buf = vec![0; r.output_buffer_size()];
    let info = r.next_frame(&mut buf).map_err(|e| format!("not a complete PNG file: {}", e))?;
    let n = info.color_type.samples();
    let rgb = match n {
        3 => buf[..info.buffer_size()].to_vec(),
        4 => buf[..info.buffer_size()].chunks(4).flat_map(|c| c[..3].to_vec()).collect(),
        n => buf[..info.buffer_size()].chunks(n).flat_map(|c| [c[0]; 3]).collect(),
    };
    Ok(Image { w: info.width as usize, h: info.height as usize, rgb })
}

impl Image {
    /// Number of coloured pixels in a part of the image
    fn coloured(&self, x: std::ops::Range<usize>, y: std::ops::Range<usize>) -> usize {
        let mut n = 0;
        for j in y {
            for i in x.clone() {
                let p = &self.rgb[(j * self.w + i) * 3..(j * self.w + i) * 3 + 3];
                let (lo, hi) = (p.iter().min().unwrap(), p.iter().max().unwrap());
                if hi - lo > 60 {
                    n += 1;
                }
            }
        }
        n
    }
}

fn save(p: &Plot, path: &Path) -> Result<Vec<u8>, String> {
    p.save_to_file(path, false).map_err(|e| format!("saving failed: {}", e))?;
    std::fs::read(path).map_err(|e| format!("no file was written: {}", e))
}

fn check(c: &Case) -> CheckResult {
    let log = new_log();
    let mut rec = Rec::new(&c.obj, &log);
    if !c.script.is_empty() {
        rec = rec.script(c.script.clone());
    }
    if let Some(n) = c.nan_at {
        rec = rec.nan_at(vec![n]);
    }
    let o = c.cfg.options().enable_plot(PlotOptions::new(c.cfg.plot_gap.unwrap(), c.scientific));
    let Ok(mut s) = o.build(rec) else {
        return Ok(Outcome::trivial().class("invalid"));
    };
    // the optimizer itself may fail on extreme states; that is another property's concern
    let driven = crate::runner::guard(|| {
        for g in 0..c.gens {
            if c.clear_at == Some(g) {
                s.get_mut_plot().unwrap().clear();
            }
            if s.next().is_some() && g > c.gens / 2 {
                break;
            }
        }
        s.add_plot_point();
    });
    if driven.is_err() {
        return Ok(Outcome::trivial().class("run failed"));
    }
    let p = s.get_plot().unwrap();
    let before = format!("{:?}", p);
    let dir = work();
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("a.png");
    let r = (|| {
        let bytes = save(p, &path)?;
        let img = decode(&bytes)?;
        if (img.w, img.h) != (PLOT_WIDTH as usize, PLOT_HEIGHT as usize) {
            return Err(format!("an image of {} x {}", img.w, img.h));
        }
        if format!("{:?}", p) != before {
            return Err("saving changed the plot".to_string());
        }
        if img.rgb.iter().all(|b| *b == img.rgb[0]) {
            return Err("an empty image".to_string());
        }
        // a second file, over an existing one
        let path2 = dir.join("b.png");
        std::fs::write(&path2, b"something else").unwrap();
        let again = save(p, &path2)?;
        if again != bytes {
            return Err("saving the same plot twice gives different files".to_string());
        }
        Ok(img)
    })();
    let _ = std::fs::remove_dir_all(&dir);
    let img = match r {
        Ok(i) => i,
        Err(e) => fail!("{} ({} points)", e, p.len()),
    };
    let n = p.len();
    let (w, h) = (img.w, img.h);
    if n >= 3 && c.clear_at.is_none() && c.nan_at.is_none() && c.cfg.dim() <= 5 {
        // the axis scales (bottom left, without a legend) are drawn over the whole range
        for (what, x) in [("left", 70..w / 4), ("right", w / 4..w / 2 - 30)] {
            let k = img.coloured(x, h / 2 + 30..h - 30);
            ensure!(k > 20, "{} coloured pixels in the {} half of the axis scales of {} points", k, what, n);
        }
        for (what, x, y) in [("values", 0..w / 2, 0..h / 2), ("mean", w / 2..w, 0..h / 2), ("coordinate scales", w / 2..w, h / 2..h)] {
            let k = img.coloured(x, y);
            ensure!(k > 20, "{} coloured pixels in the {} of {} points", k, what, n);
        }
    }
    let extreme = c.script.iter().any(|v| v.is_infinite() || v.abs() > 1e100);
    Ok(Outcome::new(true)
        .class(if extreme { "extreme values" } else { "moderate values" })
        .class(if n == 1 { "one point" } else { "several points" })
        .class(if c.scientific { "scientific" } else { "plain" })
        .count("points", n as u64))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Target {
    MissingDir,
    CreatedDir(u8),
    IsDirectory,
    ParentIsFile,
    NoPermission,
    Plain,
    /// a file name alone, or a relative path
    Relative(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    cfg: Cfg,
    gens: usize,
    target: Target,
    create_dirs: bool,
}

fn path_strategy(_: Tier) -> BoxedStrategy<PathCase> {
    (
        crate::cfg::core_cfg(4, 8),
        0..8usize,
        prop_oneof![
            Just(Target::MissingDir),
            (1..5u8).prop_map(Target::CreatedDir),
            Just(Target::IsDirectory),
            Just(Target::ParentIsFile),
            Just(Target::NoPermission),
            Just(Target::Plain),
            any::<bool>().prop_map(Target::Relative)
        ],
        any::<bool>(),
    )
        .prop_map(|(mut cfg, gens, target, create_dirs)| {
            cfg.plot_gap = Some(0);
            cfg.sigma = cfg.sigma.clamp(1e-3, 1e3);
            PathCase { cfg, gens, target, create_dirs }
        })
        .boxed()
}

fn check_path(c: &PathCase) -> CheckResult {
    let obj = Obj::new(crate::obj::Kind::Sphere);
    let mut s = c.cfg.options().build(Rec::new(&obj, &new_log())).unwrap();
    for _ in 0..c.gens {
        let _ = s.next();
    }
    let p = s.get_plot().unwrap();
    let before = format!("{:?}", p);
    let dir = work();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let (path, create, ok) = match c.target {
        Target::MissingDir => (dir.join("no/such/x.png"), false, false),
        Target::CreatedDir(n) => {
            let mut d = dir.clone();
            for i in 0..n {
                d = d.join(format!("d{}", i));
            }
            (d.join("x.png"), true, true)
        }
        Target::IsDirectory => {
            std::fs::create_dir_all(dir.join("x.png")).unwrap();
            (dir.join("x.png"), c.create_dirs, false)
        }
        Target::ParentIsFile => {
            std::fs::write(dir.join("f"), b"content").unwrap();
            (dir.join("f").join("x.png"), c.create_dirs, false)
        }
        // a device that cannot hold anything
        Target::NoPermission => {
            std::os::unix::fs::symlink("/dev/full", dir.join("x.png")).unwrap();
            (dir.join("x.png"), c.create_dirs, false)
        }
        Target::Plain => (dir.join("x.png"), c.create_dirs, true),
        Target::Relative(false) => (PathBuf::from("x.png"), c.create_dirs, true),
        Target::Relative(true) => (PathBuf::from("sub/dir/x.png"), true, true),
    };
    let home = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let r = crate::runner::guard(|| p.save_to_file(&path, create).map_err(|e| e.to_string()));
    let written = std::fs::read(if ok { &path } else { Path::new("/nonexistent") });
    let intact = std::fs::read(dir.join("f")).map_or(true, |b| b == b"content");
    let made = dir.join("no").exists();
    std::env::set_current_dir(home).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let r = match r {
        Ok(r) => r,
        Err(m) => fail!("saving to {:?} panicked: {}", c.target, m),
    };
    ensure!(r.is_ok() == ok, "saving to {:?} (create_dirs: {}): {:?}", c.target, create, r);
    if let Err(e) = &r {
        ensure!(!e.is_empty(), "an empty error message");
    }
    if ok {
        match written {
            Ok(b) => {
                if let Err(e) = decode(&b) {
                    fail!("{:?}: {}", c.target, e);
                }
            }
            Err(e) => fail!("{:?}: no file: {}", c.target, e),
        }
    }
    ensure!(intact, "another file was changed");
    ensure!(!made, "directories were created without create_dirs");
    ensure!(format!("{:?}", p) == before, "saving changed the plot");
    Ok(Outcome::new(true).class(format!("{:?}", c.target).split('(').next().unwrap().to_string()))
}

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "a case is non-trivial if a plot was drawn",
        assumptions: vec!["a hang is 120 s of CPU time for one case"],
        sections: vec![
            Box::new(Section { name: "paths", quick: 60, thorough: 400, strategy: path_strategy, check: check_path, fixed: no_fixed }),
            Box::new(Section { name: "render", quick: 1_600, thorough: 30_000, strategy, check, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
