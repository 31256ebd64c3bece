//! C24: printed information.
use crate::capture::capture;
use crate::cfg::{wide_cfg, with_cons, Cfg, W};
use crate::obj::{any_obj, new_log, Obj, Rec};
use crate::rec::{snap, td, Snap, Td};
use crate::rst::{rcfg, run_fresh, RCfg, Strat};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use cmaes::termination::TerminationReason as R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    Run,
    RunParallel,
    Next,
    NextParallel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    #[serde(with = "crate::util::fser::vec")]
    script: Vec<f64>,
    nan_at: Option<usize>,
    via: Via,
    /// manual print_info calls after these generations (with next only)
    extra: Vec<usize>,
    /// manual print_final_info after the last generation (with next only)
    fin: bool,
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -10.0..10.0f64,
        3 => (-320..309i32, -9.99..9.99f64).prop_map(|(e, m)| format!("{}e{}", m, e).parse().unwrap()),
        1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, 5e-324, 9.9999999999999e99, 9.999999e-100, 1e100]),
    ]
    .boxed()
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let (dim, long) = if t == Tier::Quick { (8usize, 80usize) } else { (25, 400) };
    (
        with_cons(wide_cfg(dim, 25)),
        any_obj(),
        prop_oneof![2 => 1..8usize, 2 => 4..long],
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(value(), 20..200)],
        prop::option::weighted(0.25, prop_oneof![0..30usize, 0..600usize]),
        prop_oneof![3 => Just(Via::Run), 1 => Just(Via::RunParallel), 3 => Just(Via::Next), 1 => Just(Via::NextParallel)],
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(0..30usize, 1..4)],
        prop_oneof![1 => Just(0usize), 1 => Just(1), 4 => 1..60usize, 3 => 1..400usize, 1 => Just(1_000_000), 1 => prop_oneof![Just(usize::MAX), (0..2000usize).prop_map(|k| usize::MAX - k)]],
        (any::<bool>(), 0..4u8, prop::bool::weighted(0.2)),
    )
        .prop_map(|(mut cfg, obj, gens, script, nan_at, via, extra, gap, (fin, exact, big_sigma))| {
            // gaps that are multiples of the population size, and neighbours
            let lam = cfg.lam();
            cfg.print_gap = Some(match exact {
                0 => gap % 12 * lam,
                1 => gap % 12 * lam + 1,
                _ => gap,
            });
            if big_sigma {
                cfg.sigma *= if fin { 1e100 } else { 1e-100 };
            }
            let par = via == Via::RunParallel || via == Via::NextParallel;
            Case {
                cfg,
                obj,
                gens,
                script: if par { vec![] } else { script },
                nan_at: if par { None } else { nan_at },
                via,
                extra,
                fin,
            }
        })
        .boxed()
}

/// Checks a printed number against its exact value; the printed precision must be at least
/// `digits` decimals of the mantissa.
pub fn printed(tok: &str, v: f64, digits: usize, what: &str) -> Result<(), String> {
    let t = tok.trim();
    let bad = || Err(format!("{}: printed `{}` for {:e}", what, t, v));
    let p: f64 = match t.parse() {
        Ok(p) => p,
        Err(_) => return bad(),
    };
    if v.is_nan() || v.is_infinite() {
        return if p.is_nan() == v.is_nan() && (v.is_nan() || p == v) { Ok(()) } else { bad() };
    }
    let lower = t.to_ascii_lowercase();
    let (m, e) = match lower.split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap_or(0)),
        None => (lower.clone(), 0),
    };
    let dec = m.split_once('.').map_or(0, |d| d.1.len());
    if dec < digits {
        return Err(format!("{}: `{}` has {} decimals, expected at least {}", what, t, dec, digits));
    }
    let ulp = format!("1e{}", e - dec as i32).parse::<f64>().unwrap();
    if p == v || (p - v).abs() <= 0.5000001 * ulp + v.abs() * 4e-16 {
        return Ok(());
    }
    if p.is_infinite() && v.abs() > 1.797e308 && (p > 0.0) == (v > 0.0) {
        return Ok(());
    }
    bad()
}

/// All numbers shown in a printed vector
fn vector(text: &[&str]) -> Vec<String> {
    text.join(" ")
        .split(|c: char| c.is_whitespace() || "┌┐└┘│[],".contains(c))
        .filter(|s| s.parse::<f64>().is_ok())
        .map(|s| s.to_string())
        .collect()
}

fn check_vector(text: &[&str], want: &[f64], what: &str) -> Result<(), String> {
    let v = vector(text);
    if v.len() != want.len() {
        return Err(format!("{}: {} numbers printed of {}: {:?}", what, v.len(), want.len(), text));
    }
    for (t, w) in v.iter().zip(want) {
        printed(t, *w, 0, what)?;
    }
    Ok(())
}

fn check_row(line: &str, title: &str, s: &Snap) -> Result<(), String> {
    let cols: Vec<&str> = line.split('|').collect();
    if cols.len() != 7 {
        return Err(format!("expected the row of generation {}, found `{}`", s.gen, line));
    }
    let int = |t: &str, v: usize, what: &str| match t.trim().parse::<usize>() {
        Ok(p) if p == v => Ok(()),
        _ => Err(format!("{} printed as `{}`, expected {} (row `{}`)", what, t.trim(), v, line)),
    };
    int(cols[0], s.gen, "generation")?;
    int(cols[1], s.evals, "evaluations")?;
    match &s.cur {
        Some(c) => printed(cols[2], c.1, 10, "best function value")?,
        None => {
            if !cols[2].trim().is_empty() {
                return Err(format!("a best function value `{}` before any generation", cols[2]));
            }
        }
    }
    printed(cols[3], s.ratio, 3, "axis ratio")?;
    printed(cols[4], s.sigma, 3, "sigma")?;
    let n = s.mean.len();
    let diag: Vec<f64> = (0..n).map(|i| s.cov[i * n + i]).collect();
    let lo = s.sigma * diag.iter().cloned().fold(f64::INFINITY, f64::min).sqrt();
    let hi = s.sigma * diag.iter().cloned().fold(f64::NEG_INFINITY, f64::max).sqrt();
    printed(cols[5], lo, 3, "min std")?;
    printed(cols[6], hi, 3, "max std")?;
    if line.chars().count() != title.chars().count() {
        // three-digit exponents take one more column
        let wide = cols.iter().any(|c| c.trim().rsplit_once('e').map_or(false, |e| e.1.len() > 3));
        if !wide {
            return Err(format!("the row `{}` is not aligned with the title `{}`", line, title));
        }
    }
    Ok(())
}

fn drive_printing(c: &Case) -> (Vec<(Snap, Option<Td>)>, String, String) {
    // returns the states after each generation, the text printed by building and by the rest
    let log = new_log();
    let mut rec = Rec::new(&c.obj, &log);
    if !c.script.is_empty() {
        rec = rec.script(c.script.clone());
    }
    if let Some(n) = c.nan_at {
        rec = rec.nan_at(vec![n]);
    }
    let mut cfg = c.cfg.clone();
    cfg.max_gens = Some(c.gens);
    let (mut s, head) = capture(|| cfg.options().build(rec).expect("valid options"));
    let ((st, _), text) = capture(|| {
        let mut st = vec![(snap(&s), None)];
        match c.via {
            Via::Run | Via::RunParallel => {
                let t = if c.via == Via::Run { s.run() } else { s.run_parallel() };
                st.push((snap(&s), Some(td(&t))));
            }
            _ => loop {
                if c.extra.contains(&(st.len() - 1)) {
                    s.print_info();
                }
                let t = if c.via == Via::Next { s.next() } else { s.next_parallel() };
                st.push((snap(&s), t.as_ref().map(td)));
                if let Some(t) = t {
                    if c.extra.contains(&(st.len() - 1)) {
                        s.print_info();
                    }
                    if c.fin {
                        s.print_final_info(&t.reasons);
                    }
                    break;
                }
            },
        }
        (st, ())
    });
    (st, head, text)
}

fn check(c: &Case) -> CheckResult {
    // a twin that never prints
    let mut quiet = c.clone();
    quiet.cfg.print_gap = None;
    quiet.extra = vec![];
    quiet.fin = false;
    quiet.via = match c.via {
        Via::Run => Via::Next,
        Via::RunParallel => Via::NextParallel,
        v => v,
    };
    let (st, h, t) = drive_printing(&quiet);
    ensure!(h.is_empty() && t.is_empty(), "printed `{}{}` although printing is disabled", h, t);
    let (st2, head, text) = drive_printing(c);
    let end = st.last().unwrap();
    let end2 = st2.last().unwrap();
    if let Some(d) = end.0.diff(&end2.0) {
        fail!("printing changed the run: {}", d);
    }
    if let Some(d) = crate::rec::opt_td_diff(&end.1, &end2.1) {
        fail!("printing changed the run: {}", d);
    }

    // the start
    let hl: Vec<&str> = head.lines().collect();
    ensure!(hl.len() == 3, "building printed {} lines: {:?}", hl.len(), hl);
    let variant = if c.cfg.weights == W::Neg { "aCMA-ES" } else { "CMA-ES" };
    ensure!(hl[0].split_whitespace().next() == Some(variant), "variant in `{}`, expected {}", hl[0], variant);
    let field = |name: &str| {
        hl[0].split(|ch: char| ch == ',' || ch.is_whitespace()).find_map(|w| w.strip_prefix(name).and_then(|w| w.strip_prefix('=')).map(|s| s.to_string()))
    };
    for (n, v) in [("dimension", c.cfg.dim().to_string()), ("lambda", c.cfg.lam().to_string()), ("seed", c.cfg.seed.to_string())] {
        ensure!(field(n).as_deref() == Some(v.as_str()), "{} in `{}`, expected {}", n, hl[0], v);
    }
    let title = hl[1];
    ensure!(title.split('|').count() == 7, "title `{}`", title);
    ensure!(hl[2].chars().count() == title.chars().count() && hl[2].chars().all(|ch| ch == '-'), "rule `{}`", hl[2]);

    // the rows
    let gap = c.cfg.print_gap.unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let mut pos = 0;
    let mut rows = 0u64;
    let (mut last, mut last_any) = (0usize, 0usize);
    let mut row = |pos: &mut usize, s: &Snap| -> Result<(), String> {
        let l = lines.get(*pos).ok_or_else(|| format!("the row of generation {} ({} evaluations, gap {}) is missing", s.gen, s.evals, gap))?;
        check_row(l, title, s)?;
        *pos += 1;
        rows += 1;
        Ok(())
    };
    macro_rules! row {
        ($s:expr) => {
            if let Err(e) = row(&mut pos, $s) {
                fail!("{}", e);
            }
        };
    }
    let manual = matches!(c.via, Via::Next | Via::NextParallel);
    let mut periodic = 0;
    for (i, (s, t)) in st.iter().enumerate() {
        if i > 0 {
            let aborted = t.as_ref().map_or(false, |t| t.reasons.contains(&R::InvalidFunctionValue) || t.reasons.contains(&R::PosDefCov));
            if !aborted {
                if s.evals >= last.saturating_add(gap) {
                    row!(s);
                    last = s.evals;
                    last_any = s.evals;
                    periodic += 1;
                } else if s.gen <= 3 {
                    row!(s);
                    last_any = s.evals;
                }
            }
        }
        if manual && c.extra.contains(&i) {
            row!(s);
        }
    }
    let mut finals = false;
    if !manual || c.fin {
        finals = true;
        let (s, t) = (&end.0, end.1.as_ref().unwrap());
        if s.evals != last_any {
            row!(s);
        }
        let mut next = |what: &str| -> Result<&str, String> {
            let l = lines.get(pos).ok_or_else(|| format!("{} is missing at the end", what))?;
            pos += 1;
            Ok(l)
        };
        macro_rules! next {
            ($what:expr) => {
                match next($what) {
                    Ok(l) => l,
                    Err(e) => fail!("{}", e),
                }
            };
        }
        let l = next!("the line of reasons");
        let (a, b) = match l.split_once(':') {
            Some(x) => x,
            None => fail!("expected the reasons, found `{}`", l),
        };
        ensure!(a.contains("Terminated"), "expected the reasons, found `{}`", l);
        let got: Vec<String> = b.split(',').map(|s| s.trim().trim_matches('`').to_string()).collect();
        let want: Vec<String> = t.reasons.iter().map(|r| format!("{:?}", r)).collect();
        ensure!(got == want, "printed reasons {:?}, expected {:?}", got, want);
        if let (Some(cur), Some(best)) = (&s.cur, &s.best) {
            for (what, v) in [("Current best", cur.1), ("Overall best", best.1)] {
                let l = next!(what);
                ensure!(l.starts_with(what), "expected the {} value, found `{}`", what, l);
                let p: Option<f64> = l.rsplit_once(':').and_then(|x| x.1.trim().parse().ok());
                ensure!(p == Some(v), "`{}` printed for {} {:e}", l, what, v);
            }
        }
        let l = next!("the final mean");
        ensure!(l.starts_with("Final mean"), "expected the final mean, found `{}`", l);
        if let Err(e) = check_vector(&lines[pos..], &s.mean, "final mean") {
            fail!("{}", e);
        }
    } else {
        ensure!(pos == lines.len(), "unexpected output `{}` after generation {} (gap {})", lines[pos], end.0.gen, gap);
    }
    Ok(Outcome::new(rows > 0)
        .class(if periodic > 3 { "several periods" } else { "first generations" })
        .class(if finals { "final information" } else { "no final information" })
        .class(if c.nan_at.is_some() { "NaN" } else { "no NaN" })
        .count("rows", rows))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    cfg: RCfg,
    obj: Obj,
    target: Option<u8>,
    nan_at: Vec<usize>,
}

fn rstrategy(t: Tier) -> BoxedStrategy<RCase> {
    (
        rcfg(if t == Tier::Quick { 4 } else { 8 }),
        any_obj(),
        prop::option::weighted(0.3, 0..4u8),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![0..300usize, 0..4000usize], 1..3)],
    )
        .prop_map(|(cfg, obj, target, nan_at)| RCase { cfg, obj, target, nan_at })
        .boxed()
}

fn check_restart(case: &RCase) -> CheckResult {
    let mut c = case.cfg.clone();
    c.target = case.target.map(|q| super::c19::target_for(&c, &case.obj, q));
    let c = &c;
    let (quiet, none) = capture(|| run_fresh(c.restarter(false), &case.obj, &case.nan_at, 0.0));
    ensure!(none.is_empty(), "printed `{}` although printing is disabled", none);
    let (ran, text) = capture(|| run_fresh(c.restarter(true), &case.obj, &case.nan_at, 0.0));
    ensure!(
        quiet.calls.len() == ran.calls.len() && quiet.res.reason == ran.res.reason && quiet.res.runs == ran.res.runs,
        "printing changed the restart: {:?} against {:?}", ran.res, quiet.res
    );
    let lines: Vec<&str> = text.lines().collect();
    let runs = ran.runs();
    ensure!(lines.len() >= 2 + 2 * runs.len(), "{} lines for {} runs", lines.len(), runs.len());
    // the start
    let l = lines[0];
    let name = match &c.strat {
        Strat::Local(..) => "LR-aCMA-ES",
        Strat::Ipop(_) => "IPOP-aCMA-ES",
        Strat::Bipop(..) => "BIPOP-aCMA-ES",
    };
    ensure!(l.starts_with(name), "`{}` does not start with {}", l, name);
    ensure!(l.contains(&format!("dimension={},", c.dim)), "dimension {} in `{}`", c.dim, l);
    ensure!(l.trim_end().ends_with(&format!("seed={}", c.seed)), "seed {} in `{}`", c.seed, l);
    let range: Option<Vec<f64>> = l
        .split_once("search_range=[")
        .and_then(|(_, r)| r.split_once(']'))
        .and_then(|(r, _)| r.split(',').map(|v| v.trim().parse().ok()).collect());
    ensure!(range.as_deref() == Some(&[c.lo(), c.hi()]), "search range in `{}`, expected {} to {}", l, c.lo(), c.hi());
    let params: Vec<Option<f64>> = match &c.strat {
        Strat::Local(_, f) => vec![*f],
        Strat::Ipop(i) => vec![i.map(|i| i as f64)],
        Strat::Bipop(f, i) => vec![*f, i.map(|i| i as f64)],
    };
    let shown: Vec<f64> = l
        .split_once("], ")
        .map(|(_, r)| r.split(", ").filter(|p| !p.starts_with("seed=")).filter_map(|p| p.split_once('=')).filter_map(|(_, v)| v.parse().ok()).collect())
        .unwrap_or_default();
    ensure!(shown.len() == params.len(), "{} strategy parameters in `{}`, expected {}", shown.len(), l, params.len());
    for (s, p) in shown.iter().zip(&params) {
        ensure!(p.map_or(true, |p| p == *s), "strategy parameter {} in `{}`, expected {:?}", s, l, p);
    }
    // each run
    for (k, run) in runs.iter().enumerate() {
        let (p, r) = (lines[1 + 2 * k], lines[2 + 2 * k]);
        ensure!(p.starts_with(&format!("Run {} parameters:", k + 1)), "expected the parameters of run {}, found `{}`", k + 1, p);
        ensure!(r.starts_with(&format!("Run {} results:", k + 1)), "expected the results of run {}, found `{}`", k + 1, r);
        let get = |l: &str, n: &str| -> Option<String> {
            let i = l.find(&format!("{}=", n))? + n.len() + 1;
            let e = l[i..].find(", ").unwrap_or(l.len() - i);
            Some(l[i..i + e].trim().to_string())
        };
        let lam: Option<usize> = get(p, "lambda").and_then(|v| v.parse().ok());
        let broken = run.iter().any(|x| x.v.is_nan());
        ensure!(lam.map_or(false, |v| v >= 2 && (broken || v <= run.len())), "`{}` for a run of {} evaluations", p, run.len());
        let lam = lam.unwrap();
        ensure!(get(p, "seed").and_then(|v| v.parse::<u64>().ok()).is_some(), "no seed in `{}`", p);
        ensure!(get(p, "sigma0").and_then(|v| v.parse::<f64>().ok()).map_or(false, |v| v > 0.0), "no step size in `{}`", p);
        ensure!(get(r, "f-evals").and_then(|v| v.parse().ok()) == Some(run.len()), "`{}` for a run of {} evaluations", r, run.len());
        // the best of the completed generations
        let full = match run.iter().position(|x| x.v.is_nan()) {
            Some(i) => i / lam * lam,
            None => run.len(),
        };
        let best = run[..full].iter().map(|x| x.v).fold(None, |b: Option<f64>, v| match b {
            Some(b) if !c.better(v, b) => Some(b),
            _ => Some(v),
        });
        let shown = get(r, "best f-val").unwrap_or_default();
        match best {
            None => ensure!(shown == "None", "best value `{}` of a run without a complete generation", shown),
            Some(b) => {
                if let Err(e) = printed(&shown, b, 10, "best value of a run") {
                    fail!("{} (run {} of {} evaluations)", e, k + 1, run.len());
                }
            }
        }
        let a = r.find("termination_reasons=[").map(|i| i + 21);
        let reasons = a.and_then(|a| r[a..].find(']').map(|e| r[a..a + e].to_string()));
        let reasons = match reasons {
            Some(r) => r,
            None => fail!("no reasons in `{}`", r),
        };
        let nan = full < run.len();
        ensure!(reasons.contains("`InvalidFunctionValue`") == nan, "reasons [{}] of a run {} NaN", reasons, if nan { "with" } else { "without" });
        let hit = c.target.map_or(false, |t| best.map_or(false, |b| c.better(b, t)));
        if !nan {
            ensure!(reasons.contains("`FunTarget`") == hit, "reasons [{}], best {:?}, target {:?}", reasons, best, c.target);
        }
        ensure!(reasons.split(", ").all(|s| s.len() > 2 && s.starts_with('`') && s.ends_with('`')), "reasons [{}]", reasons);
    }
    // the end
    let pos = 1 + 2 * runs.len();
    let l = lines[pos];
    let nums: Vec<usize> = l.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    ensure!(l.starts_with("Terminated") && nums == vec![ran.calls.len()], "`{}` after {} evaluations", l, ran.calls.len());
    ensure!(l.contains(&format!("`{:?}`", ran.res.reason)), "`{}`, reason {:?}", l, ran.res.reason);
    match &ran.res.best {
        None => ensure!(lines.len() == pos + 1, "unexpected `{}`", lines[pos + 1]),
        Some(b) => {
            ensure!(lines.len() > pos + 2, "the best individual is missing");
            let p: Option<f64> = lines[pos + 1].rsplit_once(':').and_then(|x| x.1.trim().parse().ok());
            ensure!(p == Some(b.value), "`{}`, best value {:e}", lines[pos + 1], b.value);
            if let Err(e) = check_vector(&lines[pos + 3..], b.point.as_slice(), "best point") {
                fail!("{}", e);
            }
        }
    }
    Ok(Outcome::new(runs.len() > 1).class(c.strat.label()).class(format!("{:?}", ran.res.reason)).count("runs", runs.len() as u64))
}

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "a run is non-trivial if it printed rows; a restart if it had several runs",
        assumptions: vec!["a printed number is right if it is the exact value rounded to the printed decimals"],
        sections: vec![
            Box::new(Section { name: "run", quick: 12_000, thorough: 150_000, strategy, check, fixed: no_fixed }),
            Box::new(Section { name: "restart", quick: 2_500, thorough: 30_000, strategy: rstrategy, check: check_restart, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
