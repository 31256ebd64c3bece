//! C28: builds with and without the plotting feature agree. The build without it runs as a
//! server process (`harness serve`, path in VH_NOPLOT) that is asked for the same traces.
use crate::capture::capture;
use crate::cfg::{wide_cfg, with_cons, Cfg};
use crate::obj::{any_obj, new_log, take, Call, Obj, Rec};
use crate::rec::{snap, td, Snap, Td};
use crate::rst::{rcfg, run_fresh, RCfg};
use crate::runner::{no_fixed, CheckResult, Outcome, Property, Section, Tier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    Next,
    NextParallel,
    Run,
    RunParallel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
    cfg: Cfg,
    obj: Obj,
    gens: usize,
    via: Via,
    nan_at: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Restart {
    cfg: RCfg,
    obj: Obj,
    target: Option<u8>,
    nan_at: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    Single(Single),
    Restart(Restart),
}

fn strategy(t: Tier) -> BoxedStrategy<Single> {
    let (dim, gens) = if t == Tier::Quick { (10usize, 60usize) } else { (30, 400) };
    (
        with_cons(wide_cfg(dim, 25)),
        any_obj(),
        1..gens,
        prop_oneof![2 => Just(Via::Next), 1 => Just(Via::NextParallel), 2 => Just(Via::Run), 1 => Just(Via::RunParallel)],
        prop::option::weighted(0.2, 0..300usize),
        (0..200usize, prop::option::of(0..200usize), prop::bool::weighted(0.3)),
    )
        .prop_map(|(mut cfg, obj, gens, via, nan_at, (plot, print, target))| {
            cfg.plot_gap = Some(plot);
            cfg.print_gap = print;
            if target {
                cfg.fun_target = Some(0.5);
            }
            let par = matches!(via, Via::NextParallel | Via::RunParallel);
            Single { cfg, obj, gens, via, nan_at: if par { None } else { nan_at } }
        })
        .boxed()
}

fn restart_strategy(t: Tier) -> BoxedStrategy<Restart> {
    (
        rcfg(if t == Tier::Quick { 4 } else { 8 }),
        any_obj(),
        prop::option::weighted(0.3, 0..4u8),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0..3000usize, 1..3)],
    )
        .prop_map(|(cfg, obj, target, nan_at)| Restart { cfg, obj, target, nan_at })
        .boxed()
}

fn hex(v: &[f64]) -> String {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")
}
fn show_calls(o: &mut String, calls: &[Call], sort: bool) {
    let mut l: Vec<String> = calls.iter().map(|c| format!("evaluation {} {:016x} ({:?} = {:e})", hex(&c.x), c.v.to_bits(), c.x, c.v)).collect();
    if sort {
        l.sort();
    }
    for s in l {
        let _ = writeln!(o, "{}", s);
    }
}
fn show_snap(o: &mut String, s: &Snap) {
    let ind = |i: &Option<(Vec<f64>, f64)>| i.as_ref().map_or("none".to_string(), |i| format!("{} {:016x}", hex(&i.0), i.1.to_bits()));
    let _ = writeln!(
        o,
        "state {} {} mean {} sigma {:016x} cov {} eig {} ratio {:016x} current {} best {}",
        s.gen, s.evals, hex(&s.mean), s.sigma.to_bits(), hex(&s.cov), hex(&s.eig), s.ratio.to_bits(), ind(&s.cur), ind(&s.best)
    );
}
fn show_td(o: &mut String, t: &Td) {
    let _ = writeln!(o, "terminated {:?} {:?} {:?} {}", t.reasons, t.cur, t.best, hex(&t.final_mean));
}

fn trace(a: &Ask, plot: bool) -> String {
    let mut o = String::new();
    match a {
        Ask::Single(c) => {
            let mut cfg = c.cfg.clone();
            if !plot {
                cfg.plot_gap = None;
            }
            cfg.max_gens = Some(c.gens);
            let log = new_log();
            let rec = Rec::new(&c.obj, &log).nan_at(c.nan_at.into_iter().collect());
            let (body, text) = capture(|| {
                let mut b = String::new();
                let mut s = cfg.options().build(rec).expect("valid options");
                show_snap(&mut b, &snap(&s));
                let sort = matches!(c.via, Via::NextParallel | Via::RunParallel);
                match c.via {
                    Via::Run | Via::RunParallel => {
                        let t = if sort { s.run_parallel() } else { s.run() };
                        show_calls(&mut b, &take(&log), sort);
                        show_td(&mut b, &td(&t));
                    }
                    _ => {
                        for _ in 0..c.gens + 2 {
                            let t = if sort { s.next_parallel() } else { s.next() };
                            show_calls(&mut b, &take(&log), sort);
                            show_snap(&mut b, &snap(&s));
                            if let Some(t) = t {
                                show_td(&mut b, &td(&t));
                            }
                        }
                    }
                }
                show_snap(&mut b, &snap(&s));
                b
            });
            o.push_str(&body);
            for l in text.lines() {
                let _ = writeln!(o, "printed {}", l);
            }
        }
        Ask::Restart(c) => {
            let mut cfg = c.cfg.clone();
            cfg.target = c.target.map(|q| super::c19::target_for(&cfg, &c.obj, q));
            let (ran, text) = capture(|| run_fresh(cfg.restarter(true), &c.obj, &c.nan_at, 0.0));
            for k in &ran.calls {
                let _ = writeln!(o, "evaluation {} {} {} {:016x}", k.inst, k.n, hex(&k.x), k.v.to_bits());
            }
            let _ = writeln!(
                o,
                "results {:?} {} {} {}",
                ran.res.reason,
                ran.res.function_evals,
                ran.res.runs,
                ran.res.best.as_ref().map_or("none".to_string(), |b| format!("{} {:016x}", hex(b.point.as_slice()), b.value.to_bits()))
            );
            for l in text.lines() {
                let _ = writeln!(o, "printed {}", l);
            }
        }
    }
    o
}

/// Answers requests on standard input until it ends.
pub fn serve() {
    // the protocol must not use descriptor 1, which is captured
    let mut out = unsafe {
        use std::os::unix::io::FromRawFd;
        std::fs::File::from_raw_fd(libc::dup(1))
    };
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let a: Ask = serde_json::from_str(&line).expect("request");
        let r = match crate::runner::guard(|| trace(&a, false)) {
            Ok(t) => t,
            Err(p) => format!("panic: {}\n", p),
        };
        out.write_all(r.as_bytes()).unwrap();
        out.write_all(b"=end\n").unwrap();
    }
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn ask(a: &Ask) -> Option<String> {
    let exe = std::env::var("VH_NOPLOT").ok()?;
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut child = Command::new(&exe)
                .arg("serve")
                .env("VH_WORK", std::env::var("VH_WORK").unwrap_or_else(|_| std::env::temp_dir().display().to_string()))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("start the build without plotting");
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            *s = Some(Server { child, to, from });
        }
        let srv = s.as_mut().unwrap();
        let _ = writeln!(srv.to, "{}", serde_json::to_string(a).unwrap());
        let _ = srv.to.flush();
        let mut text = String::new();
        loop {
            let mut l = String::new();
            if srv.from.read_line(&mut l).unwrap_or(0) == 0 {
                let _ = srv.child.kill();
                let _ = srv.child.wait();
                *s = None;
                return Some(format!("{}the build without plotting ended\n", text));
            }
            if l == "=end\n" {
                return Some(text);
            }
            text.push_str(&l);
        }
    })
}

fn differ(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return Some(format!("line {}: `{}` against `{}`", i + 1, x, y));
        }
    }
    Some(format!("{} against {} lines", a.lines().count(), b.lines().count()))
}

fn check_ask(a: Ask, label: &str) -> CheckResult {
    // a failure of both builds in the same way is not a difference
    let run = |plot: bool| match crate::runner::guard(|| trace(&a, plot)) {
        Ok(t) => t,
        Err(_) => "panic\n".to_string(),
    };
    let with = run(false);
    let enabled = run(true);
    if let Some(d) = differ(&with, &enabled) {
        fail!("recording a plot changes the run ({} without, with): {}", label, d);
    }
    let Some(mut without) = ask(&a) else {
        return Ok(Outcome::trivial().class("no build without plotting"));
    };
    if without.starts_with("panic:") {
        without = "panic\n".to_string();
    }
    if let Some(d) = differ(&with, &without) {
        fail!("the builds with and without the plotting feature differ ({}): {}", label, d);
    }
    Ok(Outcome::new(with.lines().count() > 5).class(label).count("trace lines", with.lines().count() as u64))
}

fn check_single(c: &Single) -> CheckResult {
    check_ask(Ask::Single(c.clone()), if c.cfg.print_gap.is_some() { "printing" } else { "silent" })
}
fn check_restart(c: &Restart) -> CheckResult {
    check_ask(Ask::Restart(c.clone()), c.cfg.strat.label())
}

pub fn property() -> Property {
    Property {
        id: "C28",
        rule: "a case is non-trivial if its trace has more than five lines and both builds were asked",
        assumptions: vec!["parallel_update is off: its sums are not deterministic, which is documented", "both builds are made by the same compiler with the same settings"],
        sections: vec![
            Box::new(Section { name: "run", quick: 2_500, thorough: 40_000, strategy, check: check_single, fixed: no_fixed }),
            Box::new(Section { name: "restart", quick: 500, thorough: 8_000, strategy: restart_strategy, check: check_restart, fixed: no_fixed }),
        ],
        shards: 8,
    }
}
