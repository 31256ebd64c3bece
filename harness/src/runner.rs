//! Generated-case runner: sections of cases, sharded over processes, shrinking, replay, evidence.
use crate::util::{cpu_time, fnv, mix};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a passing case covered.
#[derive(Default, Debug)]
pub struct Outcome {
    /// Non-trivial by the section's rule
    pub nontrivial: bool,
    /// Labels counted over the run
    pub classes: Vec<String>,
    /// Measured quantities summed over the run
    pub counts: Vec<(&'static str, u64)>,
    /// Short note for the sample
    pub note: String,
    /// Signatures of listed known findings seen in this case
    pub known: Vec<(String, String)>,
}

impl Outcome {
    pub fn new(nontrivial: bool) -> Self {
        Outcome { nontrivial, ..Default::default() }
    }
    pub fn trivial() -> Self {
        Self::new(false)
    }
    pub fn class(mut self, c: impl Into<String>) -> Self {
        self.classes.push(c.into());
        self
    }
    pub fn count(mut self, c: &'static str, n: u64) -> Self {
        self.counts.push((c, n));
        self
    }
    pub fn note(mut self, n: impl Into<String>) -> Self {
        self.note = n.into();
        self
    }
}

/// A violation message.
pub type CheckResult = Result<Outcome, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)+) => { return Err(format!($($a)+)) };
}

pub struct Section<C> {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C) -> CheckResult,
    /// Cases always run first, whatever the seed
    pub fixed: fn() -> Vec<C>,
}

pub fn no_fixed<C>() -> Vec<C> {
    vec![]
}

pub trait SectionDyn {
    fn name(&self) -> &'static str;
    fn run_shard(&self, ctx: &ShardCtx, rep: &mut ShardReport);
    fn replay(&self, case: &Value) -> CheckResult;
    fn gen_sample(&self, seed: u64, n: usize) -> Vec<Value>;
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub sections: Vec<Box<dyn SectionDyn>>,
    pub shards: usize,
}

pub struct ShardCtx<'a> {
    pub prop: &'a str,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub start: Instant,
    pub budget_s: f64,
}

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct ShardReport {
    pub evaluations: u64,
    pub sections: BTreeMap<String, u64>,
    pub classes: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: Vec<u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, String>,
    pub violation: Option<Violation>,
    pub truncated: bool,
    pub done: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub section: String,
    pub message: String,
    pub case: Value,
    pub shrink_steps: u64,
}

// ---- watchdog state -------------------------------------------------------------------------

struct Current {
    section: String,
    case: Value,
    cpu0: f64,
    wall0: Instant,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
pub const SHARD_MEMORY: u64 = 4 << 30;
pub const HANG_CPU_S: f64 = 120.0;
pub const HANG_WALL_S: f64 = 420.0;

/// With VH_TRACE set (a shard being repeated after it died) every case is written down first.
fn trace_current(section: &str, case: &Value) {
    if let Ok(p) = std::env::var("VH_TRACE") {
        let _ = std::fs::write(p, json!({"section": section, "case": case}).to_string());
    }
}

fn set_current(section: &str, case: &Value) {
    trace_current(section, case);
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some(Current {
        section: section.into(),
        case: case.clone(),
        cpu0: cpu_time(),
        wall0: Instant::now(),
    });
}
fn clear_current() {
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let s = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = s;
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        let l = LAST_PANIC.with(|p| p.borrow().clone());
        if !l.is_empty() {
            return l;
        }
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
    })
}

fn guarded<C>(check: fn(&C) -> CheckResult, c: &C) -> CheckResult {
    match guard(|| check(c)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

fn rng_for(seed: u64, prop: &str, section: &str, i: usize) -> TestRng {
    let base = mix(fnv(prop.as_bytes()) ^ mix(fnv(section.as_bytes()) ^ mix(seed ^ 0x5eed)))
        ^ mix(i as u64 + 1);
    let mut s = [0u8; 32];
    let mut x = base;
    for k in 0..4 {
        x = mix(x);
        s[k * 8..k * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn runner_for(seed: u64, prop: &str, section: &str, i: usize) -> TestRunner {
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        rng_for(seed, prop, section, i),
    )
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + 'static> SectionDyn for Section<C> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn gen_sample(&self, seed: u64, n: usize) -> Vec<Value> {
        let strat = (self.strategy)(Tier::Quick);
        (0..n)
            .map(|i| {
                let mut r = runner_for(seed, "sample", self.name, i);
                serde_json::to_value(strat.new_tree(&mut r).unwrap().current()).unwrap()
            })
            .collect()
    }

    fn run_shard(&self, ctx: &ShardCtx, rep: &mut ShardReport) {
        if rep.violation.is_some() {
            return;
        }
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let fixed = (self.fixed)();
        let strat = (self.strategy)(ctx.tier);
        let nfixed = fixed.len();
        let mut sampled = 0;
        let mut i = ctx.shard;
        while i < nfixed + total {
            if ctx.start.elapsed().as_secs_f64() > ctx.budget_s {
                rep.truncated = true;
                break;
            }
            let mut tree = None;
            let case: C = if i < nfixed {
                fixed[i].clone()
            } else {
                let mut r = runner_for(ctx.seed, ctx.prop, self.name, i - nfixed);
                let t = match strat.new_tree(&mut r) {
                    Ok(t) => t,
                    Err(_) => {
                        i += ctx.shards;
                        continue;
                    }
                };
                let c = t.current();
                tree = Some(t);
                c
            };
            let js = serde_json::to_value(&case).unwrap();
            set_current(self.name, &js);
            let res = guarded(self.check, &case);
            rep.evaluations += 1;
            *rep.sections.entry(self.name.into()).or_default() += 1;
            match res {
                Ok(o) => {
                    for c in &o.classes {
                        *rep.classes.entry(format!("{}:{}", self.name, c)).or_default() += 1;
                    }
                    for (c, n) in &o.counts {
                        *rep.counts.entry(format!("{}:{}", self.name, c)).or_default() += n;
                    }
                    for (sig, what) in &o.known {
                        rep.known.entry(sig.clone()).or_insert_with(|| what.clone());
                    }
                    if o.nontrivial {
                        rep.nontrivial
                            .push(fnv(format!("{}|{}", self.name, js).as_bytes()));
                        if sampled < 1 && ctx.shard < 3 && js.to_string().len() < 6000 {
                            sampled += 1;
                            rep.samples
                                .push(json!({"section": self.name, "case": js, "note": o.note}));
                        }
                    }
                }
                Err(msg) => {
                    let mut best = (case.clone(), msg);
                    let mut steps = 0;
                    if let Some(mut tree) = tree {
                        let t0 = Instant::now();
                        let mut alive = tree.simplify();
                        let mut iters = 0;
                        while alive && iters < 3000 && t0.elapsed().as_secs_f64() < 60.0 {
                            iters += 1;
                            let c = tree.current();
                            set_current(self.name, &serde_json::to_value(&c).unwrap());
                            match guarded(self.check, &c) {
                                Err(m) => {
                                    best = (c, m);
                                    steps += 1;
                                    alive = tree.simplify();
                                }
                                Ok(_) => alive = tree.complicate(),
                            }
                        }
                    }
                    rep.violation = Some(Violation {
                        section: self.name.into(),
                        message: best.1,
                        case: serde_json::to_value(&best.0).unwrap(),
                        shrink_steps: steps,
                    });
                    clear_current();
                    return;
                }
            }
            clear_current();
            i += ctx.shards;
        }
    }

    fn replay(&self, case: &Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay: {}", e))?;
        guarded(self.check, &c)
    }
}

// ---- entry points ---------------------------------------------------------------------------

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn known_signatures(prop: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> signature=<sig> <text>
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let p = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let s = l.split_whitespace().find_map(|w| w.strip_prefix("signature="))?;
            if p != prop {
                return None;
            }
            let rest = l.split_once(&format!("signature={}", s)).map(|x| x.1.trim())?;
            Some((s.to_string(), rest.to_string()))
        })
        .collect()
}

/// Whether a finding with this signature is listed for the property.
pub fn is_known(prop: &str, sig: &str) -> bool {
    thread_local! { static C: RefCell<BTreeMap<String, Vec<(String,String)>>> = RefCell::new(BTreeMap::new()); }
    C.with(|c| {
        c.borrow_mut()
            .entry(prop.into())
            .or_insert_with(|| known_signatures(prop))
            .iter()
            .any(|(s, _)| s == sig)
    })
}

pub fn main(props: Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = args.get(2).cloned().unwrap_or_default();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        "check" => std::process::exit(parent(find(&id), tier, seed)),
        "shard" => shard(find(&id), tier, seed, &args),
        "sample" => {
            for s in &find(&id).sections {
                for v in s.gen_sample(seed, 3) {
                    println!("{}: {}", s.name(), v);
                }
            }
        }
        "replay" => {
            install_panic_hook();
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let p = find(v["property"].as_str().unwrap());
            let s = p.sections.iter().find(|s| s.name() == v["section"].as_str().unwrap()).expect("section");
            match s.replay(&v["case"]) {
                Ok(o) => {
                    eprintln!("replay: property held ({:?})", o.classes);
                }
                Err(m) => {
                    eprintln!("replay: {}", m);
                    eprintln!("VIOLATION property={} replay={}", p.id, args[2]);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: harness check|replay|sample|list ...");
            std::process::exit(2);
        }
    }
}

fn shard(p: &Property, tier: Tier, seed: u64, args: &[String]) {
    let shard: usize = args[3].parse().unwrap();
    let shards: usize = args[4].parse().unwrap();
    let out = PathBuf::from(&args[5]);
    let budget_s: f64 = args[6].parse().unwrap();
    install_panic_hook();
    let out2 = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(c) = cur.as_ref() {
            let cpu = cpu_time() - c.cpu0;
            let wall = c.wall0.elapsed().as_secs_f64();
            if cpu > HANG_CPU_S || wall > HANG_WALL_S {
                let rep = ShardReport {
                    violation: Some(Violation {
                        section: c.section.clone(),
                        message: format!(
                            "the case did not finish: {:.0} s of CPU time, {:.0} s elapsed",
                            cpu, wall
                        ),
                        case: c.case.clone(),
                        shrink_steps: 0,
                    }),
                    done: true,
                    ..Default::default()
                };
                write_report(&out2, &rep);
                std::process::exit(0);
            }
        }
    });
    let ctx = ShardCtx { prop: p.id, tier, seed, shard, shards, start: Instant::now(), budget_s };
    let mut rep = ShardReport::default();
    for s in &p.sections {
        s.run_shard(&ctx, &mut rep);
    }
    rep.done = true;
    write_report(&out, &rep);
    std::process::exit(0);
}


fn write_report(out: &Path, rep: &ShardReport) {
    let tmp = out.with_extension("tmp");
    std::fs::write(&tmp, serde_json::to_vec(rep).unwrap()).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

fn parent(p: &Property, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let budget: f64 = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(match tier {
            Tier::Quick => 300.0,
            Tier::Thorough => 3000.0,
        });
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let spawn = |i: usize, trace: Option<&Path>| {
        let out = dir.join(format!("r{}.json", i));
        let work = dir.join(format!("w{}", i));
        std::fs::create_dir_all(&work).unwrap();
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["shard", p.id, &i.to_string(), &p.shards.to_string()])
            .arg(&out)
            .arg(format!("{}", budget))
            .env("VH_WORK", &work)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("e{}", i))).unwrap());
        if let Some(t) = trace {
            cmd.env("VH_TRACE", t);
        }
        unsafe {
            use std::os::unix::process::CommandExt;
            cmd.pre_exec(|| {
                // runaway allocations end this shard, not the machine
                let l = libc::rlimit { rlim_cur: SHARD_MEMORY, rlim_max: SHARD_MEMORY };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                Ok(())
            });
        }
        (cmd.spawn().expect("spawn shard"), out)
    };
    for i in 0..p.shards {
        let (child, out) = spawn(i, None);
        kids.push((child, out, i));
    }
    let mut total = ShardReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut errors = vec![];
    for (mut c, out, i) in kids {
        let st = c.wait().expect("wait");
        let mut rep: Option<ShardReport> =
            std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        if rep.is_none() && t0.elapsed().as_secs_f64() < budget + 100.0 {
            // The shard died. Repeat it, writing every case down before it is run: if it dies
            // again, the last case is what kills it.
            let trace = dir.join(format!("t{}", i));
            let (mut c2, _) = spawn(i, Some(&trace));
            let st2 = c2.wait().expect("wait");
            rep = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
            let last: Option<Value> =
                std::fs::read(&trace).ok().and_then(|b| serde_json::from_slice(&b).ok());
            if let (None, Some(last)) = (&rep, last) {
                rep = Some(ShardReport {
                    violation: Some(Violation {
                        section: last["section"].as_str().unwrap_or("").into(),
                        message: format!(
                            "the process died in this case ({}): {}",
                            st2,
                            std::fs::read_to_string(dir.join(format!("e{}", i)))
                                .unwrap_or_default()
                                .chars()
                                .take(300)
                                .collect::<String>()
                        ),
                        case: last["case"].clone(),
                        shrink_steps: 0,
                    }),
                    done: true,
                    ..Default::default()
                });
            }
        }
        match rep {
            Some(r) => {
                total.evaluations += r.evaluations;
                for (k, v) in r.sections {
                    *total.sections.entry(k).or_default() += v;
                }
                for (k, v) in r.classes {
                    *total.classes.entry(k).or_default() += v;
                }
                for (k, v) in r.counts {
                    *total.counts.entry(k).or_default() += v;
                }
                distinct.extend(r.nontrivial);
                for s in r.samples {
                    let sec = s["section"].clone();
                    if total.samples.iter().filter(|x| x["section"] == sec).count() < 2 {
                        total.samples.push(s);
                    }
                }
                total.known.extend(r.known);
                total.truncated |= r.truncated;
                if total.violation.is_none() {
                    total.violation = r.violation;
                }
            }
            None => errors.push(format!(
                "shard {} ended without a report ({}): {}",
                i,
                st,
                std::fs::read_to_string(dir.join(format!("e{}", i)))
                    .unwrap_or_default()
                    .chars()
                    .take(500)
                    .collect::<String>()
            )),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let known = known_signatures(p.id);
    let mut code = 0;
    let mut nviol = 0;
    if let Some(v) = &total.violation {
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let body = json!({
            "property": p.id, "section": v.section, "message": v.message, "case": v.case,
            "shrink_steps": v.shrink_steps, "seed": seed,
        });
        let path = rdir.join(format!(
            "{}-{}-{:08x}.json",
            p.id,
            v.section,
            fnv(body.to_string().as_bytes()) as u32
        ));
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}/{}: {}", p.id, v.section, v.message);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        nviol = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("{}", e);
        }
        code = 2;
    }
    if code != 1 {
        for (sig, text) in &known {
            println!("KNOWN-FINDING: property={} {} [{}]", p.id, text, sig);
            if !total.known.contains_key(sig) {
                println!("note: no generated case showed [{}] in this run", sig);
            }
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": total.samples,
            "cases_per_section": total.sections,
            "classes": total.classes,
            "measured": total.counts,
            "stopped_early_by_time_budget": total.truncated,
            "known_findings_seen": total.known,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(
        edir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{}: {} cases ({} distinct non-trivial), {:.1} s, exit {}",
        p.id,
        total.evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}
