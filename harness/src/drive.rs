use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A refutation: which properties it refutes, a stable signature, and what was observed.
#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<String>,
    pub sig: String,
    pub msg: String,
}
impl Viol {
    pub fn new(tags: &[&str], sig: &str, msg: impl Into<String>) -> Self {
        Viol {
            tags: tags.iter().map(|s| s.to_string()).collect(),
            sig: sig.to_string(),
            msg: msg.into(),
        }
    }
    /// also a violation of `tag` (for what shows before anything but the set-up has happened)
    pub fn also(mut self, tag: &str) -> Self {
        self.tags.push(tag.to_string());
        self
    }
}
pub type R<T = ()> = Result<T, Viol>;

/// `ensure!(cond, tags, sig, fmt...)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $tags:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::Viol::new($tags, $sig, format!($($a)*))); }
    };
}

/// One scenario: a fresh chain, a PRNG, and the recorded history.
pub struct Sc {
    pub rng: StdRng,
    pub seed: u64,
    pub thorough: bool,
    pub app: crate::tf::Chain,
    pub log: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, String>,
    hist: DefaultHasher,
    pub steps: u64,
    /// how many monitored facts (oracle comparisons) this scenario evaluated
    pub checks: u64,
    pub nontrivial: bool,
    /// set while contracts are migrated in passing
    pub prng: Option<StdRng>,
    pub migrations: u64,
    pub deferred: Option<Viol>,
}

impl Sc {
    fn new(seed: u64, thorough: bool) -> Self {
        Sc {
            rng: StdRng::seed_from_u64(seed),
            seed,
            thorough,
            app: Sc::new_app(),
            log: vec![],
            counts: BTreeMap::new(),
            labels: BTreeMap::new(),
            hist: DefaultHasher::new(),
            steps: 0,
            checks: 0,
            nontrivial: false,
            prng: None,
            migrations: 0,
            deferred: None,
        }
    }
    /// a fresh scenario that draws what `seed` drew
    pub fn replica(seed: u64, thorough: bool) -> Self {
        Sc::new(seed, thorough)
    }
    pub fn note(&mut self, s: String) {
        self.log.push(s);
    }
    pub fn tick(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn step(&mut self, k: &str) {
        self.steps += 1;
        k.hash(&mut self.hist);
    }
    pub fn checked(&mut self, n: u64) {
        self.checks += n;
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.rng.gen_range(0..100) < pct
    }
    pub fn r(&mut self, lo: u64, hi: u64) -> u64 {
        if lo >= hi {
            return lo;
        }
        self.rng.gen_range(lo..=hi)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.rng.gen_range(0..v.len())].clone()
    }
    /// index drawn by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = self.rng.gen_range(0..t);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    pub fn amount(&mut self) -> u128 {
        match self.rng.gen_range(0..6) {
            0 => self.rng.gen_range(1..=3),
            1 => self.rng.gen_range(1..=100),
            2 => self.rng.gen_range(1..=10_000),
            3 => self.rng.gen_range(1..=1_000_000_007),
            4 => [1, 10, 100, 1000, 1_000_000][self.rng.gen_range(0..5)],
            _ => self.rng.gen_range(1..=1_000_000_000_000_000_000_000),
        }
    }
}

pub struct Family {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: fn(&mut Sc) -> R,
}
pub fn fam(name: &'static str, quick: usize, thorough: usize, run: fn(&mut Sc) -> R) -> Family {
    Family { name, quick, thorough, run }
}

struct Known {
    sig: String,
    text: String,
}
fn load_known(prop: &str) -> Vec<Known> {
    let path = format!("{}/known_findings.txt", root());
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix("finding: ") else { continue };
            let mut p = String::new();
            let mut sig = String::new();
            let mut text = vec![];
            for w in rest.split_whitespace() {
                if p.is_empty() && w.starts_with("property=") {
                    p = w["property=".len()..].to_string();
                } else if sig.is_empty() && w.starts_with("sig=") {
                    sig = w["sig=".len()..].to_string();
                } else {
                    text.push(w);
                }
            }
            if p == prop && !sig.is_empty() {
                out.push(Known { sig, text: text.join(" ") });
            }
        }
    }
    out
}

pub fn root() -> String {
    std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn mix(seed: u64, fam: &str, i: usize) -> u64 {
    let mut h = DefaultHasher::new();
    seed.hash(&mut h);
    fam.hash(&mut h);
    i.hash(&mut h);
    h.finish()
}

struct Agg {
    evals: u64,
    steps: u64,
    checks: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    per_family: BTreeMap<String, (u64, u64)>,
    samples: Vec<Value>,
    viols: Vec<(Viol, String, u64, Vec<String>)>,
    known_hits: BTreeMap<String, u64>,
    errors: Vec<String>,
    foreign: u64,
}

/// Runs every family of the check `prop`, writes the evidence, prints the verdict, exits.
pub fn drive(prop: &str, rule: &str, assumptions: &[&str], must_see: &[&str], fams: Vec<Family>) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let args: Vec<String> = std::env::args().collect();
    let mut only: Option<(String, u64)> = None;
    let mut famsel: Option<String> = None;
    let mut scale: f64 = std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for a in &args[1..] {
        if let Some(x) = a.strip_prefix("--replay=") {
            let (f, s) = x.rsplit_once(':').expect("--replay=family:seed");
            only = Some((f.to_string(), s.parse().expect("seed")));
        } else if let Some(x) = a.strip_prefix("--family=") {
            famsel = Some(x.to_string());
        } else if let Some(x) = a.strip_prefix("--scale=") {
            scale = x.parse().unwrap();
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    if let Some((f, s)) = only {
        let fam = fams.iter().find(|x| x.name == f).expect("family");
        let mut sc = Sc::new(s, thorough);
        let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(&mut sc)));
        for l in &sc.log {
            println!("{l}");
        }
        match r {
            Ok(Ok(())) => println!("OK"),
            Ok(Err(v)) => println!("VIOLATES {:?} [{}] {}", v.tags, v.sig, v.msg),
            Err(p) => println!(
                "HARNESS PANIC {:?}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))
            ),
        }
        std::process::exit(0);
    }
    let budget = Duration::from_secs(
        std::env::var("VMON_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3000 } else { 240 }),
    );
    let known = load_known(prop);
    let known_sigs: HashSet<String> = known.iter().map(|k| k.sig.clone()).collect();
    // round-robin over the families so that a time cap cuts all of them alike
    let mut work: Vec<(usize, usize)> = vec![];
    for (fi, f) in fams.iter().enumerate() {
        if famsel.as_deref().map(|x| x != f.name).unwrap_or(false) {
            continue;
        }
        let n = if thorough { f.thorough } else { f.quick };
        let n = if n <= 1 { n } else { ((n as f64 * scale).ceil() as usize).max(1) };
        for i in 0..n {
            work.push((fi, i));
        }
    }
    let max_n = work.iter().map(|w| w.1).max().unwrap_or(0) + 1;
    let totals: Vec<usize> = (0..fams.len()).map(|fi| work.iter().filter(|w| w.0 == fi).count()).collect();
    work.sort_by_key(|(fi, i)| (i * max_n / totals[*fi].max(1), *fi));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg {
        evals: 0,
        steps: 0,
        checks: 0,
        distinct: HashSet::new(),
        counts: BTreeMap::new(),
        per_family: BTreeMap::new(),
        samples: vec![],
        viols: vec![],
        known_hits: BTreeMap::new(),
        errors: vec![],
        foreign: 0,
    });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|scope| {
        for _ in 0..threads {
            let (work, next, stop, agg, fams, known_sigs) = (&work, &next, &stop, &agg, &fams, &known_sigs);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > budget {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= work.len() {
                        break;
                    }
                    let (fi, i) = work[k];
                    let f = &fams[fi];
                    let sseed = mix(seed, f.name, i);
                    let mut sc = Sc::new(sseed, thorough);
                    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(&mut sc)));
                    let mut a = agg.lock().unwrap();
                    a.evals += 1;
                    a.steps += sc.steps;
                    a.checks += sc.checks;
                    for (k, v) in &sc.counts {
                        *a.counts.entry(k.clone()).or_insert(0) += v;
                    }
                    let pf = a.per_family.entry(f.name.to_string()).or_insert((0, 0));
                    pf.0 += 1;
                    if sc.nontrivial {
                        pf.1 += 1;
                        let mut h = DefaultHasher::new();
                        f.name.hash(&mut h);
                        sc.hist.finish().hash(&mut h);
                        a.distinct.insert(h.finish());
                        let have = a.samples.iter().filter(|s| s["family"] == f.name).count();
                        if have < 1 {
                            let mut l: Vec<String> = sc.log.iter().take(60).cloned().collect();
                            if sc.log.len() > 60 {
                                l.push(format!("... {} more steps", sc.log.len() - 60));
                            }
                            a.samples.push(json!({"family": f.name, "seed": sseed, "history": l}));
                        }
                    }
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(v)) => {
                            if !v.tags.iter().any(|t| t == prop || t == "*") {
                                if v.sig != "skip" {
                                    a.foreign += 1;
                                    let k = format!("(ended by another property: {:?} {} {}:{})", v.tags, v.sig, f.name, if std::env::var("VMON_EVENTS").is_ok() { format!("{sseed} {}", v.msg) } else { String::new() });
                                    *a.counts.entry(k).or_insert(0) += 1;
                                }
                            } else if known_sigs.contains(&v.sig) {
                                *a.known_hits.entry(v.sig.clone()).or_insert(0) += 1;
                            } else {
                                a.viols.push((v, f.name.to_string(), sseed, sc.log));
                                if a.viols.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        Err(p) => {
                            let t = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            // the oracle's arithmetic holds for every answer the real code may give
                            let v = Viol::new(&["*"], "oracle-panic", format!("the monitor could not account for what it observed: {t}"));
                            a.viols.push((v, f.name.to_string(), sseed, sc.log));
                            if a.viols.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let a = agg.into_inner().unwrap();
    let missing: Vec<&&str> = must_see
        .iter()
        .filter(|k| !a.counts.iter().any(|(c, n)| c.starts_with(**k) && *n > 0))
        .collect();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "rule": rule,
            "planned_histories": work.len(),
            "operations_observed": a.steps,
            "oracle_comparisons": a.checks,
            "events": a.counts,
            "per_family_run_and_nontrivial": a.per_family.iter().map(|(k,v)| (k.clone(), json!([v.0, v.1]))).collect::<BTreeMap<_,_>>(),
            "histories_ended_by_another_property": a.foreign,
            "known_finding_hits": a.known_hits,
            "samples": a.samples,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": a.viols.len(),
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if famsel.is_none() {
        std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence");
    }
    println!(
        "{prop}: {} histories ({} distinct non-trivial), {} operations, {} oracle comparisons, {:.1}s; families {:?}; foreign {}",
        a.evals, a.distinct.len(), a.steps, a.checks, t0.elapsed().as_secs_f64(), a.per_family, a.foreign
    );
    if std::env::var("VMON_EVENTS").is_ok() {
        for (k, v) in &a.counts {
            println!("  {v:8} {k}");
        }
    }
    for k in &known {
        let n = a.known_hits.get(&k.sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={prop} {} [{}; seen in {} histories of this run]", k.text, k.sig, n);
    }
    if !a.viols.is_empty() {
        let rdir = format!("{dir}/replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (v, f, s, log) in a.viols.iter().take(3) {
            let path = format!("{rdir}/{prop}-{f}-{s}.txt");
            let text = format!(
                "property {prop}\nsignature {}\nobserved: {}\nreplay: VERIF_TIER={} bash /verif/tools/check.sh {prop} --replay={f}:{s}\n\nhistory:\n{}\n",
                v.sig, v.msg, tier, log.join("\n")
            );
            let _ = std::fs::write(&path, text);
            println!("  [{}] {}", v.sig, v.msg);
            println!("VIOLATION property={prop} replay={path}");
        }
        std::process::exit(1);
    }
    if !a.errors.is_empty() {
        println!("INCONCLUSIVE: the harness failed in {} histories, e.g. {}", a.errors.len(), a.errors[0]);
        std::process::exit(2);
    }
    if famsel.is_none() && (a.distinct.is_empty() || !missing.is_empty()) {
        println!("INCONCLUSIVE: never observed {missing:?}");
        std::process::exit(2);
    }
    std::process::exit(0);
}
