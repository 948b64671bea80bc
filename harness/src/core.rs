//! Runner of the monitors: deterministic cases, guarded library calls, three-valued verdicts,
//! evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::rngs::StdRng;
use rand::SeedableRng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A family of cases of one property; `quick` is how many of them the quick tier runs.
pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub run: fn(&mut Case),
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub groups: &'static [Group],
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable signature: names the call and the kind of failure, not the random values.
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Outcome {
    pub evals: u64,
    pub keys: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub distinct: Vec<(&'static str, u64)>,
    pub maxima: Vec<(&'static str, u64)>,
}

pub struct Case {
    pub prop: &'static str,
    pub group: &'static str,
    pub idx: u64,
    pub tier: Tier,
    pub rng: StdRng,
    pub out: Outcome,
}

pub fn fnv(data: impl Hash) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    data.hash(&mut h);
    // final mix
    let mut x = h.0;
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x
}

impl Case {
    pub fn new(prop: &'static str, group: &'static str, idx: u64, seed: u64, tier: Tier) -> Self {
        let rng = StdRng::seed_from_u64(fnv((seed, prop, group, idx)));
        Self {
            prop,
            group,
            idx,
            tier,
            rng,
            out: Outcome::default(),
        }
    }
    /// One oracle decision on a case that is trivial (degenerate, or seen in any run).
    pub fn eval_trivial(&mut self) {
        self.out.evals += 1;
    }
    /// One oracle decision, on the case described by `key`.
    pub fn eval(&mut self, key: impl Hash) {
        self.out.evals += 1;
        let k = fnv((self.group, fnv(key)));
        self.out.keys.push(k);
    }
    pub fn count(&mut self, what: &str) {
        self.count_n(what, 1)
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        *self.out.counters.entry(what.to_string()).or_default() += n;
    }
    /// Counts the distinct values of something observed.
    pub fn distinct(&mut self, what: &'static str, key: impl Hash) {
        let k = fnv(key);
        self.out.distinct.push((what, k));
    }
    pub fn maximum(&mut self, what: &'static str, v: u64) {
        self.out.maxima.push((what, v));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx == 0 && self.out.samples.len() < 3 {
            let s = format!("{}: {}", self.group, f());
            self.out.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn violation(&mut self, key: &str, msg: impl Into<String>) {
        let msg: String = msg.into();
        self.out.violations.push(Violation {
            key: key.to_string(),
            msg: msg.chars().take(4000).collect(),
        });
    }
    pub fn inconclusive(&mut self, msg: impl Into<String>) {
        self.out.inconclusive.push(msg.into());
    }
    /// Records a violation unless `ok`.
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.violation(key, m);
        }
        ok
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

/// What a library call did instead of returning.
#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub at: String,
}

impl Panicked {
    /// Arithmetic overflow, division by zero, out-of-bounds or slice misuse: the checks compiled
    /// in as instrumentation, as opposed to a deliberate refusal
    pub fn is_instrumentation(&self) -> bool {
        [
            "attempt to ",
            "index out of bounds",
            "out of range for slice",
            "capacity overflow",
            "slice index starts",
            "mid > len",
        ]
        .iter()
        .any(|p| self.msg.contains(p))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(Panicked { msg, at }));
    }));
}

/// Runs a library call; a panic is an observation, not a crash of the monitor.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(Panicked {
                msg: "panic".into(),
                at: String::new(),
            })
    })
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub struct Config {
    pub tier: Tier,
    pub seed: u64,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub known: PathBuf,
    /// Where the verdict lines go
    pub lines: PathBuf,
    /// Directory of the journal of running cases
    pub journal: PathBuf,
    pub threads: usize,
    pub deadline: Duration,
    /// A case running for longer than this ends the run as inconclusive
    pub stall: Duration,
}

struct Agg {
    evals: u64,
    keys: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: BTreeMap<String, (u64, &'static str, u64, String)>,
    inconclusive: BTreeMap<String, u64>,
    cases: u64,
    per_group: BTreeMap<&'static str, u64>,
    ids: HashSet<u64>,
}

/// Known findings of a property: exact keys with their description
pub fn known_findings(path: &Path, prop: &str) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            let id = it.next().unwrap_or_default();
            let key = it.next().unwrap_or_default().strip_prefix("key=");
            if let (true, Some(key)) = (id == prop, key) {
                r.insert(key.to_string(), it.next().unwrap_or_default().to_string());
            }
        }
    }
    r
}

pub fn run_case(
    prop: &'static Property,
    g: &'static Group,
    idx: u64,
    seed: u64,
    tier: Tier,
) -> Outcome {
    crate::history_checks::SEED.store(seed, Ordering::Relaxed);
    let mut case = Case::new(prop.id, g.name, idx, seed, tier);
    let r = catch_unwind(AssertUnwindSafe(|| (g.run)(&mut case)));
    if r.is_err() {
        let p = LAST_PANIC.with(|p| p.borrow_mut().take());
        let (msg, at) = p.map(|p| (p.msg, p.at)).unwrap_or_default();
        if at.contains("/repo/") {
            // an unguarded call that has no reason to panic
            case.violation(
                "unexpected-panic",
                format!("the library panicked at {at}: {msg}"),
            );
        } else {
            case.inconclusive(format!("monitor failed at {at}: {msg}"));
        }
    }
    case.out
}

/// How often the quick tier goes through the cases of a property, each pass with other random
/// choices: the ones whose cases are cheap can afford several. The first pass is always complete.
fn passes(prop: &str) -> u64 {
    match prop {
        "C16" => 15,
        "C09" | "C10" => 10,
        "C18" => 8,
        "C06" => 5,
        "C07" | "C08" => 4,
        "C03" | "C25" | "C26" | "C27" => 3,
        "C05" | "C21" | "C22" | "C24" => 2,
        _ => 1,
    }
}

/// No pass after the first goes on for longer than this
const EXTRA_PASSES: Duration = Duration::from_secs(90);

/// Returns the process exit code.
pub fn run_property(prop: &'static Property, cfg: &Config) -> i32 {
    let start = Instant::now();
    let agg = Mutex::new(Agg {
        evals: 0,
        keys: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        violations: BTreeMap::new(),
        inconclusive: BTreeMap::new(),
        cases: 0,
        per_group: BTreeMap::new(),
        ids: HashSet::new(),
    });
    // Round-robin over the groups, in proportion to their quick counts
    let mut tasks: Vec<(usize, u64)> = vec![];
    let max = prop.groups.iter().map(|g| g.quick).max().unwrap();
    for round in 0..max {
        for (gi, g) in prop.groups.iter().enumerate() {
            // spread g.quick cases evenly over the rounds
            let from = round * g.quick / max;
            let to = (round + 1) * g.quick / max;
            for k in from..to {
                tasks.push((gi, k));
            }
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let running: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..cfg.threads)
        .map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)))
        .collect();
    let done = AtomicUsize::new(0);
    let mut stalled = None;
    let truncated = AtomicBool::new(false);

    std::thread::scope(|s| {
        for t in 0..cfg.threads {
            let (agg, next, stop, running, tasks, done, truncated) =
                (&agg, &next, &stop, &running, &tasks, &done, &truncated);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let journal = cfg.journal.join(format!("{t}"));
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let n = next.fetch_add(1, Ordering::Relaxed);
                        let rep = n / tasks.len() as u64;
                        if cfg.tier == Tier::Quick
                            && rep > 0
                            && (rep >= passes(prop.id) || start.elapsed() > EXTRA_PASSES)
                        {
                            break;
                        }
                        if start.elapsed() > cfg.deadline {
                            truncated.store(true, Ordering::Relaxed);
                            break;
                        }
                        let (gi, k) = tasks[(n % tasks.len() as u64) as usize];
                        let g = &prop.groups[gi];
                        let idx = rep * g.quick + k;
                        let _ = std::fs::write(&journal, format!("{} {}", g.name, idx));
                        running[t].1.store(gi as u64, Ordering::Relaxed);
                        running[t].2.store(idx, Ordering::Relaxed);
                        running[t]
                            .0
                            .store(start.elapsed().as_millis() as u64 + 1, Ordering::Release);
                        let out = run_case(prop, g, idx, cfg.seed, cfg.tier);
                        running[t].0.store(0, Ordering::Release);
                        let mut a = agg.lock().unwrap();
                        a.cases += 1;
                        *a.per_group.entry(g.name).or_default() += 1;
                        a.evals += out.evals;
                        a.keys.extend(out.keys);
                        for (k, v) in out.counters {
                            *a.counters.entry(k).or_default() += v;
                        }
                        for (what, k) in out.distinct {
                            if a.ids.insert(fnv((what, k))) {
                                *a.counters.entry(format!("distinct {what}")).or_default() += 1;
                            }
                        }
                        for (what, v) in out.maxima {
                            let e = a.counters.entry(format!("largest {what}")).or_default();
                            *e = (*e).max(v);
                        }
                        if a.samples.len() < 12 {
                            a.samples.extend(out.samples);
                        }
                        for v in out.violations {
                            let e = a
                                .violations
                                .entry(v.key)
                                .or_insert((0, g.name, idx, v.msg));
                            e.0 += 1;
                        }
                        for i in out.inconclusive {
                            *a.inconclusive
                                .entry(i.chars().take(300).collect())
                                .or_default() += 1;
                        }
                        if a.violations.len() > 20 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let _ = std::fs::remove_file(&journal);
                    done.fetch_add(1, Ordering::Release);
                })
                .unwrap();
        }
        // Watchdog
        while done.load(Ordering::Acquire) < cfg.threads {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for r in &running {
                let since = r.0.load(Ordering::Acquire);
                if since != 0 && now > since + cfg.stall.as_millis() as u64 {
                    stalled = Some((
                        r.1.load(Ordering::Relaxed) as usize,
                        r.2.load(Ordering::Relaxed),
                    ));
                }
            }
            if stalled.is_some() {
                break;
            }
        }
        let a = agg.lock().unwrap();
        let code = report(prop, cfg, &a, start, stalled, truncated.load(Ordering::Relaxed));
        if stalled.is_some() {
            // the stalled thread cannot be joined
            std::process::exit(code);
        }
        code
    })
}

fn report(
    prop: &Property,
    cfg: &Config,
    a: &Agg,
    start: Instant,
    stalled: Option<(usize, u64)>,
    truncated: bool,
) -> i32 {
    let known = known_findings(&cfg.known, prop.id);
    let mut lines = String::new();
    let mut code = 0;
    let mut new_violations = 0;
    let mut seen_known = vec![];
    for (key, (n, group, idx, msg)) in &a.violations {
        if let Some(desc) = known.get(key) {
            lines.push_str(&format!("KNOWN-FINDING: property={} {}\n", prop.id, desc));
            seen_known.push(format!("{key} ({n} times)"));
            continue;
        }
        new_violations += 1;
        let path = cfg.replays.join(format!(
            "{}-{}-{}-{:016x}.txt",
            prop.id,
            group,
            idx,
            fnv(key)
        ));
        let _ = std::fs::create_dir_all(&cfg.replays);
        let _ = std::fs::write(
            &path,
            format!(
                "property {}\ngroup {}\nidx {}\nseed {}\ntier {}\nkey {}\ntimes {}\n\n{}\n",
                prop.id,
                group,
                idx,
                cfg.seed,
                if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
                key,
                n,
                msg
            ),
        );
        lines.push_str(&format!(
            "VIOLATION property={} replay={}\n",
            prop.id,
            path.display()
        ));
        lines.push_str(&format!("  {} [{}#{} x{}]: {}\n", key, group, idx, n, msg));
        code = 1;
    }
    if code == 0 {
        if let Some((g, idx)) = stalled {
            lines.push_str(&format!(
                "INCONCLUSIVE property={} case {}#{} did not end\n",
                prop.id, prop.groups[g].name, idx
            ));
            code = 3;
        } else if a.evals == 0 {
            lines.push_str(&format!(
                "INCONCLUSIVE property={} nothing was observed\n",
                prop.id
            ));
            code = 3;
        }
    }
    for (i, n) in &a.inconclusive {
        lines.push_str(&format!("note: inconclusive x{n}: {i}\n"));
    }
    lines.push_str(&format!(
        "{} {}: {} cases, {} evaluations, {} distinct, {} violation keys ({} known), {:.1}s{}\n",
        prop.id,
        if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        a.cases,
        a.evals,
        a.keys.len(),
        a.violations.len(),
        seen_known.len(),
        start.elapsed().as_secs_f64(),
        if truncated { " (ended by the time budget)" } else { "" },
    ));

    let strs = |v: &[String]| {
        v.iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let counters = a
        .counters
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let groups = a
        .per_group
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let inconclusive = a
        .inconclusive
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| s.to_string()).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases\": {},\n  \"cases_per_group\": {{{}}},\n  \"observed\": {{{}}},\n  \"inconclusive\": {{{}}},\n  \"known_findings_seen\": [{}],\n  \"merkle_hook\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        if cfg.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        cfg.seed,
        a.evals,
        a.keys.len(),
        json_str(prop.rule),
        strs(&a.samples),
        a.cases,
        groups,
        counters,
        inconclusive,
        strs(&seen_known),
        cfg!(zkp_monitor),
        strs(&assumptions),
        start.elapsed().as_secs_f64(),
        new_violations,
    );
    if let Some(d) = cfg.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&cfg.evidence, ev).expect("evidence");
    let mut f = std::fs::File::create(&cfg.lines).expect("lines");
    f.write_all(lines.as_bytes()).expect("lines");
    code
}

/// What several processes draw that start together: the lines of `zkmon fresh WHAT SEED` of each
pub fn fresh_processes(what: &str, seed: u64, n: usize) -> Option<Vec<Vec<String>>> {
    static N: AtomicU64 = AtomicU64::new(0);
    let children: Vec<_> = (0..n)
        .map(|_| {
            let k = N.fetch_add(1, Ordering::Relaxed);
            let path = std::env::temp_dir().join(format!("zkmon-fresh-{}-{k}", std::process::id()));
            let child = std::process::Command::new(std::env::current_exe().ok()?)
                .args(["fresh", what, &seed.to_string()])
                .arg(&path)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .ok()?;
            Some((child, path))
        })
        .collect();
    let mut all = vec![];
    let mut complete = true;
    for c in children {
        let Some((mut child, path)) = c else {
            complete = false;
            continue;
        };
        complete &= child.wait().map(|s| s.success()).unwrap_or(false);
        match std::fs::read_to_string(&path) {
            Ok(s) => all.push(s.lines().map(str::to_string).collect()),
            Err(_) => complete = false,
        }
        let _ = std::fs::remove_file(&path);
    }
    complete.then_some(all)
}
