//! The monitor runtime: runs cases in parallel, watches for panics, records what the monitors
//! observed and writes the evidence file and the replay files.

use crate::rng::{hash64, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub what: String,
    pub input: String,
    pub phase: String,
    pub case: u64,
    pub known: bool,
}

/// Observations of one worker (merged at the end).
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    phase: String,
    case: u64,
    slot: Option<usize>,
}

impl Obs {
    /// Records one evaluated case. `key` identifies the case, `nontrivial` says whether it counts
    /// by the rule of the property.
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if let Some(i) = self.slot {
            let mut w = SLOTS[i].what.lock().unwrap();
            w.1.clear();
            w.1.push_str(key);
        }
        if nontrivial {
            self.distinct.insert(hash64(key.as_bytes()));
        }
        if self.samples.len() < 2 && nontrivial && key.len() < 600 {
            self.samples.push(key.to_string());
        }
    }

    pub fn feat(&mut self, name: &str) {
        if let Some(n) = self.feats.get_mut(name) {
            *n += 1;
        } else {
            self.feats.insert(name.to_string(), 1);
        }
    }

    pub fn feat_n(&mut self, name: &str, n: u64) {
        *self.feats.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn fail(&mut self, input: impl Into<String>, what: impl Into<String>) {
        let v = Violation {
            what: what.into(),
            input: input.into(),
            phase: self.phase.clone(),
            case: self.case,
            known: false,
        };
        self.violations.push(v);
    }

    fn merge(&mut self, other: Obs) {
        self.evals += other.evals;
        self.distinct.extend(other.distinct);
        for (k, v) in other.feats {
            *self.feats.entry(k).or_insert(0) += v;
        }
        self.samples.extend(other.samples);
        self.violations.extend(other.violations);
    }
}

/// What a worker is doing right now, for the watchdog and for reports of crashes.
struct Slot {
    since: AtomicU64,
    case: AtomicU64,
    what: Mutex<(String, String)>,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
    since: AtomicU64::new(0),
    case: AtomicU64::new(0),
    what: Mutex::new((String::new(), String::new())),
};
static SLOTS: [Slot; 10] = [SLOT; 10];

fn now_ms() -> u64 {
    static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// A case normally takes well below 100 ms. One which is not done after this time hangs.
const HANG_MS: u64 = 90_000;

/// Starts the thread which reports cases that do not terminate.
pub fn start_watchdog(prop: &'static str, seed: u64) {
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        for s in &SLOTS {
            let t = s.since.load(Ordering::Relaxed);
            if t == 0 || now_ms() < t + HANG_MS {
                continue;
            }
            let case = s.case.load(Ordering::Relaxed);
            let (phase, input) = s.what.lock().map(|w| w.clone()).unwrap_or_default();
            let path = verif_root().join("evidence").join(format!("replay-{prop}-0.txt"));
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {prop}\nseed: {seed}\nphase: {phase}\ncase: {case}\n--- what\nthe case did not terminate within {HANG_MS} ms\n--- input\n{input}\n"
                ),
            );
            println!("VIOLATION property={prop} replay={}", path.display());
            println!("  the case did not terminate within {HANG_MS} ms");
            std::process::exit(1);
        }
    });
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

/// Runs `f`, returning the panic message if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// How many times the base number of cases the quick tier of a property runs. The cheap properties
/// get more cases, so that all of them take a comparable time.
fn factor(prop: &str) -> u64 {
    match prop {
        "P09" | "P15" => 5,
        "P08" | "P20" | "P24" => 5,
        "P04" | "P06" | "P07" | "P11" | "P19" | "P28" => 3,
        "P02" | "P03" | "P10" | "P12" | "P21" => 2,
        _ => 1,
    }
}

pub struct Mon {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    start: Instant,
    cap: Duration,
    pub obs: Obs,
    pub rule: String,
    pub assumptions: Vec<String>,
    stop: AtomicBool,
    pub capped: bool,
    pub require: Vec<(String, u64)>,
}

impl Mon {
    pub fn new(
        prop: &'static str,
        tier: Tier,
        seed: u64,
        only: Option<(String, u64)>,
        scale: f64,
    ) -> Mon {
        let cap = match tier {
            Tier::Quick => Duration::from_secs(420),
            Tier::Thorough => Duration::from_secs(3000),
        };
        Mon {
            prop,
            tier,
            seed,
            only,
            scale,
            start: Instant::now(),
            cap,
            obs: Obs::default(),
            rule: String::new(),
            assumptions: vec![],
            stop: AtomicBool::new(false),
            capped: false,
            require: vec![],
        }
    }

    /// Number of cases for a phase: `quick` in the quick tier, 12 times that in the thorough tier.
    pub fn n(&self, quick: u64) -> u64 {
        let factor = factor(self.prop);
        let n = match self.tier {
            Tier::Quick => quick * factor,
            Tier::Thorough => quick * (6 * factor).max(12),
        };
        ((n as f64) * self.scale).ceil() as u64
    }

    /// Requires that a feature was observed at least `n` times (else the check reports that it
    /// observed nothing, as an error of the check).
    pub fn require(&mut self, feat: &str, n: u64) {
        self.require.push((feat.to_string(), n));
    }

    /// Runs `n` cases of a phase in parallel.
    pub fn cases<F>(&mut self, phase: &str, n: u64, f: F)
    where
        F: Fn(&mut Obs, &mut Rng, u64) + Sync,
    {
        if let Some((p, c)) = &self.only {
            if p != phase {
                return;
            }
            let c = *c;
            self.run_range(phase, c, c + 1, &f);
            return;
        }
        self.run_range(phase, 0, n, &f);
    }

    fn run_range<F>(&mut self, phase: &str, lo: u64, hi: u64, f: &F)
    where
        F: Fn(&mut Obs, &mut Rng, u64) + Sync,
    {
        let next = AtomicU64::new(lo);
        let nviol = AtomicUsize::new(self.obs.violations.len());
        let merged: Mutex<Vec<(u64, Obs)>> = Mutex::new(vec![]);
        let threads = std::thread::available_parallelism()
            .map_or(4, |n| n.get())
            .min(8)
            .min((hi - lo).max(1) as usize);
        let base = hash64(format!("{}/{}/{}", self.prop, phase, self.seed).as_bytes());
        let deadline = self.start + self.cap;
        let stop = &self.stop;
        let capped = AtomicBool::new(false);
        std::thread::scope(|s| {
            for t in 0..threads {
                let next = &next;
                let nviol = &nviol;
                let merged = &merged;
                let capped = &capped;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut obs = Obs {
                            phase: phase.to_string(),
                            slot: Some(t),
                            ..Obs::default()
                        };
                        *SLOTS[t].what.lock().unwrap() = (phase.to_string(), String::new());
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= hi || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            obs.case = i;
                            SLOTS[t].case.store(i, Ordering::Relaxed);
                            SLOTS[t].since.store(now_ms(), Ordering::Relaxed);
                            let before = obs.violations.len();
                            let mut rng =
                                Rng::new(base ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                            if let Err(p) = guard(|| f(&mut obs, &mut rng, i)) {
                                obs.fail(String::new(), format!("panicked: {p}"));
                            }
                            let added = obs.violations.len() - before;
                            if added > 0
                                && nviol.fetch_add(added, Ordering::Relaxed) + added > 40
                            {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        SLOTS[t].since.store(0, Ordering::Relaxed);
                        merged.lock().unwrap().push((t as u64, obs));
                    })
                    .unwrap();
            }
        });
        let mut all = merged.into_inner().unwrap();
        all.sort_by_key(|(t, _)| *t);
        for (_, o) in all {
            self.obs.merge(o);
        }
        if capped.load(Ordering::Relaxed) {
            self.capped = true;
        }
    }

    /// Runs sequential work on this thread, guarded against panics.
    pub fn once<F>(&mut self, phase: &str, f: F)
    where
        F: FnOnce(&mut Obs),
    {
        if let Some((p, _)) = &self.only {
            if p != phase {
                return;
            }
        }
        self.obs.phase = phase.to_string();
        self.obs.case = 0;
        let mut obs = std::mem::take(&mut self.obs);
        obs.slot = Some(9);
        *SLOTS[9].what.lock().unwrap() = (phase.to_string(), String::new());
        if let Err(p) = guard(|| f(&mut obs)) {
            obs.fail(String::new(), format!("panicked: {p}"));
        }
        self.obs = obs;
    }

    /// Applies the known findings, writes evidence and replay files and returns the exit code.
    pub fn finish(mut self) -> i32 {
        let root = verif_root();
        let evid = root.join("evidence");
        let _ = std::fs::create_dir_all(&evid);
        let known = load_known(&root, self.prop);
        let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
        for v in &mut self.obs.violations {
            for (pat, desc) in &known {
                if v.what.contains(pat.as_str()) {
                    v.known = true;
                    *seen_known.entry(desc.clone()).or_insert(0) += 1;
                    break;
                }
            }
        }
        for (_, desc) in &known {
            println!("KNOWN-FINDING: property={} {}", self.prop, desc);
        }
        self.obs.violations.sort_by(|a, b| {
            (a.known, a.input.len(), a.case).cmp(&(b.known, b.input.len(), b.case))
        });
        let real: Vec<&Violation> = self.obs.violations.iter().filter(|v| !v.known).collect();
        let mut code = 0;
        for (i, v) in real.iter().enumerate().take(3) {
            let path = evid.join(format!("replay-{}-{}.txt", self.prop, i));
            let text = format!(
                "property: {}\nseed: {}\nphase: {}\ncase: {}\nrerun: VERIF_SEED={} ./check.sh {} --only {}:{}\n--- what\n{}\n--- input\n{}\n",
                self.prop, self.seed, v.phase, v.case, self.seed, self.prop, v.phase, v.case, v.what, v.input
            );
            let _ = std::fs::write(&path, text);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  {}", v.what.lines().next().unwrap_or("").chars().take(300).collect::<String>());
            code = 1;
        }
        let mut missing = vec![];
        if self.only.is_none() && code == 0 && self.scale >= 1.0 {
            for (f, n) in &self.require {
                let got = self.obs.feats.get(f).copied().unwrap_or(0);
                if got < *n {
                    missing.push(format!("{f}: {got} < {n}"));
                }
            }
        }
        let mut samples: Vec<&String> = self.obs.samples.iter().collect();
        samples.truncate(8);
        let wall = self.start.elapsed().as_secs_f64();
        let json = serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.obs.evals,
                "distinct_nontrivial": self.obs.distinct.len(),
                "rule": self.rule,
                "samples": samples,
                "observed": self.obs.feats,
                "known_findings_hit": seen_known,
                "stopped_by_time_cap": self.capped,
                "not_observed": missing,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": real.len(),
        });
        let path = evid.join(format!("{}.json", self.prop));
        std::fs::write(&path, serde_json::to_string_pretty(&json).unwrap()).unwrap();
        println!(
            "{}: evaluations={} distinct={} violations={} wall={:.1}s{}",
            self.prop,
            self.obs.evals,
            self.obs.distinct.len(),
            real.len(),
            wall,
            if self.capped { " (time cap reached)" } else { "" }
        );
        if code == 0 && (self.obs.evals == 0 || !missing.is_empty()) {
            println!("NOTHING-OBSERVED property={} {}", self.prop, missing.join("; "));
            code = 2;
        }
        code
    }
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// Lines of `known_findings.txt`: `finding: property=<id> match=<text> :: <description>`.
fn load_known(root: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else {
            continue;
        };
        let Some(rest) = rest.strip_prefix(&format!("property={prop} ")) else {
            continue;
        };
        let Some(rest) = rest.strip_prefix("match=") else {
            continue;
        };
        if let Some((pat, desc)) = rest.split_once(" :: ") {
            out.push((pat.to_string(), desc.to_string()));
        }
    }
    out
}

/// Runs this check (in the size of the quick tier) in a build with a sanitizer, whose reports are
/// violations. Only in the thorough tier.
pub fn sanitized(m: &mut Mon, sanitizer: &str, args: &[&str]) {
    if m.tier != Tier::Thorough || m.only.is_some() {
        return;
    }
    let root = verif_root();
    let dir = root.join("target").join(sanitizer);
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    let _ = std::fs::copy(root.join("known_findings.txt"), dir.join("known_findings.txt"));
    let out = std::process::Command::new(dir.join("x86_64-unknown-linux-gnu/debug/hclmon"))
        .arg(m.prop)
        .args(["--tier", "quick", "--seed", &m.seed.wrapping_add(1000).to_string()])
        .args(args)
        .env("VERIF_ROOT", &dir)
        .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66")
        .env("ASAN_OPTIONS", "exitcode=66 detect_leaks=1 detect_stack_use_after_return=1")
        .stdin(std::process::Stdio::null())
        .output();
    let prop = m.prop;
    m.once(sanitizer, |obs| {
        obs.case(&format!("{prop} under {sanitizer}"), true);
        match out {
            Err(e) => {
                eprintln!("no build with {sanitizer}: {e}");
                std::process::exit(2);
            }
            Ok(o) => {
                let err = String::from_utf8_lossy(&o.stderr).into_owned();
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                if std::os::unix::process::ExitStatusExt::signal(&o.status) == Some(9) {
                    eprintln!("the run with {sanitizer} was killed");
                    std::process::exit(2);
                }
                if err.contains("Sanitizer") || o.status.code() == Some(66) {
                    obs.fail(err.chars().take(5000).collect::<String>(), format!("a report of {sanitizer}"));
                } else if !o.status.success() {
                    obs.fail(text.chars().take(5000).collect::<String>(), format!("under {sanitizer} the check ends with {}", o.status));
                }
                for l in text.lines().filter(|l| l.contains("evaluations=")) {
                    obs.feat(&format!("under {sanitizer}: {l}"));
                }
                obs.feat(&format!("runs under {sanitizer}"));
            }
        }
    });
}
