//! P22: the `perf` feature. The same work runs in two builds of this program; the records of the
//! executions are compared.

use crate::p_parse::first_diff;
use crate::rng::hash64;
use crate::run::{verif_root, Mon, Obs};
use crate::work::{self, KINDS};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::Mutex;

const N: &[u64] = &[40_000, 12_000, 6_000, 8_000, 20_000, 2_000, 6_000, 12_000];

fn header() -> String {
    format!(
        "perf={} size={}",
        cfg!(feature = "perf"),
        std::mem::size_of::<hcl_primitives::InternalString>()
    )
}

/// What the other build does: prints a line for each case, or the whole record of one.
pub fn emit(m: &mut Mon) {
    println!("{}", header());
    for (k, name) in KINDS.iter().enumerate() {
        let out = Mutex::new(vec![]);
        let full = m.only.is_some();
        let n = m.n(N[k]);
        m.cases(name, n, |_, rng, i| {
            let o = work::run(k, rng);
            if full {
                print!("{}", o.text);
            } else {
                out.lock().unwrap().push((i, hash64(o.key.as_bytes()), hash64(o.text.as_bytes())));
            }
        });
        let mut s = String::new();
        for (i, a, b) in out.into_inner().unwrap() {
            s.push_str(&format!("{name}:{i}:{a}:{b}\n"));
        }
        print!("{s}");
    }
    println!("done");
}

fn child(m: &Mon, only: Option<(&str, u64)>) -> Result<Vec<String>, String> {
    let mut c = Command::new(verif_root().join("target/perf/debug/hclmon"));
    c.args(["P22", "--emit", "--seed", &m.seed.to_string(), "--scale", &m.scale.to_string()]);
    c.args(["--tier", if m.tier == crate::run::Tier::Quick { "quick" } else { "thorough" }]);
    if let Some((k, i)) = only {
        c.args(["--only", &format!("{k}:{i}")]);
    }
    let out = c.stdin(Stdio::null()).stderr(Stdio::inherit()).output().map_err(|e| e.to_string())?;
    let mut lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(String::from).collect();
    if lines.pop().as_deref() != Some("done") {
        return Err(format!("the build with the perf feature ended with {} after {lines:?}", out.status).chars().take(2000).collect());
    }
    Ok(lines)
}

pub fn p22(m: &mut Mon) {
    m.rule = "a case is one work item (operations on strings around the limit of inline strings, parsing, editing, conversion and formatting, serialization of dynamic and derived data and of expressions, evaluation) executed in two builds of the crates; all observable results (values, texts, Debug output with spans, comparisons, errors) of both are compared; nontrivial: at least ten observations".into();
    m.assumptions = vec!["both builds use the same compiler and profile; hash values are only compared for equal and unequal strings, not as numbers".into()];
    let only = m.only.clone();
    let got = child(m, only.as_ref().map(|(k, i)| (k.as_str(), *i)));
    let mut lines = match got {
        Ok(l) => l,
        Err(e) => {
            m.once("perf build", |obs| obs.fail("", e));
            return;
        }
    };
    let head = lines.remove(0);
    m.once("configurations", |obs| {
        obs.case("configurations", true);
        obs.feat(&format!("other build: {head}"));
        obs.feat(&format!("this build: {}", header()));
        if !head.starts_with("perf=true ") || !header().starts_with("perf=false ") {
            // Not a fact about the code but a broken build of the monitor.
            eprintln!("not the two configurations: {head}, {}", header());
            std::process::exit(2);
        }
    });
    if let Some((k, i)) = only {
        let want = lines.join("\n");
        let kind = KINDS.iter().position(|x| *x == k).expect("a kind");
        m.cases(KINDS[kind], i + 1, |obs, rng, _| {
            let o = work::run(kind, rng);
            compare(obs, &o, &want);
        });
        return;
    }
    let mut digests: BTreeMap<(String, u64), (u64, u64)> = BTreeMap::new();
    for l in &lines {
        let p: Vec<&str> = l.split(':').collect();
        digests.insert((p[0].into(), p[1].parse().unwrap()), (p[2].parse().unwrap(), p[3].parse().unwrap()));
    }
    let bad = Mutex::new(vec![]);
    for (k, name) in KINDS.iter().enumerate() {
        let n = m.n(N[k]);
        m.cases(name, n, |obs, rng, i| {
            let Some((key, text)) = digests.get(&(name.to_string(), i)) else {
                obs.feat("not reached by the other build");
                return;
            };
            let o = work::run(k, rng);
            obs.case(&o.key, o.lines >= 10);
            obs.feat(name);
            obs.feat_n("observations compared", o.lines);
            if hash64(o.key.as_bytes()) != *key || hash64(o.text.as_bytes()) != *text {
                bad.lock().unwrap().push((k, i, o));
            }
        });
        m.require(name, N[k] / 2);
    }
    m.require("observations compared", 1_000_000);
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|(k, i, o)| (o.text.len(), *k, *i));
    for (k, i, o) in bad.into_iter().take(4) {
        let r = child(m, Some((KINDS[k], i)));
        m.only = Some((KINDS[k].into(), i));
        m.cases(KINDS[k], 0, |obs, _, _| match &r {
            Ok(l) => compare(obs, &o, &l[1..].join("\n")),
            Err(e) => obs.fail(&o.key, e),
        });
        m.only = None;
    }
    crate::run::sanitized(m, "asan", &["--emit"]);
}

fn compare(obs: &mut Obs, o: &work::Out, want: &str) {
    obs.case(&o.key, true);
    for (a, b) in o.text.lines().zip(want.lines()) {
        if a != b {
            obs.fail(&o.key, format!("the builds differ (default first): {}\nin {a}\nand {b}", first_diff(a, b)));
            return;
        }
    }
    if o.text.lines().count() != want.lines().count() {
        obs.fail(&o.key, format!("the builds differ: {} and {} lines", o.text.lines().count(), want.lines().count()));
    }
}
