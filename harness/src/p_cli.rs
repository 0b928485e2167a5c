//! P23: the program hcl2json.

use crate::p_conv::rs_opts;
use crate::p_parse::{first_diff, gen_body};
use crate::rng::Rng;
use crate::run::{guard, Mon, Obs};
use crate::{conv, spec};
use hcl::eval::{Context, Evaluate};
use serde_json::Value;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::{symlink, OpenOptionsExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;

/// The scratch directory of this run, with a copy of the program which anyone may run.
struct Scratch {
    root: PathBuf,
    exe: PathBuf,
    next: AtomicU64,
    /// Whether the program can be run as another user.
    unprivileged: bool,
}

impl Scratch {
    fn new() -> Scratch {
        let exe = crate::run::verif_root().join("target/cli/debug/hcl2json");
        let root = std::env::temp_dir().join(format!("hclmon-cli-{}", std::process::id()));
        fs::create_dir(&root).expect("scratch directory");
        fs::set_permissions(&root, PermissionsExt::from_mode(0o755)).expect("permissions");
        let copy = root.join("hcl2json");
        fs::copy(&exe, &copy).expect("hcl2json is built");
        fs::set_permissions(&copy, PermissionsExt::from_mode(0o755)).expect("permissions");
        let locked = root.join("locked");
        fs::write(&locked, "").expect("file");
        fs::set_permissions(&locked, PermissionsExt::from_mode(0)).expect("permissions");
        let probe = Command::new(&copy).arg("locked").current_dir(&root).uid(NOBODY).gid(NOBODY).output();
        let unprivileged = probe.is_ok_and(|o| !o.status.success() && !o.stderr.is_empty());
        Scratch { root, exe: copy, next: AtomicU64::new(0), unprivileged }
    }

    fn dir(&self) -> Dir {
        let d = self.root.join(format!("c{}", self.next.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&d).expect("directory");
        fs::set_permissions(&d, PermissionsExt::from_mode(0o755)).expect("permissions");
        Dir(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}

struct Dir(PathBuf);

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// --- contents -----------------------------------------------------------------------------------

/// What a file contains, and what it is converted to (without and with simplification), if it is
/// convertible.
#[derive(Clone, Debug)]
struct Content {
    bytes: Vec<u8>,
    plain: Option<Value>,
    simple: Option<Value>,
}

fn library(src: &str) -> (Option<Value>, Option<Value>) {
    let plain = hcl::from_str::<Value>(src).ok();
    let simple = hcl::parse(src).ok().and_then(|mut b| {
        let _ = b.evaluate_in_place(&Context::new());
        hcl::from_body::<Value>(b).ok()
    });
    (plain, simple)
}

/// Documents with the results which they must have.
const SIMPLE: &[(&str, &str, &str)] = &[
    ("a = 1 + 1\n", r#"{"a":"${1 + 1}"}"#, r#"{"a":2}"#),
    ("a = x\nb = [1, 2 * 3, x]\n", r#"{"a":"${x}","b":[1,"${2 * 3}","${x}"]}"#, r#"{"a":"${x}","b":[1,6,"${x}"]}"#),
    ("a \"l\" {\n  b = true ? \"y\" : \"n\"\n}\n", r#"{"a":{"l":{"b":"${true ? \"y\" : \"n\"}"}}}"#, r#"{"a":{"l":{"b":"y"}}}"#),
    ("a = \"${\"x\"}-${1 + 2}\"\n", r#"{"a":"${\"x\"}-${1 + 2}"}"#, r#"{"a":"x-3"}"#),
    ("a = [for v in [1, 2] : v * 2]\nb = f(1)\n", r#"{"a":"${[for v in [1, 2] : v * 2]}","b":"${f(1)}"}"#, r#"{"a":[2,4],"b":"${f(1)}"}"#),
    ("b = 1\nb = 2\n", "", ""),
    ("x {}\nx {}\na = null\n", r#"{"x":[{},{}],"a":null}"#, r#"{"x":[{},{}],"a":null}"#),
    ("", "{}", "{}"),
    ("# only a comment", "{}", "{}"),
];

fn good(obs: &mut Obs, r: &mut Rng) -> Content {
    if r.one_in(3) {
        let (src, plain, simple) = *r.pick(SIMPLE);
        if !plain.is_empty() {
            let v = |s: &str| Some(serde_json::from_str(s).expect("JSON"));
            return Content { bytes: src.into(), plain: v(plain), simple: v(simple) };
        }
    }
    let b = gen_body(r, rs_opts());
    let mut src = hcl::format::to_string(&conv::to_rs_body(&b)).expect("formatted");
    if r.one_in(8) {
        // Big files take longer.
        let n = r.range(20, 200);
        for i in 0..n {
            src.push_str(&format!("filler{i} \"é\" {{\n  a = [{i}, \"{}\"]\n}}\n", "x".repeat(i)));
        }
        obs.feat("big files");
    }
    let (plain, simple) = library(&src);
    if let (Some(p), false) = (&plain, spec::strange_keys(&b) || src.contains("filler")) {
        let want = serde_json::to_value(spec::body(&b).to()).expect("JSON");
        if *p != want {
            obs.fail(&src, format!("the library gives another value: {}", first_diff(&p.to_string(), &want.to_string())));
        }
    }
    Content { bytes: src.into_bytes(), plain, simple }
}

fn content(obs: &mut Obs, r: &mut Rng, bad: usize) -> Content {
    if !r.pct(bad) {
        return good(obs, r);
    }
    let bytes = match r.below(5) {
        0 => b"a = \"\xff\"\n".to_vec(),
        1 => b"a = 1\nb = 2 +\n".to_vec(),
        2 => b"\xef\xbb\xbfa = 1\n".to_vec(),
        3 => b"a = 1\na = 2\n".to_vec(),
        _ => {
            let mut c = good(obs, r).bytes;
            c.extend_from_slice(*r.pick(&[&b"\n}\n"[..], b"\nx {\n", b"\n\xf0\x9f\n"]));
            c
        }
    };
    Content { bytes, plain: None, simple: None }
}

// --- the program --------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
struct Options {
    glob: Option<String>,
    file_paths: bool,
    pretty: bool,
    go_on: bool,
    simplify: bool,
}

impl Options {
    fn gen(r: &mut Rng) -> Options {
        Options { glob: None, file_paths: r.bool(), pretty: r.pct(30), go_on: r.bool(), simplify: r.pct(40) }
    }

    /// The arguments, in some order and spelling.
    fn args(&self, r: &mut Rng, paths: &[OsString]) -> Vec<OsString> {
        let mut flags: Vec<Vec<OsString>> = vec![];
        let mut short = String::new();
        for (on, s, l) in [
            (self.file_paths, 'P', "--file-paths"),
            (self.pretty, 'p', "--pretty"),
            (self.go_on, 'C', "--continue-on-error"),
            (self.simplify, 's', "--simplify"),
        ] {
            if on {
                match r.below(3) {
                    0 => flags.push(vec![l.into()]),
                    1 => flags.push(vec![format!("-{s}").into()]),
                    _ => short.push(s),
                }
            }
        }
        if !short.is_empty() {
            flags.push(vec![format!("-{short}").into()]);
        }
        if let Some(g) = &self.glob {
            flags.push(match r.below(4) {
                0 => vec!["-g".into(), g.into()],
                1 => vec!["--glob".into(), g.into()],
                2 => vec![format!("--glob={g}").into()],
                _ => vec![format!("-g{g}").into()],
            });
        }
        r.shuffle(&mut flags);
        // Options may be anywhere, the order of the paths is kept.
        let mut out: Vec<OsString> = vec![];
        for p in paths {
            while !flags.is_empty() && r.one_in(3) {
                out.extend(flags.pop().unwrap());
            }
            out.push(p.clone());
        }
        for f in flags {
            let at = if r.bool() { 0 } else { out.len() };
            out.splice(at..at, f);
        }
        out
    }

    fn value<'c>(&self, c: &'c Content) -> Option<&'c Value> {
        if self.simplify { c.simple.as_ref() } else { c.plain.as_ref() }
    }

    fn text(&self, v: &Value) -> String {
        if self.pretty { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) }.expect("JSON")
    }
}

/// What must happen.
#[derive(Debug)]
enum Want {
    /// This output, and warnings about these paths.
    Done(String, Vec<String>),
    /// Failure, with a message that mentions one of these (if there are any).
    Fails(Vec<String>),
}

struct Got {
    ok: bool,
    out: String,
    err: String,
}

fn command(s: &Scratch, dir: &Path, args: &[OsString], threads: usize, nobody: bool) -> Command {
    let mut c = Command::new(&s.exe);
    c.args(args).current_dir(dir).env("RAYON_NUM_THREADS", threads.to_string()).env_remove("RUST_BACKTRACE");
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if nobody {
        c.uid(NOBODY).gid(NOBODY);
    }
    c
}

fn finish(c: std::process::Child) -> Got {
    let o = c.wait_with_output().expect("output");
    Got {
        ok: o.status.success(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn judge(obs: &mut Obs, key: &str, got: &Got, want: &Want) {
    if got.err.contains("panicked") {
        obs.fail(key, format!("panicked: {}", got.err));
        return;
    }
    match want {
        Want::Done(out, warned) => {
            if !got.ok {
                obs.fail(key, format!("failed: {}", got.err));
                return;
            }
            if got.out != *out {
                obs.fail(key, format!("output: {}", first_diff(&got.out, out)));
            }
            let n = got.err.matches("Warning:").count();
            if n != warned.len() {
                obs.fail(key, format!("{n} warnings instead of {}: {}", warned.len(), got.err));
            }
            for w in warned {
                if !got.err.contains(&format!("`{w}`")) {
                    obs.fail(key, format!("no warning about {w}: {}", got.err));
                }
            }
            obs.feat(if warned.is_empty() { "converted" } else { "converted with warnings" });
        }
        Want::Fails(names) => {
            if got.ok {
                obs.fail(key, "was accepted");
                return;
            }
            if got.err.is_empty() {
                obs.fail(key, "no message");
            }
            if !got.out.is_empty() {
                obs.fail(key, format!("output in spite of a failure: {}", got.out));
            }
            if !names.is_empty() && !names.iter().any(|n| got.err.contains(n)) {
                obs.fail(key, format!("the message names none of {names:?}: {}", got.err));
            }
            obs.feat("failed");
        }
    }
}

/// What several files give.
fn bulk(o: &Options, files: &[(String, Content)]) -> Want {
    let failing: Vec<String> = files.iter().filter(|(_, c)| o.value(c).is_none()).map(|(p, _)| p.clone()).collect();
    if !failing.is_empty() && !o.go_on {
        return Want::Fails(failing);
    }
    let good = files.iter().filter_map(|(p, c)| o.value(c).map(|v| (p, v)));
    let v = if o.file_paths {
        let mut m = serde_json::Map::new();
        for (p, v) in good {
            m.insert(p.clone(), v.clone());
        }
        Value::Object(m)
    } else {
        Value::Array(good.map(|(_, v)| v.clone()).collect())
    };
    Want::Done(o.text(&v), failing)
}

fn single(o: &Options, c: &Content) -> Want {
    match o.value(c) {
        Some(v) => Want::Done(o.text(v), vec![]),
        None => Want::Fails(vec![]),
    }
}

// --- phases -------------------------------------------------------------------------------------

fn one_input(obs: &mut Obs, r: &mut Rng, s: &Scratch) {
    let d = s.dir();
    let o = Options::gen(r);
    let c = content(obs, r, 25);
    let mut o2 = o.clone();
    if r.one_in(4) {
        o2.glob = Some("*.x".into());
    }
    let how = r.below(4);
    let threads = r.range(1, 4);
    let path: OsString = match how {
        0 => {
            obs.feat("no arguments");
            return stdin(obs, r, s, &d.0, &o2, &c, &[], threads);
        }
        1 => {
            obs.feat("dash");
            return stdin(obs, r, s, &d.0, &o2, &c, &["-".into()], threads);
        }
        2 => {
            fs::write(d.0.join("a b.hcl"), &c.bytes).expect("file");
            obs.feat("one file");
            "a b.hcl".into()
        }
        _ => {
            // A link or an absolute path.
            fs::write(d.0.join("é.hcl"), &c.bytes).expect("file");
            if r.bool() {
                symlink("é.hcl", d.0.join("link")).expect("link");
                "./link".into()
            } else {
                d.0.join("é.hcl").into_os_string()
            }
        }
    };
    let mut args = o2.args(r, &[path]);
    let mut want = single(&o, &c);
    if r.one_in(12) {
        args = o2.args(r, &["missing.hcl".into()]);
        want = Want::Fails(vec![]);
        obs.feat("missing file");
    } else if r.one_in(30) {
        args.push("--no-such-option".into());
        want = Want::Fails(vec!["--no-such-option".into()]);
    }
    let key = format!("{args:?}\n{}", String::from_utf8_lossy(&c.bytes));
    obs.case(&key, true);
    let got = finish(command(s, &d.0, &args, threads, false).spawn().expect("spawned"));
    judge(obs, &key, &got, &want);
}

#[allow(clippy::too_many_arguments)]
fn stdin(obs: &mut Obs, r: &mut Rng, s: &Scratch, dir: &Path, o: &Options, c: &Content, paths: &[OsString], threads: usize) {
    let args = o.args(r, paths);
    let key = format!("stdin {args:?}\n{}", String::from_utf8_lossy(&c.bytes));
    obs.case(&key, true);
    let mut child = command(s, dir, &args, threads, false).stdin(Stdio::piped()).spawn().expect("spawned");
    let mut pipe = child.stdin.take().unwrap();
    // Pieces of any size, with pauses, also in the middle of characters.
    let mut at = 0;
    while at < c.bytes.len() {
        let n = r.range(1, 1 + c.bytes.len() / 3).min(c.bytes.len() - at);
        if pipe.write_all(&c.bytes[at..at + n]).is_err() {
            break;
        }
        at += n;
        if r.one_in(3) {
            std::thread::sleep(Duration::from_millis(1));
        }
        obs.feat("pieces of stdin");
    }
    drop(pipe);
    let got = finish(child);
    judge(obs, &key, &got, &single(o, c));
}

/// A small matcher for the patterns that are used here. `?` is one byte, as globset has it.
fn matches(p: &[u8], s: &[u8]) -> bool {
    match p {
        [] => s.is_empty(),
        [b'*', b'*'] => !s.is_empty(),
        [b'*', b'*', b'/', rest @ ..] => {
            matches(rest, s) || s.iter().enumerate().any(|(i, c)| *c == b'/' && matches(rest, &s[i + 1..]))
        }
        [b'*', rest @ ..] => {
            let run = s.iter().take_while(|c| **c != b'/').count();
            (0..=run).any(|i| matches(rest, &s[i..]))
        }
        [b'?', rest @ ..] => s.first().is_some_and(|c| *c != b'/') && matches(rest, &s[1..]),
        [b'\\', x, rest @ ..] => s.first() == Some(x) && matches(rest, &s[1..]),
        [b'[', rest @ ..] => {
            let end = rest.iter().position(|c| *c == b']').expect("closed");
            s.first().is_some_and(|c| rest[..end].contains(c)) && matches(&rest[end + 1..], &s[1..])
        }
        [b'{', rest @ ..] => {
            let end = rest.iter().position(|c| *c == b'}').expect("closed");
            rest[..end].split(|c| *c == b',').any(|a| {
                let mut q = a.to_vec();
                q.extend_from_slice(&rest[end + 1..]);
                matches(&q, s)
            })
        }
        [x, rest @ ..] => s.first() == Some(x) && matches(rest, &s[1..]),
    }
}

const PATTERNS: &[&str] = &[
    "**/*.hcl", "*.hcl", "**/*.{hcl,tf}", "?.hcl", "**/[ab].hcl", "sub/*.hcl", "*/*", "**", "*", "**/*", "**/sub/*.hcl",
    "sub/**", "a*.hcl", "**/a.{tf,hcl}", "*/*/*.hcl", "nothing", "\\[x\\]/*.hcl", "**/.*", "sub/?.tf", "*.tf", "[ac]*/*.hcl",
    "sub/**/*.tf", "*b*", "**/é*", "{sub,a}/*.hcl",
];

const NAMES: &[&str] = &[
    "a.hcl", "b.hcl", "a.tf", "c d.hcl", "é.hcl", ".h.hcl", "x[1].hcl", "{a}.hcl", "A.hcl", "a.hcl.bak", "a-b.hcl", "10.hcl",
    "9.hcl", "zz.tf", "-p.hcl", "b",
];
const DIRS: &[&str] = &["sub", "a", "[x]", "d.hcl", "é", ".hidden", "s*b", "c", "a.hc"];

struct Tree {
    /// Paths in the order of the walk, relative to the directory.
    files: Vec<(String, Content)>,
}

fn tree(obs: &mut Obs, r: &mut Rng, dir: &Path, bad: usize, depth: usize) -> Tree {
    let mut names: Vec<(&str, bool)> = vec![];
    let n = r.below(6);
    for _ in 0..n {
        let x = *r.pick(NAMES);
        if !names.iter().any(|(y, _)| *y == x) {
            names.push((x, false));
        }
    }
    if depth > 0 {
        let n = r.below(4);
        for _ in 0..n {
            let x = *r.pick(DIRS);
            if !names.iter().any(|(y, _)| *y == x) {
                names.push((x, true));
            }
        }
    }
    // They are created in any order.
    r.shuffle(&mut names);
    let mut got: Vec<(&str, Vec<(String, Content)>)> = vec![];
    for (x, is_dir) in names {
        let path = dir.join(x);
        if is_dir {
            if r.one_in(8) {
                // Links to directories are not followed.
                let _ = symlink(".", &path);
                obs.feat("links to directories");
                continue;
            }
            fs::create_dir(&path).expect("directory");
            let t = tree(obs, r, &path, bad, depth - 1);
            got.push((x, t.files.into_iter().map(|(p, c)| (format!("{x}/{p}"), c)).collect()));
        } else if r.one_in(12) {
            let _ = symlink("missing", &path);
            obs.feat("dangling links");
        } else {
            let c = content(obs, r, bad);
            if r.one_in(8) {
                let target = dir.join(format!("{x}~"));
                fs::write(&target, &c.bytes).expect("file");
                symlink(format!("{x}~"), &path).expect("link");
                got.push((leak_name(x), vec![(format!("{x}~"), c.clone())]));
                obs.feat("links to files");
            } else {
                fs::write(&path, &c.bytes).expect("file");
            }
            got.push((x, vec![(x.to_string(), c)]));
        }
    }
    got.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    Tree { files: got.into_iter().flat_map(|(_, v)| v).collect() }
}

/// The name of the target of a link.
fn leak_name(x: &str) -> &'static str {
    static POOL: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
    let mut p = POOL.lock().unwrap();
    let n = format!("{x}~");
    if let Some(s) = p.iter().find(|s| **s == n) {
        return s;
    }
    p.push(Box::leak(n.into_boxed_str()));
    p.last().unwrap()
}

const TOPS: &[&str] = &["top", "t [1]", "t{a,b}", "t*", "é/x", "top.hcl", "t?"];

fn directories(obs: &mut Obs, r: &mut Rng, s: &Scratch) {
    let d = s.dir();
    let mut o = Options::gen(r);
    let bad = *r.pick(&[0, 0, 10, 30]);
    let pattern = *r.pick(PATTERNS);
    if !r.one_in(10) {
        o.glob = Some(pattern.into());
    }
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 4, 6]);
    let mut paths: Vec<OsString> = vec![];
    let mut files: Vec<(String, Content)> = vec![];
    let mut missing_glob = false;
    let mut made: Vec<(String, Vec<(String, Content)>)> = vec![];
    for i in 0..n {
        if i > 0 && r.one_in(5) && !made.is_empty() {
            // The same directory again.
            let (p, fs) = r.pick(&made).clone();
            paths.push(p.into());
            files.extend(fs);
            continue;
        }
        if i > 0 && r.one_in(6) && !files.is_empty() {
            // A file that is an argument or part of a directory already.
            let (p, c) = r.pick(&files).clone();
            obs.feat("the same file again");
            paths.push(OsString::from_vec(p.as_bytes().to_vec()));
            files.push((p, c));
            continue;
        }
        if n > 1 && r.pct(40) {
            let name = format!("{i} {}", r.pick(NAMES));
            let c = content(obs, r, bad);
            if r.one_in(15) {
                files.push((name.clone(), Content { bytes: vec![], plain: None, simple: None }));
                obs.feat("missing files among others");
            } else {
                fs::write(d.0.join(&name), &c.bytes).expect("file");
                files.push((name.clone(), c));
            }
            paths.push(name.into());
            continue;
        }
        let top = r.pick(TOPS).to_string();
        if d.0.join(&top).exists() {
            continue;
        }
        fs::create_dir_all(d.0.join(&top)).expect("directory");
        let t = tree(obs, r, &d.0.join(&top), bad, 2);
        let (arg, prefix) = match r.below(5) {
            0 => (format!("{top}/"), format!("{top}/")),
            1 => (format!("./{top}"), format!("./{top}/")),
            2 => {
                let p = d.0.join(&top).display().to_string();
                (p.clone(), format!("{p}/"))
            }
            3 => {
                let l = format!("l{i}");
                symlink(&top, d.0.join(&l)).expect("link");
                (l.clone(), format!("{l}/"))
            }
            _ => (top.clone(), format!("{top}/")),
        };
        missing_glob |= o.glob.is_none();
        let these: Vec<(String, Content)> = t
            .files
            .into_iter()
            .filter(|(p, _)| o.glob.is_some() && matches(pattern.as_bytes(), p.as_bytes()))
            .map(|(p, c)| (format!("{prefix}{p}"), c))
            .collect();
        obs.feat_n("files found", these.len() as u64);
        files.extend(these.clone());
        made.push((arg.clone(), these));
        paths.push(arg.into());
    }
    if paths.is_empty() {
        return;
    }
    let only_file = paths.len() == 1 && made.is_empty();
    let want = if missing_glob {
        obs.feat("no glob");
        Want::Fails(vec!["--glob".into()])
    } else if only_file {
        match files[0].1.bytes.is_empty() && files[0].1.plain.is_none() {
            true => Want::Fails(vec![]),
            false => single(&o, &files[0].1),
        }
    } else {
        bulk(&o, &files)
    };
    let args = o.args(r, &paths);
    let listing: String = files.iter().map(|(p, c)| format!("--- {p}\n{}\n", String::from_utf8_lossy(&c.bytes))).collect();
    let key = format!("{args:?}\n{listing}");
    obs.case(&key, true);
    obs.feat(if o.file_paths { "maps" } else { "arrays" });
    if o.pretty {
        obs.feat("pretty");
    }
    if o.simplify {
        obs.feat("simplified");
    }
    for threads in [r.range(1, 2), r.range(3, 16)] {
        let got = finish(command(s, &d.0, &args, threads, false).spawn().expect("spawned"));
        judge(obs, &key, &got, &want);
    }
}

/// The files are pipes, which decides the order in which they are finished.
fn schedules(obs: &mut Obs, r: &mut Rng, s: &Scratch) {
    let d = s.dir();
    let o = Options::gen(r);
    let n = r.range(2, 7);
    let bad = *r.pick(&[0, 0, 20]);
    let mut files: Vec<(String, Content)> = vec![];
    for i in 0..n {
        let mut c = content(obs, r, bad);
        while c.bytes.len() > 4000 {
            c = content(obs, r, bad);
        }
        files.push((format!("{i}-{}", r.pick(&["a", "é", "x y", "b"])), c));
    }
    let st = Command::new("mkfifo").args(files.iter().map(|(p, _)| d.0.join(p))).status().expect("mkfifo");
    assert!(st.success(), "mkfifo failed");
    let paths: Vec<OsString> = files.iter().map(|(p, _)| p.into()).collect();
    let args = o.args(r, &paths);
    let mut turn: Vec<usize> = (0..n).collect();
    r.shuffle(&mut turn);
    let threads = r.range(n, 2 * n);
    let listing: String = files.iter().map(|(p, c)| format!("--- {p}\n{}\n", String::from_utf8_lossy(&c.bytes))).collect();
    let key = format!("{args:?} order {turn:?}\n{listing}");
    obs.case(&key, true);
    let child = command(s, &d.0, &args, threads, false).spawn().expect("spawned");
    let done = AtomicBool::new(false);
    let now = AtomicUsize::new(0);
    let order: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let got = std::thread::scope(|sc| {
        for (i, (p, c)) in files.iter().enumerate() {
            let (done, now, order) = (&done, &now, &order);
            let at = turn[i];
            let path = d.0.join(p);
            sc.spawn(move || {
                let end = |t: Instant| done.load(Ordering::Relaxed) || t.elapsed() > Duration::from_secs(60);
                let t = Instant::now();
                // A reader appears when the file is processed.
                let mut f = loop {
                    match fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&path) {
                        Ok(f) => break f,
                        Err(_) if end(t) => return,
                        Err(_) => std::thread::sleep(Duration::from_micros(300)),
                    }
                };
                // One after the other; a file whose turn does not come is written anyway.
                let t = Instant::now();
                while now.load(Ordering::Relaxed) < at && t.elapsed() < Duration::from_millis(250) {
                    std::thread::sleep(Duration::from_micros(300));
                }
                order.lock().unwrap().push(i);
                let _ = f.write_all(&c.bytes);
                drop(f);
                std::thread::sleep(Duration::from_millis(2));
                now.fetch_max(at + 1, Ordering::Relaxed);
            });
        }
        let got = finish(child);
        done.store(true, Ordering::Relaxed);
        got
    });
    judge(obs, &key, &got, &bulk(&o, &files));
    let order = order.into_inner().unwrap();
    if order.windows(2).any(|w| w[0] > w[1]) {
        obs.feat("finished in another order");
    }
    obs.feat("files finished by schedule");
}

/// Outputs that fail, and inputs that cannot be read.
fn faults(obs: &mut Obs, r: &mut Rng, s: &Scratch) {
    let d = s.dir();
    let o = Options::gen(r);
    let c = good(obs, r);
    fs::write(d.0.join("a.hcl"), &c.bytes).expect("file");
    fs::write(d.0.join("b.hcl"), &c.bytes).expect("file");
    let paths: Vec<OsString> = if r.bool() { vec!["a.hcl".into()] } else { vec!["a.hcl".into(), "b.hcl".into()] };
    let args = o.args(r, &paths);
    let which = r.below(4);
    let key = format!("fault {which} {args:?}\n{}", String::from_utf8_lossy(&c.bytes));
    match which {
        0 => {
            obs.case(&key, true);
            let full = fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
            let got = finish(command(s, &d.0, &args, 2, false).stdout(full).spawn().expect("spawned"));
            judge(obs, &key, &got, &Want::Fails(vec![]));
            obs.feat("full device");
        }
        1 => {
            obs.case(&key, true);
            let mut child = command(s, &d.0, &args, 2, false).stdin(Stdio::piped()).spawn().expect("spawned");
            drop(child.stdout.take());
            let got = finish(child);
            if got.ok {
                // The reader may have been there for long enough.
                let big = o.text(o.value(&c).unwrap_or(&Value::Null)).len() > 70_000;
                if big {
                    obs.fail(&key, "a closed output was accepted");
                }
                obs.feat("closed too late");
            } else {
                obs.feat("closed output");
            }
        }
        2 => {
            let key = format!("stdin is a directory {o:?}");
            obs.case(&key, true);
            let args = o.args(r, &[]);
            let f = fs::File::open(&d.0).expect("directory");
            let got = finish(command(s, &d.0, &args, 2, false).stdin(f).spawn().expect("spawned"));
            judge(obs, &key, &got, &Want::Fails(vec![]));
            obs.feat("unreadable stdin");
        }
        _ => {
            // Names that are no text.
            let name = OsString::from_vec(b"n\xff.hcl".to_vec());
            fs::write(d.0.join(&name), &c.bytes).expect("file");
            let key = format!("strange name {o:?}\n{}", String::from_utf8_lossy(&c.bytes));
            obs.case(&key, true);
            let args = o.args(r, &[name.clone(), "a.hcl".into()]);
            let files = vec![(Path::new(&name).display().to_string(), c.clone()), ("a.hcl".to_string(), c.clone())];
            let got = finish(command(s, &d.0, &args, 2, false).spawn().expect("spawned"));
            judge(obs, &key, &got, &bulk(&o, &files));
            obs.feat("strange names");
        }
    }
}

/// Files and directories without permission; the program runs as another user.
fn permissions(obs: &mut Obs, r: &mut Rng, s: &Scratch) {
    let d = s.dir();
    let mut o = Options::gen(r);
    let n = r.range(2, 6);
    let mut files: Vec<(String, Content)> = vec![];
    let lock = |p: &Path| fs::set_permissions(p, PermissionsExt::from_mode(0)).expect("permissions");
    for i in 0..n {
        let name = format!("f{i}.hcl");
        let mut c = content(obs, r, 10);
        fs::write(d.0.join(&name), &c.bytes).expect("file");
        if r.one_in(3) {
            lock(&d.0.join(&name));
            c.plain = None;
            c.simple = None;
            obs.feat("files without permission");
        }
        files.push((name, c));
    }
    let listing: String = files.iter().map(|(p, c)| format!("--- {p}\n{}\n", String::from_utf8_lossy(&c.bytes))).collect();
    let run = |obs: &mut Obs, r: &mut Rng, o: &Options, paths: &[OsString]| {
        let args = o.args(r, paths);
        let key = format!("as nobody {args:?}\n{listing}");
        obs.case(&key, true);
        (key, finish(command(s, &d.0, &args, r.range(1, 8), true).spawn().expect("spawned")))
    };
    match r.below(4) {
        0 => {
            let (p, c) = r.pick(&files).clone();
            let (key, got) = run(obs, r, &o, &[p.into()]);
            judge(obs, &key, &got, &single(&o, &c));
        }
        1 => {
            let mut v = files.clone();
            r.shuffle(&mut v);
            let (key, got) = run(obs, r, &o, &v.iter().map(|(p, _)| p.into()).collect::<Vec<_>>());
            judge(obs, &key, &got, &bulk(&o, &v));
        }
        2 => {
            o.glob = Some("*.hcl".into());
            let (key, got) = run(obs, r, &o, &[".".into()]);
            let v: Vec<_> = files.iter().map(|(p, c)| (format!("./{p}"), c.clone())).collect();
            judge(obs, &key, &got, &bulk(&o, &v));
        }
        _ => {
            // A directory that cannot be listed.
            let sub = d.0.join("g-locked");
            fs::create_dir(&sub).expect("directory");
            fs::write(sub.join("x.hcl"), "x = 1\n").expect("file");
            lock(&sub);
            o.glob = Some("**/*.hcl".into());
            let (key, got) = run(obs, r, &o, &[".".into()]);
            obs.feat("directories without permission");
            if !o.go_on {
                judge(obs, &key, &got, &Want::Fails(vec!["g-locked".into()]));
            } else {
                // It is reported; the other files of the directory may be ignored with it.
                if !got.ok || !got.err.contains("Warning:") {
                    obs.fail(&key, format!("no report of the directory: {}", got.err));
                }
                if !o.file_paths && serde_json::from_str::<Vec<Value>>(&got.out).is_err() {
                    obs.fail(&key, format!("no array: {}", got.out));
                }
            }
            fs::set_permissions(&sub, PermissionsExt::from_mode(0o755)).expect("permissions");
        }
    }
}

/// Many files at once.
fn many(obs: &mut Obs, r: &mut Rng, s: &Scratch, i: u64) {
    let d = s.dir();
    let mut o = Options::gen(r);
    let n = r.range(100, 600);
    let mut files: Vec<(String, Content)> = vec![];
    for k in 0..n {
        let i = k;
        let (src, v) = if r.one_in(20) && o.go_on {
            (format!("a = {i} {i}\n"), None)
        } else if r.one_in(15) {
            let src: String = (0..300).map(|j| format!("a{j} = [{i}, {j}]\n")).collect();
            let v = library(&src).0;
            (src, v)
        } else {
            (format!("a = {i}\n"), Some(serde_json::json!({ "a": i })))
        };
        let name = format!("{:08x}.hcl", r.below(1 << 32));
        fs::write(d.0.join(&name), &src).expect("file");
        files.retain(|(n, _)| *n != name);
        files.push((name, Content { bytes: src.into(), plain: v.clone(), simple: v }));
    }
    let paths: Vec<OsString> = if i % 2 == 0 {
        obs.feat("many by directory");
        files.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
        o.glob = Some("*.hcl".into());
        for f in &mut files {
            f.0 = format!("../{}/{}", d.0.file_name().unwrap().to_string_lossy(), f.0);
        }
        vec![format!("../{}", d.0.file_name().unwrap().to_string_lossy()).into()]
    } else {
        obs.feat("many by name");
        files.iter().map(|(p, _)| OsString::from_vec(p.as_bytes().to_vec())).collect()
    };
    let args = o.args(r, &paths);
    let key = format!("{} files {o:?} {}", files.len(), r.u64());
    obs.case(&key, true);
    let want = bulk(&o, &files);
    for threads in [1, 8, 32] {
        let got = finish(command(s, &d.0, &args, threads, false).spawn().expect("spawned"));
        judge(obs, &key, &got, &want);
    }
}

pub fn p23(m: &mut Mon) {
    m.rule = "one call (or a set of calls with several numbers of threads) of hcl2json on generated inputs and options, whose output, messages and status are compared".into();
    m.assumptions = vec![
        "the value of one file is what the library defines (P14, P19); it is also compared with the mapping oracle and a table".into(),
        "paths have no line breaks".into(),
    ];
    let s = match guard(Scratch::new) {
        Ok(s) => s,
        Err(p) => {
            eprintln!("no scratch directory: {p}");
            std::process::exit(2);
        }
    };
    let n = m.n(700);
    m.cases("one input", n, |obs, r, _| one_input(obs, r, &s));
    let n = m.n(900);
    m.cases("directories", n, |obs, r, _| directories(obs, r, &s));
    let n = m.n(250);
    m.cases("schedules", n, |obs, r, _| schedules(obs, r, &s));
    let n = m.n(250);
    m.cases("faults", n, |obs, r, _| faults(obs, r, &s));
    let n = m.n(16);
    m.cases("many", n, |obs, r, i| many(obs, r, &s, i));
    if s.unprivileged {
        let n = m.n(250);
        m.cases("permissions", n, |obs, r, _| permissions(obs, r, &s));
    } else {
        m.assumptions.push("the program could not be run as another user: missing permissions were not observed".into());
    }
    for f in [
        "the same file again", "no arguments", "dash", "one file", "missing file", "converted", "converted with warnings", "failed", "pieces of stdin",
        "maps", "arrays", "pretty", "simplified", "no glob", "links to files", "links to directories", "dangling links",
        "finished in another order", "full device", "closed output", "unreadable stdin", "strange names", "many by directory",
        "many by name", "files found",
    ] {
        m.require(f, 5);
    }
    drop(s);
}
