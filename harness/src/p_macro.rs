//! P27: the macros. A program with many invocations of the macros reports what they gave, what
//! they stand for, how often the Rust expressions in them were evaluated and what the same HCL
//! text parses to (see /verif/macros).

use crate::run::{verif_root, Mon};
use serde_json::Value;
use std::process::{Command, Stdio};

fn short(s: &str) -> String {
    s.chars().take(3000).collect()
}

fn run(m: &mut Mon, name: &str, bin: &str, rounds: u64) {
    let out = Command::new(verif_root().join(bin))
        .args([m.seed.to_string(), rounds.to_string()])
        .stdin(Stdio::null())
        .output();
    let only = m.only.clone();
    m.once(name, |obs| {
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                eprintln!("{bin}: {e}");
                std::process::exit(2);
            }
        };
        let text = String::from_utf8_lossy(&out.stdout);
        let mut lines: Vec<&str> = text.lines().collect();
        if lines.pop() != Some("done") {
            obs.fail("", format!("the program using the macros ended with {}: {}", out.status, short(&String::from_utf8_lossy(&out.stderr))));
            return;
        }
        let mut failed = 0;
        for l in lines {
            let v: Value = serde_json::from_str(l).expect("a line of JSON");
            let kind = v["kind"].as_str().unwrap();
            let (got, want) = (v["got"].as_str().unwrap(), v["want"].as_str().unwrap());
            let id = format!("case {} round {}", v["case"], v["round"]);
            obs.case(want, want.len() > 30);
            obs.feat(kind);
            obs.feat_n("Rust expressions counted", v["ticks"].as_u64().unwrap());
            let mut fail = |what: String| {
                failed += 1;
                if failed <= 4 || only.is_some() {
                    obs.fail(format!("{id} ({kind}) with {}", v["vars"].as_str().unwrap()), what);
                }
            };
            if v["equal"] != Value::Bool(true) || got != want {
                fail(format!("the macro gave\n{}\nit stands for\n{}", short(got), short(want)));
            }
            if let Some(p) = v["parsed"].as_array() {
                let (text, parsed) = (p[0].as_str().unwrap(), p[1].as_str().unwrap());
                if parsed != got {
                    fail(format!("the macro gave\n{}\nthe text\n{}\nparses to\n{}", short(got), short(text), short(parsed)));
                }
                obs.feat("compared with the parser");
            }
        }
    });
}

pub fn p27(m: &mut Mon) {
    m.rule = "a case is one execution of one macro invocation with generated values of the Rust variables used in it; its result is compared (equality and Debug output) with the value constructed without macros, the evaluations of the Rust expressions are counted, and where the invocation is also HCL text it is compared with what the text parses to; nontrivial: a result with a Debug output of more than 30 bytes".into();
    m.assumptions = vec!["the invocations are generated (tools/gen_macros.py) and compiled: a shape which is not among them is not observed".into()];
    run(m, "macros", "target/macros/debug/hclmacros", 40);
    for k in ["expression", "value", "body", "block", "attribute", "structure"] {
        m.require(k, 1000);
    }
    m.require("Rust expressions counted", 5_000);
    m.require("compared with the parser", 120);
    if m.tier == crate::run::Tier::Thorough {
        run(m, "more macros", "target/macros-more/debug/hclmacros", 200);
        m.require("compared with the parser", 1_200);
    }
}
