mod conv;
mod gen;
mod model;
mod mutate;
mod p_build;
mod p_cli;
mod p_coll;
mod p_conc;
mod p_conv;
mod p_de;
mod p_val;
mod p_text;
mod idtable;
mod io;
mod p_edit;
mod p_edit07;
mod p_eq;
mod p_eval;
mod evalgen;
mod refeval;
mod p_fmt;
mod p_macro;
mod p_num;
mod p_parse;
mod p_perf;
mod p_ser;
mod p_visit;
mod serdyn;
mod spec;
mod slots;
mod refparse;
mod render;
mod rng;
mod run;
mod val;
mod work;

use run::{Mon, Tier};

type Check = fn(&mut Mon);

const CHECKS: &[(&str, Check)] = &[
    ("P01", p_parse::p01),
    ("P02", p_parse::p02),
    ("P03", p_edit::p03),
    ("P04", p_parse::p04),
    ("P05", p_parse::p05),
    ("P06", p_parse::p06),
    ("P07", p_edit07::p07),
    ("P08", p_coll::p08),
    ("P09", p_coll::p09),
    ("P10", p_visit::p10),
    ("P11", p_fmt::p11),
    ("P12", p_conv::p12),
    ("P13", p_ser::p13),
    ("P14", p_de::p14),
    ("P15", p_val::p15),
    ("P16", p_eval::p16),
    ("P17", p_eval::p17),
    ("P18", p_eval::p18),
    ("P19", p_eval::p19),
    ("P20", p_num::p20),
    ("P21", p_text::p21),
    ("P22", p_perf::p22),
    ("P23", p_cli::p23),
    ("P24", p_eq::p24),
    ("P25", p_conc::p25),
    ("P26", p_eval::p26),
    ("P27", p_macro::p27),
    ("P28", p_build::p28),
];

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut only = None;
    let mut scale = 1.0;
    let mut emit = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => {
                tier = if it.next().unwrap() == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--emit" => emit = true,
            "--scale" => scale = it.next().unwrap().parse().unwrap(),
            "--only" => {
                let v = it.next().unwrap();
                let (p, c) = v.rsplit_once(':').unwrap();
                only = Some((p.to_string(), c.parse().unwrap()));
            }
            x => id = x.to_string(),
        }
    }
    let Some((prop, f)) = CHECKS.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown check `{id}`");
        std::process::exit(2);
    };
    run::start_watchdog(prop, seed);
    let mut mon = Mon::new(prop, tier, seed, only, scale);
    if emit {
        p_perf::emit(&mut mon);
        return;
    }
    f(&mut mon);
    std::process::exit(mon.finish());
}
