mod bsim;
mod dd;
mod engine;
mod esim;
mod harness;
mod lsim;
mod model;
mod rng;
mod rt;
use harness::*;
use std::path::{Path, PathBuf};

struct Plan {
    sys: &'static str,
    quick: u64,
    thorough: u64,
}
fn plan(p: &str) -> Option<Plan> {
    let e = |q| Some(Plan { sys: "engine", quick: q, thorough: q * 40 });
    match p {
        "E01" | "E02" | "E03" | "E04" | "E05" | "E06" | "E07" | "E08" | "E09" | "E10" | "E11" | "E12" | "E13" | "E14" => e(24000),
        "L01" | "L02" | "L03" | "L04" | "L05" | "L06" | "L07" | "L08" | "L09" | "L10" | "L11" | "L12" | "L13" => {
            Some(Plan { sys: "ledger", quick: 20000, thorough: 640_000 })
        }
        "B01" => Some(Plan { sys: "bitmap", quick: 20_000, thorough: 1_000_000 }),
        _ => None,
    }
}

macro_rules! with_sys {
    ($s:expr, $f:ident, $($a:expr),*) => {
        match $s {
            "engine" => $f::<esim::EngineSim>($($a),*),
            "bitmap" => $f::<bsim::BitmapSim>($($a),*),
            "ledger" => $f::<lsim::LedgerSim>($($a),*),
            _ => { eprintln!("unknown system"); std::process::exit(2) }
        }
    };
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = harness::LAST_PANIC.lock() {
            *l = i.to_string();
        }
        if std::env::var("SIM_PANICS").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    rt::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = real_main(&a);
    flush();
    std::process::exit(code);
}

fn real_main(a: &[String]) -> i32 {
    match a.get(0).map(|s| s.as_str()) {
        Some("worker") => {
            let (prop, tier) = (a[1].clone(), a[2].clone());
            let job = Job {
                prop: prop.clone(),
                seed: a[3].parse().unwrap(),
                deep: tier == "thorough",
                runs: a[4].parse().unwrap(),
                cap_s: a[5].parse().unwrap(),
            };
            let (w, n): (u64, u64) = (a[6].parse().unwrap(), a[7].parse().unwrap());
            let known: Vec<String> = known_findings(Path::new(&a[9]), &prop).into_iter().map(|k| k.0).collect();
            with_sys!(plan(&prop).unwrap().sys, worker, &job, w, n, Path::new(&a[8]), &known);
            0
        }
        Some("survey") => {
            // development aid: every oracle's complaints over many seeds, on stderr
            let (from, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            for i in from..from + n {
                let prop = a.get(4).map_or("*", |s| s.as_str());
                let fuzz = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(0);
                with_sys!(a[1].as_str(), survey, prop, run_seed(7, prop, i), fuzz);
            }
            0
        }
        Some("minimise") => {
            let sys = system_of(Path::new(&a[1]));
            with_sys!(sys.as_str(), minimise_file, Path::new(&a[1]), Path::new(&a[2]))
        }
        Some("replay") => {
            let sys = system_of(Path::new(&a[1]));
            with_sys!(sys.as_str(), replay_file, Path::new(&a[1]))
        }
        Some(prop) if plan(prop).is_some() => {
            let pl = plan(prop).unwrap();
            let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
            let tier = opt("--tier").unwrap_or("quick".into());
            let seed = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let deep = tier == "thorough";
            let o = Opts {
                prop: prop.into(),
                workers: opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                runs: opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(if deep { pl.thorough } else { pl.quick }),
                cap_s: opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(if deep { 840 } else { 240 }),
                verif: PathBuf::from(opt("--verif").unwrap_or("/verif".into())),
                evidence: !a.iter().any(|x| x == "--no-evidence"),
                print_log: a.iter().any(|x| x == "--log"),
                tier,
                seed,
            };
            with_sys!(pl.sys, drive, &o)
        }
        _ => {
            eprintln!("usage: hmmcl-sim <property> [--tier quick|thorough] [--seed N] | replay <file>");
            2
        }
    }
}

fn system_of(p: &Path) -> String {
    #[derive(serde::Deserialize)]
    struct H {
        system: String,
    }
    std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str::<H>(&s).ok()).map(|h| h.system).unwrap_or_default()
}
