mod cli_run;
mod cli_world;
mod fs;
mod imggen;
mod lib_adapter;
mod lib_world;
mod media;
mod refdec;
mod runner;
mod shared;
mod util;
use runner::*;
use util::*;

fn known(prop: &str) -> Vec<(String, String)> {
    // known-findings.txt: "known: property=<id> match=<text> ;; <description>"
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string("/verif/known-findings.txt") {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} match=", prop)) {
                if let Some((m, d)) = r.split_once(" ;; ") { v.push((m.to_string(), d.to_string())); }
            }
        }
    }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { if std::env::var("VSIM_PANICS").is_ok() { eprintln!("{}", i) } }));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let runs: u64 = std::env::var("VSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(default_runs(&prop, &tier));
            let max_s: u64 = std::env::var("VSIM_MAX_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 240 } else { 3600 });
            let plan = Plan { prop: prop.clone(), tier, seed, runs, max_s, shards: std::env::var("VSIM_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(ncpu().max(2)), work: format!("/tmp/vsim-{}-{}", prop, std::process::id()),
                evidence: format!("/verif/evidence/{}.json", prop), replay_dir: "/verif/replays".into() };
            if prop.starts_with('L') { check(&|_| lib_adapter::LibW::new(), &plan, &known(&prop)) } else { check(&|_| cli_world::CliW::new(), &plan, &known(&prop)) }
        }
        Some("replay") => {
            let j = Json::parse(&std::fs::read_to_string(&a[2]).expect("cannot read replay file")).expect("bad replay file");
            pin(0);
            if j.get("property").unwrap().str().starts_with('L') { replay(&mut lib_adapter::LibW::new(), &j) } else { replay(&mut cli_world::CliW::new(), &j) }
        }
        _ => { eprintln!("usage: vsim check ID | replay FILE"); 2 }
    };
    std::process::exit(code);
}
/// Sized for half a minute (quick) and for half an hour to an hour (thorough) on eight cores.
fn default_runs(prop: &str, tier: &str) -> u64 {
    let q = match prop { "L01" => 10000, "L02" => 40000, "L03" => 10000, "L04" => 8000, "L05" => 16000, "L06" => 14000, "L07" => 40000, "L08" => 16000, "L09" => 2200, "L10" => 1200,
        "C01" => 26000, "C02" => 14000, "C03" => 60000, "C04" => 20000, "C05" => 12000, "C06" => 9000, "C07" => 60000, "C09" => 40000, "C10" => 30000, _ => 36000 };
    if tier == "quick" { q * 11 / 20 } else { q * 40 }
}
