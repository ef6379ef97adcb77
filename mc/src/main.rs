mod harness;
mod hier;
mod net;
mod props;
mod seed;
mod shipped;
mod wave;

use harness::*;
use std::path::PathBuf;

fn usage() -> ! {
    println!("usage: mc run <prop> | mc list | mc replay <file>");
    std::process::exit(2);
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn find(id: &str) -> PropDef {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("no check for {}", id);
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        Some("run") if a.len() >= 3 => {
            let t = tier(a.get(3).copied().unwrap_or(&std::env::var("VERIF_TIER").unwrap_or_default()));
            std::process::exit(run(&find(a[2]), t, None));
        }
        Some("replay") if a.len() >= 3 => {
            let txt = std::fs::read_to_string(a[2]).expect("replay file");
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let idx: u64 = get("case=").parse().expect("case");
            std::process::exit(run(&find(&get("property=")), tier(&get("tier=")), Some(idx)));
        }
        Some("worker") if a.len() >= 7 => {
            let mode = if a.len() >= 9 { Some((a[7], a[8].parse().expect("idx"))) } else { None };
            worker(&find(a[2]), tier(a[3]), a[4].parse().expect("shard"), a[5].parse().expect("n"), &PathBuf::from(a[6]), mode);
        }
        _ => usage(),
    }
}
