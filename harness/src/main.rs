mod engine;
mod gad;
mod raw;
mod rec;
mod circ;
mod mini;
mod pcd;
mod props;

use crate::engine::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: harness check|exec|worker|list ...");
        std::process::exit(2)
    };
    if a.len() < 2 {
        usage();
    }
    if a[1] == "list" {
        for p in props::all() {
            println!("{}", p.id());
        }
        return;
    }
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    install_panic_hook();
    simrt::on_fatal(fatal_handler);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a[1].as_str() {
        "check" => {
            let p = find(&a[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            check_mode(&*p, seed, tier(&t))
        }
        "worker" => {
            let p = find(&a[2]);
            worker_mode(
                &*p,
                a[3].parse().unwrap(),
                tier(&a[4]),
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                &PathBuf::from(&a[7]),
                a[8].parse().unwrap(),
            )
        }
        "exec" => exec_mode(&*find(&a[2]), &PathBuf::from(&a[3]), a.get(4).map(PathBuf::from)),
        "shape" => {
            println!("{:?}", mini::run(a[2].parse().unwrap(), 5));
            0
        }
        "gen" => {
            let p = find(&a[2]);
            let c = p.generate(case_seed(a[3].parse().unwrap(), p.id(), a[4].parse().unwrap()), Tier::Quick);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        "fixed" => {
            for c in find(&a[2]).fixed() {
                println!("{c}");
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
