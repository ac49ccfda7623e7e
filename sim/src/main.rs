//! Deterministic simulation of `nondestructive`. See /verif/DESIGN.md.

mod cb;
mod content;
mod damage;
mod disk;
mod engine;
mod model;
mod ops;
mod read;
mod rng;
mod rt;
mod scen;
use ndbelow::seam;
mod spec;
mod storm;
mod world;

use std::path::PathBuf;
use std::time::Duration;

use engine::{Entry, Options};

fn main() {
    rt::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let entries = scen::all();
    let find = |id: Option<&String>| -> Entry {
        match entries.iter().find(|e| Some(e.id) == id.map(String::as_str)) {
            Some(e) => *e,
            None => {
                eprintln!("unknown property {id:?}");
                std::process::exit(2);
            }
        }
    };
    let num = |i: usize| -> u64 { args.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
    let env = |k: &str| std::env::var(k).ok();
    match args.first().map(String::as_str) {
        Some("worker") => engine::worker(find(args.get(1)), num(2), num(3), num(4), num(5)),
        Some("serve") => engine::serve(find(args.get(1))),
        Some("replay") => {
            let path = PathBuf::from(args.get(1).cloned().unwrap_or_default());
            std::process::exit(engine::replay(&entries, &path));
        }
        Some("plan") => {
            let e = find(args.get(1));
            let seed = engine::run_seed(e.id, num(2), num(3));
            println!("{}", (e.plan)(seed));
        }
        Some("run") => {
            let e = find(args.get(1));
            let seed = engine::run_seed(e.id, num(2), num(3));
            let (outcome, ctx) = engine::run_one(e, engine::Input::Seed(seed), true);
            for l in ctx.log.iter().flatten() {
                println!("{l}");
            }
            println!("{:?} nontrivial {}", ctx.stats, ctx.nontrivial);
            match outcome {
                engine::Outcome::Held => println!("held"),
                engine::Outcome::Violation { class, detail } => println!("{class}: {detail}"),
                engine::Outcome::Harness(m) => println!("harness: {m}"),
            }
        }
        Some("check") => {
            let e = find(args.get(1));
            let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
            let cores = std::thread::available_parallelism().map_or(4, usize::from) as u64;
            let o = Options {
                seed: env("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
                thorough,
                workers: env("NDSIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(cores),
                root: engine::root(),
                runs: env("NDSIM_RUNS").and_then(|s| s.parse().ok()),
                deadline: Duration::from_secs(if thorough { 3 * 3600 } else { 420 }),
            };
            std::process::exit(engine::check(e, &o));
        }
        Some("list") => {
            for e in &entries {
                println!("{}", e.id);
            }
        }
        _ => {
            eprintln!("usage: ndsim check|run|plan|replay ...");
            std::process::exit(2);
        }
    }
}
