mod diff;
mod gen;
mod mega;
mod model;
mod props;
mod props2;
mod props3;
mod props4;
mod props5;
mod props6;
mod props7;
mod props8;
mod rng;
mod runner;
mod scen;
mod world;
/// The state transition tool of `mega-evme`; the rest of that binary cannot be built offline.
#[cfg(feature = "t8n")]
#[allow(dead_code, unused_imports)]
#[path = "../../work/ws/bin/mega-evme/src/t8n/mod.rs"]
mod t8n;

use runner::*;
use serde_json::{json, Value};
use std::{path::PathBuf, time::{Duration, Instant}};

fn main() {
    // interpreters recurse through native frames in places; give them room
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(real_main).expect("thread");
    std::process::exit(h.join().unwrap_or(101));
}

#[cfg(feature = "t8n")]
fn tool() -> i32 {
    use clap::Parser;
    match t8n::Cmd::parse_from(std::env::args().skip(1)).run() {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{e}");
            1
        }
    }
}
#[cfg(not(feature = "t8n"))]
fn tool() -> i32 {
    eprintln!("built without t8n");
    3
}

fn real_main() -> i32 {
    if std::env::args().nth(1).as_deref() == Some("t8n") {
        return tool();
    }
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = args.get(2).cloned().unwrap_or_default();
    let mut props = props::all();
    props.extend(props2::all());
    props.extend(props3::all());
    props.extend(props4::all());
    props.extend(props5::all());
    props.extend(props6::all());
    props.extend(props7::all());
    props.extend(props8::all());
    let Some(p) = props.iter().find(|p| p.id() == id) else {
        eprintln!("unknown property {id}; known: {:?}", props.iter().map(|p| p.id()).collect::<Vec<_>>());
        return 2;
    };
    let load = |f: &str| -> Value {
        let s = std::fs::read_to_string(f).expect("read");
        let v: Value = serde_json::from_str(&s).expect("json");
        v.get("input").cloned().unwrap_or(v)
    };
    match cmd {
        "check" => {
            let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = args.get(3).cloned().unwrap_or_else(|| "quick".into());
            let jobs = std::env::var("VERIF_JOBS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
            let budget = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            check(p.as_ref(), &CheckArgs { root, tier, seed, jobs, budget })
        }
        "shard" => {
            let n = |i: usize| args[i].parse::<u64>().expect("number");
            let out = p.shard(&ShardArgs {
                seed: n(3),
                shard: n(4),
                cases: n(5),
                current: Some(PathBuf::from(&args[8])),
                deadline: Instant::now() + Duration::from_secs(n(6)),
            });
            std::fs::write(&args[7], serde_json::to_string(&out).expect("json")).expect("write");
            0
        }
        "one" => match p.replay(&load(&args[3])) {
            Ok(_) => 0,
            Err(f) => {
                println!("{}", json!({"sig": f.sig, "detail": f.detail}));
                1
            }
        },
        "replay" => match p.replay(&load(&args[3])) {
            Ok(x) => {
                println!("holds {:?}", x.tags);
                0
            }
            Err(f) => {
                println!("{}: {}", f.sig, f.detail);
                println!("VIOLATION property={id} replay={}", args[3]);
                1
            }
        },
        "shrink" => {
            let v = load(&args[3]);
            if let Err(f) = p.replay(&v) {
                let (s, f) = p.shrink_one(&v, &f.sig, 120);
                println!("{}\n{}: {}", serde_json::to_string_pretty(&s).unwrap(), f.sig, f.detail);
            }
            0
        }
        "hunt" => {
            // development aid: failures of one shard, shrunk
            let out = p.shard(&ShardArgs {
                seed: args[4].parse().expect("seed"),
                shard: 0,
                cases: args[3].parse().expect("n"),
                current: None,
                deadline: Instant::now() + Duration::from_secs(100_000),
            });
            println!("{} cases", out.cases);
            let mut sigs = std::collections::HashSet::new();
            for (v, sig, _) in out.failures {
                if sigs.insert(sig.clone()) {
                    let (s, f) = p.shrink_one(&v, &sig, 20);
                    println!("{}\n=> {}: {}\n", s, f.sig, f.detail);
                }
            }
            0
        }
        "dist" => {
            p.dist(args[3].parse().expect("n"), args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1));
            0
        }
        _ => {
            eprintln!("usage: megafuzz check|replay|shrink|dist PROPERTY ...");
            2
        }
    }
}
