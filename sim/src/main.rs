#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs)]
mod check;
mod explore;
mod fs;
mod gen;
mod interpose;
mod kern;
mod known;
mod lin;
mod oracle;
mod plan;
mod run;
mod sys;

use explore::*;
use plan::Plan;

fn main() {
    std::env::set_var("RUST_LOG", "off");
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).map(|v| v.parse().unwrap()).unwrap_or(d);
    let so = get("--so").unwrap_or("/verif/target/copies/node".into());
    let copies: Vec<String> = (0..14).map(|i| format!("{}{}.so", so, i)).collect();
    let ctx = Ctx { copies: run::load(&copies) };
    let prop = get("--prop").unwrap_or("C01".into());
    match args[1].as_str() {
        "one" => {
            let seed = num("--seed", 1);
            let plan = match get("--plan") {
                Some(f) => serde_json::from_slice::<Plan>(&std::fs::read(f).unwrap()).unwrap(),
                None => gen::plan(&prop, seed),
            };
            let r = explore::run(&ctx, &plan, !args.contains(&"-q".to_string()));
            for l in &r.trace {
                println!("{}", l);
            }
            for l in &r.history {
                println!("{}", l);
            }
            println!("plan {}", serde_json::to_string(&plan).unwrap());
            for v in &r.viols {
                println!("VIOL {}: {}", v.class, v.detail);
            }
            println!(
                "hash {:x} steps {} ops {} ok {} overlaps {} sim {} ms, decisions {} incon {} stats {:?}",
                r.hash, r.steps, r.ops, r.ops_ok, r.overlaps, r.sim_ns / 1_000_000, r.decisions.len(), r.inconclusive, r.stats
            );
        }
        "sweep" => {
            let b = Budget { secs: num("--secs", 20), max_runs: num("--runs", u64::MAX), workers: num("--workers", 8) };
            let mut n = 0;
            let max = num("--max", 20);
            let t = explore(&ctx, &prop, num("--base", 1), &b, &default_plans, &mut |l| {
                println!("seed {} [{}] {:?}", l.seed, l.profile, l.r.viols.iter().map(|v| format!("{}: {}", v.class, v.detail)).collect::<Vec<_>>());
                n += 1;
                n >= max
            });
            println!(
                "{} runs, {} ops, {} overlaps, {} steps, {} inconclusive, {} shapes, sim {} s, {} kills {} restarts, repeated {} {:?}\nprofiles {:?}\nfaults {:?}\nprobes {:?}",
                t.runs, t.ops, t.overlaps, t.steps, t.inconclusive, t.shapes.len(), t.sim_ns / 1_000_000_000, t.kills, t.restarts, t.repeated, t.other, t.profiles, t.faults, t.probes
            );
        }
        "known" => {
            for k in known::all() {
                let r = explore::run(&ctx, &(k.plan)(), true);
                println!("{}", k.name);
                for l in &r.history {
                    println!("{}", l);
                }
                for v in &r.viols {
                    println!("VIOL {} {}: {}", (k.expect)(v), v.class, v.detail);
                }
            }
        }
        "check" => {
            let c = check::Check {
                prop,
                tier: get("--tier").unwrap_or("quick".into()),
                base: num("--base", 1),
                secs: num("--secs", 45),
                workers: num("--workers", 8),
                max_runs: num("--runs", u64::MAX),
                root: get("--root").unwrap_or("/verif".into()),
            };
            let code = c.run(&ctx);
            explore::exit(code);
        }
        "min" => {
            let seed = num("--seed", 1);
            let plan = gen::plan(&prop, seed);
            let r = explore::run(&ctx, &plan, false);
            let c = check::Check {
                prop,
                tier: "quick".into(),
                base: 0,
                secs: 0,
                workers: 1,
                max_runs: 0,
                root: get("--root").unwrap_or("/verif".into()),
            };
            match r.viols.first().map(|v| v.class.clone()) {
                Some(class) => {
                    c.report(&ctx, seed, &plan, r, &class);
                }
                None => println!("no violation"),
            }
        }
        "replay" => {
            let f: check::Replay = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            match check::replay(&ctx, &f) {
                Some(r) => {
                    for h in &f.history {
                        println!("{}", h);
                    }
                    for v in &r.viols {
                        println!("{}: {}", v.class, v.detail);
                    }
                    println!("reproduced exactly (hash {})", f.hash);
                    println!("VIOLATION property={} replay={}", f.property, args[2]);
                    explore::exit(1);
                }
                None => println!("not reproduced: {} on the tree it was found on", f.violation),
            }
        }
        _ => panic!("usage"),
    }
}
