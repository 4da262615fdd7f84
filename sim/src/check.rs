//! The registered check of one property: search, confirm, minimise, report, write evidence.
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::explore::*;
use crate::kern::Strat;
use crate::known;
use crate::plan::*;
use crate::run::RunResult;
use crate::sys::real_now_ns;

/// Which classes of violations break the property. Those that only some properties speak about are
/// left to them.
pub fn relevant(prop: &str, class: &str) -> bool {
    match class {
        "harness" => false,
        "last_used" => ["C18", "C17", "C08", "C07"].contains(&prop),
        "space" => ["C05", "C06", "C10", "C14", "C04"].contains(&prop),
        "regions" => prop == "C19",
        "holes" => prop == "C21",
        "inuse" => ["C14", "C03"].contains(&prop),
        "leftover" => ["C14", "C16", "C03", "C04"].contains(&prop),
        "limit" | "evict" => ["C07", "C08"].contains(&prop),
        _ => true,
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub found_with_seed: u64,
    pub violation: String,
    pub all_violations: Vec<String>,
    pub hash: String,
    pub steps: u64,
    pub plan: Plan,
    pub history: Vec<String>,
    pub trace: Vec<String>,
}

fn class_of<'a>(prop: &str, r: &'a RunResult) -> Option<&'a str> {
    r.viols.iter().map(|v| v.class.as_str()).find(|c| relevant(prop, c))
}

fn has_class(prop: &str, r: &RunResult, class: &str) -> bool {
    relevant(prop, class) && r.viols.iter().any(|v| v.class == class)
}

/// Candidates with one part of the plan left out, biggest parts first.
fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut with = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        v.push(q);
    };
    if !p.heal.is_empty() {
        with(&|q| q.heal.clear());
        for i in 0..p.heal.len() {
            with(&|q| {
                q.heal.remove(i);
            });
        }
    }
    for i in 0..p.procs.len() {
        for j in 0..p.procs[i].clients.len() {
            with(&|q| {
                q.procs[i].clients.remove(j);
            });
        }
        // A process without clients only opens its handles. It stays, so that others keep their number.
        for j in 0..p.procs[i].clients.len() {
            let n = p.procs[i].clients[j].ops.len();
            if n > 3 {
                with(&|q| q.procs[i].clients[j].ops.truncate(n / 2));
                with(&|q| {
                    q.procs[i].clients[j].ops.drain(..n / 2);
                });
            }
        }
    }
    for i in 0..p.rules.len() {
        with(&|q| {
            q.rules.remove(i);
        });
    }
    if let Some(pr) = &p.prep {
        for j in 0..pr.clients.len() {
            for o in 0..pr.clients[j].ops.len() {
                with(&|q| {
                    q.prep.as_mut().unwrap().clients[j].ops.remove(o);
                });
            }
        }
    }
    for i in 0..p.procs.len() {
        for j in 0..p.procs[i].clients.len() {
            for o in 0..p.procs[i].clients[j].ops.len() {
                with(&|q| {
                    q.procs[i].clients[j].ops.remove(o);
                });
                if let proto::Op::Batch { items, .. } = &p.procs[i].clients[j].ops[o] {
                    if items.len() > 1 {
                        for k in 0..items.len() {
                            with(&|q| {
                                if let proto::Op::Batch { items, .. } = &mut q.procs[i].clients[j].ops[o] {
                                    items.remove(k);
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    for i in 0..p.heal.len() {
        for o in 0..p.heal[i].1.ops.len() {
            with(&|q| {
                q.heal[i].1.ops.remove(o);
            });
        }
    }
    v
}

pub struct Min {
    pub plan: Plan,
    pub r: RunResult,
    pub tried: u64,
}

/// Shrinks the plan, then the schedule. Every step is an actual run with a violation of the same kind.
pub fn minimise(ctx: &Ctx, prop: &str, plan: &Plan, r: RunResult, class: &str, secs: u64) -> Min {
    let t0 = real_now_ns();
    let left = |share: f64| ((real_now_ns() - t0) as f64) < secs as f64 * 1e9 * share;
    let mut m = Min { plan: plan.clone(), r, tried: 0 };
    if m.r.viols.iter().any(|v| v.class == "hang" || v.class == "crash") {
        // Costly to repeat.
        return m;
    }
    // Fewer parts: a smaller plan has another schedule, so some are tried.
    let mut again = true;
    while again && left(0.7) {
        again = false;
        let mut skip = 0;
        loop {
            let c = smaller(&m.plan);
            if skip >= c.len() || !left(0.7) {
                break;
            }
            let n_try = if m.plan.turns { 2 } else { 12 };
            let mut hit = None;
            for t in 0..n_try {
                if !left(0.7) {
                    break;
                }
                let mut q = c[skip].clone();
                if t > 0 {
                    q.seed = crate::sys::mix(plan.seed, t) >> 1;
                }
                if t > 1 {
                    q.strat = [Strat::Walk(30), Strat::Walk(400), Strat::Pct(3, 300), Strat::Walk(150)][(t % 4) as usize].clone();
                }
                let r = run(ctx, &q, false);
                m.tried += 1;
                if has_class(prop, &r, class) {
                    hit = Some((q, r));
                    break;
                }
            }
            match hit {
                Some((q, r)) => {
                    m.plan = q;
                    m.r = r;
                    again = true;
                }
                None => skip += 1,
            }
        }
    }
    // Fewer deviations from the default schedule
    let mut p = m.plan.clone();
    let mut d = m.r.decisions.clone();
    p.decisions = Some(d.clone());
    let r = run(ctx, &p, false);
    m.tried += 1;
    if !has_class(prop, &r, class) {
        return m;
    }
    m.plan = p.clone();
    m.r = r;
    let mut size = d.len().div_ceil(2).max(1);
    while !d.is_empty() && left(1.0) {
        let mut i = 0;
        let mut any = false;
        while i < d.len() && left(1.0) {
            let mut c = d.clone();
            c.drain(i..(i + size).min(d.len()));
            p.decisions = Some(c.clone());
            let r = run(ctx, &p, false);
            m.tried += 1;
            if has_class(prop, &r, class) {
                d = c;
                m.plan = p.clone();
                m.r = r;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        size = (size / 2).max(1);
    }
    m
}

/// Runs a replay file. None: not reproduced exactly.
pub fn replay(ctx: &Ctx, f: &Replay) -> Option<RunResult> {
    let r = run(ctx, &f.plan, false);
    let same = format!("{:016x}", r.hash) == f.hash
        && r.viols.iter().map(|v| format!("{}: {}", v.class, v.detail)).collect::<Vec<_>>() == f.all_violations;
    same.then_some(r)
}

pub struct Check {
    pub prop: String,
    pub tier: String,
    pub base: u64,
    pub secs: u64,
    pub workers: u64,
    pub max_runs: u64,
    pub root: String,
}

fn sim_kind(f: &str) -> &'static str {
    match f {
        _ if f.starts_with("kill_torn") => "process death within a write",
        _ if f.starts_with("kill") => "process death",
        _ if f.starts_with("stall") => "stalled thread",
        _ if f.starts_with("short") => "short transfer",
        _ if f.starts_with("clock") => "wall clock jump",
        _ => "system call error",
    }
}

impl Check {
    pub fn run(&self, ctx: &Ctx) -> i32 {
        let t0 = real_now_ns();
        let mut code = 0;
        let mut notes: Vec<String> = vec![];
        let mut known_seen = vec![];
        let mut nviol = 0;

        // Known findings: the listed input still fails, in the listed way.
        let list = std::fs::read_to_string(format!("{}/known_findings.txt", self.root)).unwrap_or_default();
        for k in known::all().iter().filter(|k| k.prop == self.prop) {
            let listed = list
                .lines()
                .any(|l| l.starts_with("known:") && l.contains(&format!("property={} ", k.prop)) && l.contains(&format!("input={} ", k.name)));
            let p = (k.plan)();
            let r = run(ctx, &p, false);
            let hit = r.viols.iter().any(|v| relevant(&self.prop, &v.class));
            let other = r.viols.iter().find(|v| relevant(&self.prop, &v.class) && !(k.expect)(v));
            if listed && hit && other.is_none() {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
                known_seen.push(k.name.to_string());
            } else if hit {
                let v = other.or(r.viols.iter().find(|v| relevant(&self.prop, &v.class))).unwrap().clone();
                nviol += 1;
                self.report(ctx, p.seed, &p, r, &v.class);
                code = 1;
            }
        }

        let b = Budget { secs: self.secs, max_runs: self.max_runs, workers: self.workers };
        let mut lines: Vec<Line> = vec![];
        let mut harness: Vec<String> = vec![];
        let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
        let prop = self.prop.clone();
        let t = if code == 0 {
            explore(ctx, &prop, self.base, &b, &default_plans, &mut |l| {
                for v in &l.r.viols {
                    if v.class == "harness" {
                        harness.push(format!("seed {}: {}", l.seed, v.detail));
                    } else if !relevant(&prop, &v.class) {
                        *foreign.entry(v.class.clone()).or_default() += 1;
                    }
                }
                if class_of(&prop, &l.r).is_some() {
                    lines.push(Line { seed: l.seed, profile: l.profile.clone(), r: l.r.clone(), repeat_ok: l.repeat_ok });
                }
                // A few to choose from
                lines.len() >= 6 || harness.len() > 20
            })
        } else {
            Total::default()
        };
        let t_explore = (real_now_ns() - t0) as f64 / 1e9;
        if !foreign.is_empty() {
            notes.push(format!("violations of kinds other properties are about: {:?}", foreign));
        }
        // Confirm: the same seed gives the same execution.
        let mut unrepeated = 0;
        lines.sort_by_key(|l| (l.r.viols.iter().any(|v| v.class == "hang"), l.r.steps));
        for l in &lines {
            let plan = default_plans(&prop, l.seed);
            let r = run(ctx, &plan, false);
            if r.hash != l.r.hash || r.viols != l.r.viols {
                unrepeated += 1;
                println!("seed {}: found {:?}, not repeated exactly", l.seed, l.r.viols);
                continue;
            }
            let class = class_of(&prop, &r).unwrap().to_string();
            nviol += 1;
            if self.report(ctx, l.seed, &plan, r, &class) {
                code = 1;
                break;
            }
            unrepeated += 1;
        }
        if code == 0 && (unrepeated > 0 || t.other.contains_key("not repeatable")) {
            eprintln!("executions that are not repeatable: {} {:?}", unrepeated, t.other);
            code = 3;
        }
        if code == 0 && !harness.is_empty() {
            eprintln!("the simulator met what it cannot simulate: {:?}", &harness[..harness.len().min(5)]);
            code = 3;
        }
        if code == 0 && t.runs < 20 {
            eprintln!("only {} runs", t.runs);
            code = 3;
        }
        self.evidence(ctx, &t, t_explore, (real_now_ns() - t0) as f64 / 1e9, nviol, &notes, &known_seen);
        println!(
            "{} {}: {} runs, {} operations, {} distinct interleavings, {} s simulated, {} faults, {} kills, {:.0} s, exit {}",
            self.prop, self.tier, t.runs, t.ops, t.shapes.len(), t.sim_ns / 1_000_000_000,
            t.faults.values().sum::<u64>(), t.kills, (real_now_ns() - t0) as f64 / 1e9, code
        );
        code
    }

    /// Minimises, writes and verifies the replay file, and prints the violation.
    pub fn report(&self, ctx: &Ctx, seed: u64, plan: &Plan, r: RunResult, class: &str) -> bool {
        let secs = if self.tier == "thorough" { 180 } else { 30 };
        let m = minimise(ctx, &self.prop, plan, r, class, secs);
        let traced = run(ctx, &m.plan, true);
        let mut plan = m.plan.clone();
        if plan.decisions.is_none() && !traced.decisions.is_empty() {
            let mut q = plan.clone();
            q.decisions = Some(traced.decisions.clone());
            let r2 = run(ctx, &q, false);
            if r2.hash == traced.hash {
                plan = q;
            }
        }
        let Some(v) = traced.viols.iter().find(|v| v.class == class) else {
            println!("seed {}: the minimised run is not repeated exactly", seed);
            return false;
        };
        let file = Replay {
            property: self.prop.clone(),
            found_with_seed: seed,
            violation: format!("{}: {}", v.class, v.detail),
            all_violations: traced.viols.iter().map(|v| format!("{}: {}", v.class, v.detail)).collect(),
            hash: format!("{:016x}", traced.hash),
            steps: traced.steps,
            plan,
            history: traced.history.clone(),
            trace: traced.trace.clone(),
        };
        if replay(ctx, &file).is_none() {
            println!("seed {}: the replay differs", seed);
            return false;
        }
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, self.prop, seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).unwrap();
        println!("seed {}, {} runs to minimise: {} operations, {} scheduling decisions, {} fault rules", seed, m.tried,
            file.plan.n_ops(), file.plan.decisions.as_ref().map_or(0, |d| d.len()), file.plan.rules.len());
        println!("{}", file.violation);
        for h in &file.history {
            println!("  {}", h);
        }
        println!("VIOLATION property={} replay={}", self.prop, path);
        true
    }

    #[allow(clippy::too_many_arguments)]
    fn evidence(&self, ctx: &Ctx, t: &Total, search_s: f64, wall: f64, nviol: u64, notes: &[String], known: &[String]) {
        let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
        for (k, n) in &t.faults {
            *kinds.entry(sim_kind(k)).or_default() += n;
        }
        // Actual cases: the first runs, written out.
        let mut samples = vec![];
        for i in 0..3 {
            let seed = seed_of(self.base, &self.prop, i);
            let plan = default_plans(&self.prop, seed);
            let r = run(ctx, &plan, true);
            samples.push(serde_json::json!({
                "seed": seed,
                "profile": plan.profile,
                "rules": plan.rules.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>(),
                "steps": r.steps,
                "hash": format!("{:016x}", r.hash),
                "history": r.history,
            }));
        }
        let per_hour = |n: u64| if search_s > 0.0 { (n as f64 * 3600.0 / search_s) as u64 } else { 0 };
        let e = serde_json::json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.base,
            "level": "exploration",
            "coverage": {
                "evaluations": t.runs,
                "distinct_nontrivial": t.shapes.len(),
                "rule": "A run is one simulated execution of a generated plan (processes, handles, clients, operations, fault rules) under one seed. Counted as distinct by the hash of its sequence of (thread, call, kind of file) over the whole execution, non-trivial if operations of different threads overlapped or a fault was injected or (in one-at-a-time profiles) the state after every operation was audited.",
                "samples": samples,
                "seeds_per_hour": per_hour(t.runs),
                "simulated_seconds": t.sim_ns / 1_000_000_000,
                "operations": t.ops,
                "operations_succeeded": t.ops_ok,
                "overlapping_operation_pairs": t.overlaps,
                "system_calls_simulated": t.steps,
                "scheduling_choice_points": t.choice_points,
                "context_switches": t.switches,
                "profiles": t.profiles,
                "fault_kinds": kinds,
                "faults": t.faults,
                "process_kills": t.kills,
                "process_restarts": t.restarts,
                "probes": t.probes,
                "runs_repeated_to_check_determinism": t.repeated,
                "histories_whose_search_was_cut_off": t.inconclusive,
                "known_findings_seen": known,
                "notes": notes,
                "real_components": ["possum-db (the /repo crate, with its C API)", "rusqlite", "SQLite (bundled, WAL)", "Rust std", "memory mappings and file holes (memfd)"],
                "stub_components": ["kernel: file names, descriptors, POSIX/OFD/flock locks, FICLONE, futexes and threads' scheduling, clocks, random numbers, process death"],
            },
            "assumptions": [
                "threads interleave at libc calls and at possum's own mutexes, under sequential consistency",
                "process death keeps every completed write (no power loss)",
                "the simulated kernel behaves like Linux for the calls made",
            ],
            "wall_s": wall,
            "violations": nviol,
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_vec_pretty(&e).unwrap()).unwrap();
    }
}

