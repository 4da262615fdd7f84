//! Runs many plans: one forked child per run, several workers, aggregated coverage.
use std::collections::{BTreeMap, HashSet};

use crate::gen;
use crate::plan::Plan;
use crate::run::*;
use crate::sys::{raw, real_now_ns};

pub struct Ctx {
    pub copies: Vec<Copy_>,
}

pub enum Outcome {
    Done(Box<RunResult>),
    /// signal or exit code
    Crash(String),
    Hang,
}

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(libc::SYS_write, fd as u64, b.as_ptr() as u64, b.len() as u64, 0, 0, 0) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

fn read_for(fd: i32, until: u64) -> Option<Vec<u8>> {
    let mut out = vec![];
    loop {
        let now = real_now_ns();
        if now >= until {
            return None;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let ms = ((until - now) / 1_000_000 + 1).min(1000) as i32;
        let r = unsafe { raw(libc::SYS_poll, &mut p as *mut _ as u64, 1, ms as u64, 0, 0, 0) };
        if r <= 0 {
            continue;
        }
        let n = out.len();
        out.resize(n + 65536, 0);
        let r = unsafe { raw(libc::SYS_read, fd as u64, out[n..].as_mut_ptr() as u64, 65536, 0, 0, 0) };
        if r <= 0 {
            out.truncate(n);
            return Some(out);
        }
        out.truncate(n + r as usize);
    }
}

fn fork() -> i32 {
    unsafe { libc::fork() }
}

pub fn exit(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group, code as u64, 0, 0, 0, 0, 0);
    }
    loop {}
}

fn reap(pid: i32) -> i32 {
    let mut st = 0i32;
    unsafe {
        while raw(libc::SYS_wait4, pid as u64, &mut st as *mut _ as u64, 0, 0, 0, 0) == -(libc::EINTR as i64) {}
    }
    st
}

/// Executes the plan in a child.
pub fn execute(ctx: &Ctx, plan: &Plan, trace: bool, secs: u64) -> Outcome {
    let mut fds = [0i32; 2];
    unsafe {
        raw(libc::SYS_pipe2, fds.as_mut_ptr() as u64, libc::O_CLOEXEC as u64, 0, 0, 0, 0);
    }
    let pid = fork();
    if pid == 0 {
        unsafe {
            raw(libc::SYS_close, fds[0] as u64, 0, 0, 0, 0, 0);
            raw(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as u64, libc::SIGKILL as u64, 0, 0, 0, 0);
        }
        crate::interpose::catch_signals();
        if !trace {
            // What the code under test has to say is of no interest.
            unsafe {
                let n = raw(libc::SYS_openat, libc::AT_FDCWD as u64, c"/dev/null".as_ptr() as u64, libc::O_WRONLY as u64, 0, 0, 0);
                raw(libc::SYS_dup3, n as u64, 2, 0, 0, 0, 0);
            }
        }
        let r = run_plan(plan, &ctx.copies, trace);
        write_all(fds[1], &serde_json::to_vec(&r).unwrap());
        exit(0);
    }
    unsafe { raw(libc::SYS_close, fds[1] as u64, 0, 0, 0, 0, 0) };
    let got = read_for(fds[0], real_now_ns() + secs * 1_000_000_000);
    unsafe { raw(libc::SYS_close, fds[0] as u64, 0, 0, 0, 0, 0) };
    match got {
        None => {
            unsafe { raw(libc::SYS_kill, pid as u64, libc::SIGKILL as u64, 0, 0, 0, 0) };
            reap(pid);
            Outcome::Hang
        }
        Some(b) => {
            let st = reap(pid);
            match serde_json::from_slice(&b) {
                Ok(r) => Outcome::Done(Box::new(r)),
                Err(e) => Outcome::Crash(format!("wait status {:#x}, {} bytes of result ({})", st, b.len(), e)),
            }
        }
    }
}

/// As `execute`, with hangs and crashes turned into results.
pub fn run(ctx: &Ctx, plan: &Plan, trace: bool) -> RunResult {
    let mut o = execute(ctx, plan, trace, 30);
    if matches!(o, Outcome::Hang) {
        // The machine may have been busy.
        o = execute(ctx, plan, trace, 120);
    }
    match o {
        Outcome::Done(r) => *r,
        Outcome::Crash(d) => RunResult {
            viols: vec![crate::kern::Viol { class: "crash".into(), detail: d }],
            ..Default::default()
        },
        Outcome::Hang => RunResult {
            viols: vec![crate::kern::Viol {
                class: "hang".into(),
                detail: "the run does not end: a thread spins or waits without a call".into(),
            }],
            ..Default::default()
        },
    }
}

#[derive(Default, Clone)]
pub struct Total {
    pub runs: u64,
    pub ops: u64,
    pub ops_ok: u64,
    pub overlaps: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub inconclusive: u64,
    pub shapes: HashSet<u64>,
    pub profiles: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub kills: u64,
    pub restarts: u64,
    pub switches: u64,
    pub choice_points: u64,
    pub repeated: u64,
    pub other: BTreeMap<String, u64>,
}

#[derive(serde::Serialize, serde::Deserialize)]
pub struct Line {
    pub seed: u64,
    pub profile: String,
    pub r: RunResult,
    pub repeat_ok: Option<bool>,
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = crate::sys::fnv(0xcbf29ce484222325, prop.as_bytes());
    h = crate::sys::mix(h, base);
    crate::sys::mix(h, i) >> 1
}

pub struct Budget {
    pub secs: u64,
    pub max_runs: u64,
    pub workers: u64,
}

/// Explores; calls `found` for every run with violations until it returns true.
pub fn explore(
    ctx: &Ctx,
    prop: &str,
    base: u64,
    b: &Budget,
    plans: &dyn Fn(&str, u64) -> Plan,
    found: &mut dyn FnMut(&Line) -> bool,
) -> Total {
    let t0 = real_now_ns();
    let deadline = t0 + b.secs * 1_000_000_000;
    let mut fds = [0i32; 2];
    unsafe {
        raw(libc::SYS_pipe2, fds.as_mut_ptr() as u64, libc::O_CLOEXEC as u64, 0, 0, 0, 0);
    }
    let mut pids = vec![];
    let mut rfds = vec![];
    unsafe {
        raw(libc::SYS_close, fds[0] as u64, 0, 0, 0, 0, 0);
        raw(libc::SYS_close, fds[1] as u64, 0, 0, 0, 0, 0);
    }
    for w in 0..b.workers {
        let mut fds = [0i32; 2];
        unsafe {
            raw(libc::SYS_pipe2, fds.as_mut_ptr() as u64, libc::O_CLOEXEC as u64, 0, 0, 0, 0);
        }
        let pid = fork();
        if pid == 0 {
            unsafe {
                raw(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as u64, libc::SIGKILL as u64, 0, 0, 0, 0);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(w as usize % 8, &mut set);
                raw(libc::SYS_sched_setaffinity, 0, std::mem::size_of_val(&set) as u64, &set as *const _ as u64, 0, 0, 0);
            }
            let mut i = w;
            while i < b.max_runs && real_now_ns() < deadline {
                let seed = seed_of(base, prop, i);
                let plan = plans(prop, seed);
                let mut r = run(ctx, &plan, false);
                let mut repeat_ok = None;
                if i % 50 < b.workers && i / 50 % 2 == 0 {
                    let r2 = run(ctx, &plan, false);
                    repeat_ok = Some(r2.hash == r.hash && r2.viols == r.viols);
                }
                if r.viols.is_empty() {
                    r.decisions.clear();
                }
                let l = Line { seed, profile: plan.profile.clone(), r, repeat_ok };
                let mut s = serde_json::to_vec(&l).unwrap();
                s.push(b'\n');
                write_all(fds[1], &s);
                i += b.workers;
            }
            exit(0);
        }
        unsafe { raw(libc::SYS_close, fds[1] as u64, 0, 0, 0, 0, 0) };
        pids.push(pid);
        rfds.push((fds[0], Vec::<u8>::new(), true));
    }
    let mut t = Total::default();
    let mut stop = false;
    while rfds.iter().any(|f| f.2) && !stop {
        let mut p: Vec<libc::pollfd> = rfds
            .iter()
            .map(|f| libc::pollfd { fd: if f.2 { f.0 } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { raw(libc::SYS_poll, p.as_mut_ptr() as u64, p.len() as u64, 1000, 0, 0, 0) };
        for (i, pf) in p.iter().enumerate() {
            if pf.revents == 0 {
                continue;
            }
            let f = &mut rfds[i];
            let n = f.1.len();
            f.1.resize(n + 65536, 0);
            let r = unsafe { raw(libc::SYS_read, f.0 as u64, f.1[n..].as_mut_ptr() as u64, 65536, 0, 0, 0) };
            if r <= 0 {
                f.1.truncate(n);
                f.2 = false;
                continue;
            }
            f.1.truncate(n + r as usize);
            while let Some(e) = f.1.iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = f.1.drain(..=e).collect();
                let l: Line = serde_json::from_slice(&line).unwrap();
                add(&mut t, &l);
                if l.repeat_ok == Some(false) {
                    *t.other.entry("not repeatable".into()).or_default() += 1;
                    eprintln!("seed {} is not repeatable", l.seed);
                }
                if !l.r.viols.is_empty() && !stop {
                    stop = found(&l);
                }
            }
        }
    }
    for pid in pids {
        unsafe { raw(libc::SYS_kill, pid as u64, libc::SIGKILL as u64, 0, 0, 0, 0) };
        reap(pid);
    }
    for f in rfds {
        unsafe { raw(libc::SYS_close, f.0 as u64, 0, 0, 0, 0, 0) };
    }
    t
}

fn add(t: &mut Total, l: &Line) {
    let r = &l.r;
    t.runs += 1;
    t.ops += r.ops;
    t.ops_ok += r.ops_ok;
    t.overlaps += r.overlaps;
    t.steps += r.steps;
    t.sim_ns += r.sim_ns;
    t.inconclusive += r.inconclusive as u64;
    if r.overlaps > 0 || !r.stats.faults.is_empty() || l.profile.contains("one ") {
        t.shapes.insert(r.shape);
    }
    *t.profiles.entry(l.profile.clone()).or_default() += 1;
    for (k, n) in &r.stats.faults {
        *t.faults.entry(k.clone()).or_default() += n;
    }
    for (k, n) in &r.stats.probes {
        *t.probes.entry(k.clone()).or_default() += n;
    }
    t.kills += r.stats.kills;
    t.restarts += r.stats.restarts;
    t.switches += r.stats.switches;
    t.choice_points += r.stats.choice_points;
    t.repeated += l.repeat_ok.is_some() as u64;
}

pub fn default_plans(prop: &str, seed: u64) -> Plan {
    gen::plan(prop, seed)
}
