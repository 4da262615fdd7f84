//! The simulated machine: threads that run one at a time under a seeded scheduler, simulated
//! clocks, processes that can be killed, fault injection, and the record of what happened.
use std::cell::Cell;
use std::collections::BTreeMap;

use proto::{Op, Ret, Vid};
use serde::{Deserialize, Serialize};

use crate::fs::*;
use crate::sys::*;

pub const NONE: u32 = u32::MAX;
/// Wall clock at simulated time zero, in nanoseconds since 1970.
pub const WALL0: i64 = 1_700_000_000_123_456_789;

thread_local! {
    pub static TID: Cell<u32> = const { Cell::new(NONE) };
    pub static IN: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Sys {
    Open,
    Create,
    Close,
    Read,
    Write,
    Seek,
    Stat,
    Trunc,
    Punch,
    Clone,
    /// acquiring a lock, blocking or not
    Lock,
    Unlock,
    GetLk,
    Unlink,
    Mkdir,
    Rmdir,
    Rename,
    ReadDir,
    Mmap,
    Sync,
    Futex,
    /// possum's own mutexes (the guarded hook)
    Mutex,
    /// SQLite's mutexes
    PMutex,
    Sleep,
    Spawn,
    Rand,
    Clock,
    /// the harness: between operations, in source streams, in views
    Harness,
    Invoke,
    Return,
    Misc,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Errno(i32),
    /// only part of the bytes (per mille) are transferred
    Short(u32),
    /// part of the bytes are written, then the process dies
    Torn(u32),
    KillBefore,
    KillAfter,
    /// this thread does not run for so many microseconds
    Stall(u64),
    /// the wall clock jumps by so many milliseconds
    Wall(i64),
}

impl What {
    pub fn kind(&self) -> String {
        match self {
            What::Errno(e) => format!("errno_{}", errno_name(*e)),
            What::Short(_) => "short_transfer".into(),
            What::Torn(_) => "kill_torn_write".into(),
            What::KillBefore => "kill_before_call".into(),
            What::KillAfter => "kill_after_call".into(),
            What::Stall(_) => "stall".into(),
            What::Wall(d) if *d < 0 => "clock_jump_back".into(),
            What::Wall(_) => "clock_jump_forward".into(),
        }
    }
    pub fn is_io(&self) -> bool {
        matches!(self, What::Errno(_) | What::Short(_))
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EMFILE => "EMFILE",
        libc::ENOLCK => "ENOLCK",
        libc::ENOMEM => "ENOMEM",
        libc::EOPNOTSUPP => "EOPNOTSUPP",
        libc::EXDEV => "EXDEV",
        libc::EDQUOT => "EDQUOT",
        libc::EACCES => "EACCES",
        libc::EINVAL => "EINVAL",
        _ => "other",
    }
}

/// Fires on the nth (from 0) matching call, and on the `times`-1 matching calls after it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rule {
    pub what: What,
    pub sys: Sys,
    pub file: Option<FClass>,
    /// process of the plan
    pub proc: Option<u32>,
    /// only background threads (true), only client threads (false)
    pub bg: Option<bool>,
    pub nth: u32,
    pub times: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Strat {
    /// at every point, switch with this probability (per mille)
    Walk(u32),
    /// random priorities with this many change points over about so many steps
    Pct(u32, u32),
    /// the recorded deviations from the default
    Replay,
}

pub enum Inj {
    Errno(i32),
    Short(u32),
    Torn(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    Never,
    Sleep,
    Lock(u64),
    Futex(usize),
    PMutex(usize),
    Join(u32),
    Ready(usize),
    Turn,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    Runnable,
    Blocked(Key, Option<u64>),
    Done,
    Frozen,
}

pub struct Th {
    pub gate: &'static Gate,
    pub state: State,
    pub proc: usize,
    pub fg: bool,
    pub name: String,
    pub pt: libc::pthread_t,
    pub vid: Vid,
    pub client: Option<u32>,
    pub prio: u64,
    /// set when a wait ended because its key was woken (not its deadline)
    pub woken: bool,
    pub faults: u32,
    pub kill_after: bool,
}

pub struct Proc {
    pub plan: u32,
    pub copy: usize,
    pub pid: i32,
    pub alive: bool,
    pub ready: bool,
    /// the process ended by itself (its clients finished and it was told to exit)
    pub exited: bool,
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub client: u32,
    pub proc: usize,
    pub idx: usize,
    pub op: Op,
    pub inv: u64,
    pub ret: Option<u64>,
    pub inv_wall: i64,
    pub ret_wall: i64,
    pub inv_now: u64,
    pub ret_now: u64,
    pub r: Option<Ret>,
    /// faults injected into this operation's own thread
    pub faults: u32,
    /// faults injected anywhere while it ran
    pub faults_any: u64,
    pub jumps: u64,
    pub killed: bool,
    pub kill_seq: u64,
    pub phase: u32,
    pub limit: Option<u64>,
    pub tid: u32,
    /// regions: size and data of the file at the call and at the return
    pub layout: Vec<Option<(u64, Vec<(u64, u64)>)>>,
}

#[derive(Clone, Debug)]
pub struct Ext {
    pub vid: Vid,
    pub ino: u64,
    pub off: u64,
    pub len: u64,
    pub proc: usize,
}

pub struct Cl {
    pub handle: u8,
    pub ops: Vec<Op>,
    pub next: usize,
    pub cur: Option<usize>,
    pub buf: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reason {
    AllDone,
    Deadlock,
    StepLimit,
    Killed(usize),
    Fail,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub calls: u64,
    pub switches: u64,
    pub choice_points: u64,
    pub kills: u64,
    pub restarts: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

pub struct Sim {
    pub now: u64,
    pub wall_off: i64,
    pub wall_jumps: u64,
    pub tick: u64,
    pub threads: Vec<Th>,
    pub cur: u32,
    pub procs: Vec<Proc>,
    pub fs: Fs,
    pub rng: Rng,
    pub rng_os: Rng,
    pub strat: Strat,
    pub pct_changes: Vec<u64>,
    pub low_prio: u64,
    pub decisions: Vec<(u64, u32)>,
    pub replay: BTreeMap<u64, u32>,
    pub steps: u64,
    pub max_steps: u64,
    pub rules: Vec<(Rule, u32, u32)>,
    pub armed: bool,
    pub faults_total: u64,
    pub db_open_faults: u64,
    pub hash: u64,
    pub shape: u64,
    pub stats: Stats,
    pub viol: Option<Viol>,
    pub ctl: &'static Gate,
    pub reason: Option<Reason>,
    pub seq: u64,
    pub hist: Vec<Hist>,
    pub clients: Vec<Cl>,
    pub exts: Vec<Ext>,
    pub turns: bool,
    pub active: u32,
    pub phase: u32,
    pub trace: Option<Vec<String>>,
    pub want_trace: bool,
    pub open_rets: Vec<(usize, Ret)>,
    pub dirstreams: BTreeMap<usize, Box<DirStream>>,
    pub next_dir: usize,
    pub stall_total: u64,
    pub limit: Option<u64>,
    pub escapes: u64,
    pub panics: Vec<String>,
    /// allocated regions of the storage files after the settling time
    #[allow(clippy::type_complexity)]
    pub alloc: Option<Vec<(Vec<u8>, u64, Vec<(u64, u64)>)>>,
    /// and after the tool punched what was missing
    pub alloc_punched: Option<Vec<(Vec<u8>, u64, Vec<(u64, u64)>)>>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();

pub fn install(s: Sim) -> &'static mut Sim {
    unsafe {
        SIM = Box::into_raw(Box::new(s));
        &mut *SIM
    }
}

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

pub fn is_sim_thread() -> bool {
    TID.with(|t| t.get()) != NONE && IN.with(|i| i.get()) == 0
}

pub struct Guard;

pub fn enter() -> Option<Guard> {
    if TID.with(|t| t.get()) == NONE {
        return None;
    }
    IN.with(|i| {
        if i.get() != 0 {
            None
        } else {
            i.set(1);
            Some(Guard)
        }
    })
}

impl Drop for Guard {
    fn drop(&mut self) {
        IN.with(|i| i.set(0))
    }
}

impl Sim {
    pub fn new(cfg: FsCfg, seed: u64) -> Sim {
        let mut r = Rng::new(seed);
        Sim {
            now: 1_000_000_000,
            wall_off: 0,
            wall_jumps: 0,
            tick: 10_000,
            threads: vec![],
            cur: NONE,
            procs: vec![],
            fs: Fs::new(cfg),
            rng: r.fork(),
            rng_os: r.fork(),
            strat: Strat::Walk(0),
            pct_changes: vec![],
            low_prio: 1 << 20,
            decisions: vec![],
            replay: BTreeMap::new(),
            steps: 0,
            max_steps: 400_000,
            rules: vec![],
            armed: false,
            faults_total: 0,
            db_open_faults: 0,
            hash: 0,
            shape: 0,
            stats: Stats::default(),
            viol: None,
            ctl: Box::leak(Box::new(Gate::new())),
            reason: None,
            seq: 0,
            hist: vec![],
            clients: vec![],
            exts: vec![],
            turns: false,
            active: 0,
            phase: 0,
            trace: None,
            want_trace: false,
            open_rets: vec![],
            dirstreams: BTreeMap::new(),
            next_dir: 0,
            stall_total: 0,
            limit: None,
            escapes: 0,
            panics: vec![],
            alloc: None,
            alloc_punched: None,
        }
    }

    pub fn wall(&self) -> i64 {
        WALL0 + self.now as i64 + self.wall_off
    }

    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.to_string()).or_default() += 1;
    }

    pub fn th(&mut self) -> &mut Th {
        &mut self.threads[self.cur as usize]
    }

    pub fn tr(&mut self, f: impl FnOnce(&Sim) -> String) {
        if self.trace.is_some() {
            let t = if self.cur == NONE { "-".to_string() } else { format!("{}", self.cur) };
            let p = if self.cur == NONE { 0 } else { self.threads[self.cur as usize].proc };
            let line = format!("{:>12} p{} t{} {}", self.now / 1000, p, t, f(self));
            self.trace.as_mut().unwrap().push(line);
        }
    }

    // --- scheduling

    fn runnable(&self) -> Vec<u32> {
        (0..self.threads.len() as u32)
            .filter(|t| self.threads[*t as usize].state == State::Runnable)
            .collect()
    }

    fn fire_timers(&mut self) {
        let now = self.now;
        for t in &mut self.threads {
            if let State::Blocked(_, Some(d)) = t.state {
                if d <= now {
                    t.state = State::Runnable;
                    t.woken = false;
                }
            }
        }
    }

    /// Who runs next. None: nobody can.
    fn choose(&mut self) -> Option<u32> {
        self.fire_timers();
        let mut r = self.runnable();
        if r.is_empty() {
            let next = self
                .threads
                .iter()
                .filter_map(|t| match t.state {
                    State::Blocked(_, Some(d)) => Some(d),
                    _ => None,
                })
                .min()?;
            self.now = next;
            self.fire_timers();
            r = self.runnable();
        }
        let default = if r.contains(&self.cur) { self.cur } else { r[0] };
        if r.len() == 1 {
            return Some(r[0]);
        }
        let cp = self.stats.choice_points;
        self.stats.choice_points += 1;
        let pick = match self.strat {
            Strat::Replay => match self.replay.get(&cp) {
                Some(t) if r.contains(t) => *t,
                _ => default,
            },
            Strat::Walk(p) => {
                if r.contains(&self.cur) && self.rng.below(1000) >= p as u64 {
                    self.cur
                } else {
                    *self.rng.pick(&r)
                }
            }
            Strat::Pct(..) => {
                if self.pct_changes.contains(&cp) && r.contains(&self.cur) {
                    self.low_prio -= 1;
                    let lp = self.low_prio;
                    self.th().prio = lp;
                }
                *r.iter().max_by_key(|t| self.threads[**t as usize].prio).unwrap()
            }
        };
        if pick != default {
            self.decisions.push((cp, pick));
        }
        Some(pick)
    }

    fn to_ctl(&mut self, reason: Reason) {
        self.reason = Some(reason);
        self.ctl.open();
    }

    /// Lets the scheduler decide. The calling thread waits until it is chosen again; if it is done
    /// it does not wait. Nothing of the simulator may be touched once another gate is open.
    fn resched(&mut self, me: u32) {
        let wait = if me == NONE || self.threads[me as usize].state == State::Done {
            None
        } else {
            Some(self.threads[me as usize].gate)
        };
        if self.reason.is_none() {
            if !self.threads.iter().any(|t| t.fg && !matches!(t.state, State::Done | State::Frozen)) {
                self.to_ctl(Reason::AllDone);
            } else if self.steps > self.max_steps {
                self.to_ctl(Reason::StepLimit);
            } else {
                match self.choose() {
                    None => self.to_ctl(Reason::Deadlock),
                    Some(n) if n == me => {
                        self.cur = n;
                        return;
                    }
                    Some(n) => {
                        self.stats.switches += 1;
                        self.cur = n;
                        self.threads[n as usize].gate.open();
                    }
                }
            }
        } else {
            self.ctl.open();
        }
        if let Some(g) = wait {
            g.pass();
        }
    }

    pub fn hand_over(&mut self, me: u32) {
        self.resched(me);
    }

    /// Run simulated threads until something needs the controller.
    pub fn run(&mut self) -> Reason {
        self.reason = None;
        let g = self.ctl;
        self.cur = NONE;
        self.resched(NONE);
        g.pass();
        let r = self.reason.clone().unwrap();
        self.cur = NONE;
        r
    }

    pub fn yield_point(&mut self) {
        let me = self.cur;
        self.resched(me);
    }

    /// Blocks until the key is woken (true) or the deadline has passed (false).
    pub fn block(&mut self, key: Key, deadline: Option<u64>) -> bool {
        let me = self.cur;
        self.threads[me as usize].woken = false;
        self.threads[me as usize].state = State::Blocked(key, deadline);
        self.resched(me);
        self.threads[me as usize].woken
    }

    pub fn wake(&mut self, key: Key, max: usize) -> usize {
        let mut n = 0;
        for t in &mut self.threads {
            if n == max {
                break;
            }
            if matches!(t.state, State::Blocked(k, _) if k == key) {
                t.state = State::Runnable;
                t.woken = true;
                n += 1;
            }
        }
        n
    }

    pub fn wake_locks(&mut self) {
        let w = std::mem::take(&mut self.fs.woken);
        for ino in w {
            self.wake(Key::Lock(ino), usize::MAX);
        }
    }

    pub fn fail(&mut self, class: &str, detail: String) {
        self.tr(|_| format!("VIOLATION {}: {}", class, detail));
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.into(), detail });
        }
    }

    /// A violation that ends the run here. Does not return.
    pub fn fatal(&mut self, class: &str, detail: String) -> ! {
        self.fail(class, detail);
        self.stop_here(Reason::Fail)
    }

    fn stop_here(&mut self, reason: Reason) -> ! {
        let g = self.threads[self.cur as usize].gate;
        self.to_ctl(reason);
        loop {
            g.pass();
        }
    }

    pub fn kill_proc(&mut self, p: usize) {
        self.tr(|_| format!("KILL process {}", p));
        self.stats.kills += 1;
        self.procs[p].alive = false;
        let mut active = 0;
        self.seq += 1;
        let seq = self.seq;
        for t in &mut self.threads {
            if t.proc == p && t.state != State::Done {
                t.state = State::Frozen;
                if let Some(c) = t.client {
                    if let Some(h) = self.clients[c as usize].cur.take() {
                        self.hist[h].killed = true;
                        self.hist[h].kill_seq = seq;
                        active += 1;
                    }
                }
            }
        }
        self.active -= active;
        self.fs.kill_proc(p);
        self.wake_locks();
        self.wake(Key::Turn, usize::MAX);
    }

    /// The current thread's process dies. Does not return.
    pub fn die(&mut self) -> ! {
        let p = self.th().proc;
        self.kill_proc(p);
        self.stop_here(Reason::Killed(p))
    }

    // --- calls

    /// Every intercepted call starts here.
    pub fn call(&mut self, sys: Sys, file: FClass, arg: u64) -> Option<Inj> {
        self.steps += 1;
        self.stats.calls += 1;
        self.now += self.tick;
        let me = self.cur as usize;
        let (proc, fg) = (self.threads[me].proc, self.threads[me].fg);
        self.tr(|_| format!("{:?} {:?} {}", sys, file, arg));
        self.hash = mix(self.hash, (me as u64) << 48 ^ (sys as u64) << 40 ^ (file as u64) << 32 ^ arg);
        self.hash = mix(self.hash, self.now);
        self.shape = mix(self.shape, (me as u64) << 16 ^ (sys as u64) << 8 ^ file as u64);
        let mut inj = None;
        if self.armed {
            let plan = self.procs[proc].plan;
            let mut fire = vec![];
            for (r, seen, fired) in &mut self.rules {
                if r.sys != sys
                    || r.file.is_some_and(|f| f != file)
                    || r.proc.is_some_and(|p| p != plan)
                    || r.bg.is_some_and(|b| b == fg)
                {
                    continue;
                }
                let k = *seen;
                *seen += 1;
                if k >= r.nth && *fired < r.times {
                    *fired += 1;
                    fire.push(r.what.clone());
                }
            }
            for w in fire {
                let name = format!("{} on {:?} {:?}", w.kind(), sys, file);
                self.tr(|_| format!("FAULT {}", name));
                *self.stats.faults.entry(name).or_default() += 1;
                match w {
                    What::Errno(e) => inj = Some(Inj::Errno(e)),
                    What::Short(p) => inj = Some(Inj::Short(p)),
                    What::Torn(p) => inj = Some(Inj::Torn(p)),
                    What::KillBefore => self.die(),
                    What::KillAfter => self.threads[me].kill_after = true,
                    What::Stall(us) => {
                        self.stall_total += us;
                        let d = self.now + us * 1000;
                        self.block(Key::Sleep, Some(d));
                        self.tr(|_| "resumes".to_string());
                    }
                    What::Wall(ms) => {
                        self.wall_off += ms * 1_000_000;
                        self.wall_jumps += 1;
                    }
                }
                if matches!(inj, Some(Inj::Errno(_)) | Some(Inj::Short(_))) {
                    self.threads[me].faults += 1;
                    self.faults_total += 1;
                    if matches!(sys, Sys::Open | Sys::Create) && matches!(file, FClass::Db | FClass::Wal | FClass::Shm) {
                        self.db_open_faults += 1;
                    }
                }
            }
        }
        self.yield_point();
        inj
    }

    /// ... and ends here.
    pub fn done(&mut self, result: i64) {
        self.hash = mix(self.hash, result as u64);
        self.tr(|_| format!("  = {}", result));
        self.wake_locks();
        if self.threads[self.cur as usize].kill_after {
            self.die();
        }
    }

    pub fn note_write(&mut self, ino: u64, off: u64, len: u64) {
        let (vid, proc) = (self.th().vid, self.th().proc);
        if let Some(e) = self.exts.last_mut() {
            if e.vid == vid && e.ino == ino && e.off + e.len == off {
                e.len += len;
                return;
            }
        }
        self.exts.push(Ext { vid, ino, off, len, proc });
    }

    pub fn note_truncated(&mut self, ino: u64, n: u64) {
        if self.fs.inodes[&ino].class == FClass::Values {
            self.probe("values file truncated");
            self.tr(|_| format!("  truncated ino {} to {}", ino, n));
        }
    }

    pub fn note_punched(&mut self, ino: u64, off: u64, len: u64) {
        if self.fs.inodes[&ino].class == FClass::Values {
            self.probe("hole punched");
            self.tr(|_| format!("  punched ino {} at {} len {}", ino, off, len));
        }
    }

    pub fn unlink(&mut self, path: &[u8]) -> Result<i64, i32> {
        let c = self.fs.lookup(path).map(|i| self.fs.inodes[&i].class);
        let ino = self.fs.unlink(path)?;
        match c {
            Ok(FClass::Values) => self.probe("values file removed"),
            Ok(FClass::Snap) => {
                self.probe("snapshot file removed");
                let me = self.th().proc;
                let user = self.fs.shared_lock_of_other(ino, me);
                if let Some(p) = user {
                    let name = String::from_utf8_lossy(path).into_owned();
                    self.fail("inuse", format!("process {} removed snapshot file {} while process {} has it locked for reading", me, name, p));
                }
            }
            _ => {}
        }
        self.tr(|_| format!("  unlinked ino {}", ino));
        Ok(0)
    }

    pub fn panicked(&mut self, t: String) {
        let bg = !self.th().fg;
        let t = format!("{}{}", if bg { "background thread: " } else { "" }, t);
        self.tr(|_| format!("PANIC {}", t));
        self.panics.push(t);
    }

    // --- threads

    pub fn add_thread(&mut self, proc: usize, fg: bool, name: String) -> u32 {
        let prio = (1 << 32) + (self.rng.next() >> 33);
        self.threads.push(Th {
            gate: Box::leak(Box::new(Gate::new())),
            state: State::Runnable,
            proc,
            fg,
            name,
            pt: 0,
            vid: u32::MAX,
            client: None,
            prio,
            woken: false,
            faults: 0,
            kill_after: false,
        });
        self.threads.len() as u32 - 1
    }

    // --- operations

    pub fn next_op(&mut self, client: u32) -> Option<(*const u8, usize)> {
        self.call(Sys::Harness, FClass::Other, 0);
        let c = client as usize;
        if self.clients[c].next >= self.clients[c].ops.len() {
            return None;
        }
        if self.turns {
            while self.active > 0 {
                self.block(Key::Turn, None);
                self.yield_point();
            }
        }
        self.active += 1;
        let idx = self.clients[c].next;
        let op = self.clients[c].ops[idx].clone();
        self.clients[c].next += 1;
        self.clients[c].cur = Some(self.hist.len());
        self.seq += 1;
        let tid = self.cur;
        self.th().client = Some(client);
        self.th().faults = 0;
        let proc = self.th().proc;
        let (inv, inv_wall, inv_now, jumps) = (self.seq, self.wall(), self.now, self.wall_jumps);
        let (phase, faults_any, limit) = (self.phase, self.faults_total, self.limit);
        self.tr(|_| format!("INVOKE c{} #{} {:?}", client, idx, op));
        self.hash = mix(self.hash, inv);
        let layout = self.layout_of(&op);
        self.clients[c].buf = serde_json::to_vec(&op).unwrap();
        self.hist.push(Hist {
            client,
            proc,
            idx,
            op,
            inv,
            ret: None,
            inv_wall,
            ret_wall: 0,
            inv_now,
            ret_now: 0,
            r: None,
            faults: 0,
            faults_any,
            jumps,
            killed: false,
            kill_seq: 0,
            phase,
            limit,
            tid,
            layout,
        });
        self.call(Sys::Invoke, FClass::Other, idx as u64);
        let b = &self.clients[c].buf;
        Some((b.as_ptr(), b.len()))
    }

    #[allow(clippy::type_complexity)]
    fn layout_of(&self, op: &Op) -> Vec<Option<(u64, Vec<(u64, u64)>)>> {
        let Op::Regions { file: Some(n), .. } = op else { return vec![] };
        let get = || {
            let ino = self.fs.lookup(format!("/simfs/src/sparse-{}", n).as_bytes()).ok()?;
            let mem = self.fs.mem(ino).ok()?;
            Some((m_size(mem), m_data(mem)))
        };
        vec![get()]
    }

    pub fn op_ret(&mut self, client: u32, ret: Ret) {
        let c = client as usize;
        self.call(Sys::Return, FClass::Other, 0);
        let h = self.clients[c].cur.take().unwrap();
        self.seq += 1;
        self.active -= 1;
        let (seq, wall, now, ft, wj) =
            (self.seq, self.wall(), self.now, self.faults_total, self.wall_jumps);
        let faults = self.th().faults;
        self.th().vid = u32::MAX;
        self.tr(|_| format!("RETURN c{} {}", client, short(&ret)));
        self.hash = mix(self.hash, fnv(0xcbf29ce484222325, &serde_json::to_vec(&ret).unwrap()));
        let layout = self.layout_of(&self.hist[h].op);
        if ret.err.is_none() {
            match &self.hist[h].op {
                Op::Huge { .. } => self.probe("value of more than 4 GiB"),
                Op::Batch { items, .. } if items.len() > 32 => self.probe("batch of more than 32 values"),
                Op::ReadPart { off, .. } if *off > 1 << 31 && !matches!(ret.reads[..], [(_, Some(proto::Obs::Missing))]) => self.probe("read beyond 2 GiB"),
                _ => {}
            }
        }
        let e = &mut self.hist[h];
        e.layout.extend(layout);
        e.ret = Some(seq);
        e.ret_wall = wall;
        e.ret_now = now;
        e.faults = faults;
        e.faults_any = ft - e.faults_any;
        e.jumps = wj - e.jumps;
        e.r = Some(ret);
        self.wake(Key::Turn, usize::MAX);
    }
}

pub fn short(r: &Ret) -> String {
    let mut s = String::new();
    if let Some(e) = &r.err {
        s += &format!("err {:?} ", e);
    }
    for (k, o) in &r.reads {
        s += &format!("{:?}={:?} ", k, o);
    }
    if let Some(l) = &r.list {
        s += &format!("list {:?} ", l);
    }
    if let Some(n) = r.n {
        s += &format!("n={} ", n);
    }
    if let Some(n) = r.stat {
        s += &format!("stat={:?} ", n);
    }
    if !r.part_errs.is_empty() {
        s += &format!("parts {:?} ", r.part_errs);
    }
    if let Some(t) = &r.text {
        s += t;
    }
    if s.is_empty() {
        s = "ok".into();
    }
    s
}
