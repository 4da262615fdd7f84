//! Executes one plan: prepares the store, runs the processes under the scheduler with faults,
//! restarts the killed, lets the system heal and settle, and audits the result.
use std::os::raw::c_void;

use proto::*;
use serde::{Deserialize, Serialize};

use crate::fs::*;
use crate::interpose::thread_begin;
use crate::kern::*;
use crate::plan::*;
use crate::sys::*;

pub const STORE: &[u8] = b"/simfs/db";

#[derive(Clone, Copy)]
pub struct Copy_ {
    pub init: unsafe extern "C" fn(*const u8, usize),
    pub open: unsafe extern "C" fn(u8, *const u8, usize) -> i32,
    pub client: unsafe extern "C" fn(*const u8, usize),
}

/// Loads one private copy of the code under test per simulated process.
pub fn load(paths: &[String]) -> Vec<Copy_> {
    paths
        .iter()
        .map(|p| unsafe {
            let c = std::ffi::CString::new(p.as_str()).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                let e = std::ffi::CStr::from_ptr(libc::dlerror());
                eprintln!("dlopen {}: {}", p, e.to_string_lossy());
                std::process::exit(3);
            }
            let s = |n: &std::ffi::CStr| {
                let p = libc::dlsym(h, n.as_ptr());
                assert!(!p.is_null(), "no symbol {:?}", n);
                p
            };
            Copy_ {
                init: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*const u8, usize)>(s(c"node_init")),
                open: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(u8, *const u8, usize) -> i32>(s(c"node_open")),
                client: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*const u8, usize)>(s(c"node_client")),
            }
        })
        .collect()
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub shape: u64,
    pub stats: Stats,
    pub steps: u64,
    pub sim_ns: u64,
    pub ops: u64,
    pub ops_ok: u64,
    pub overlaps: u64,
    pub inconclusive: bool,
    pub decisions: Vec<(u64, u32)>,
    pub trace: Vec<String>,
    pub history: Vec<String>,
}

struct Job {
    f: Box<dyn FnOnce() + Send>,
    tid: u32,
}

extern "C" fn job(p: *mut c_void) -> *mut c_void {
    unsafe {
        let tid = (*(p as *mut Job)).tid;
        thread_begin(tid);
        let j = Box::from_raw(p as *mut Job);
        (j.f)();
    }
    std::ptr::null_mut()
}

/// Starts a harness thread. The caller holds the baton or is the controller.
fn spawn(s: &mut Sim, proc: usize, name: String, f: Box<dyn FnOnce() + Send>) {
    let tid = s.add_thread(proc, true, name);
    let j = Box::into_raw(Box::new(Job { f, tid }));
    unsafe {
        let mut t = 0;
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED);
        libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
        let real: unsafe extern "C" fn(
            *mut libc::pthread_t,
            *const libc::pthread_attr_t,
            extern "C" fn(*mut c_void) -> *mut c_void,
            *mut c_void,
        ) -> i32 = std::mem::transmute(next(b"pthread_create\0"));
        let r = real(&mut t, &attr, job, j as *mut c_void);
        assert!(r == 0, "pthread_create {}", r);
        s.threads[tid as usize].pt = t;
    }
}

#[derive(Clone)]
struct ClientRun {
    id: u32,
    handle: u8,
    capi: bool,
    audit: bool,
}

pub struct Runner<'a> {
    pub plan: &'a Plan,
    copies: &'a [Copy_],
    next_copy: usize,
    /// plan process -> live simulated process
    live: Vec<Option<usize>>,
    clients: Vec<Vec<ClientRun>>,
    pub snap_left: Option<Vec<String>>,
    pub old_inos: Vec<u64>,
    pub killed_any: bool,
    pub main_done: bool,
}

fn client_job(c: Copy_, run: &ClientRun) -> Box<dyn FnOnce() + Send> {
    let spec = serde_json::to_vec(&ClientSpec {
        id: run.id,
        handle: run.handle,
        capi: run.capi,
        audit: run.audit,
    })
    .unwrap();
    Box::new(move || unsafe { (c.client)(spec.as_ptr(), spec.len()) })
}

impl<'a> Runner<'a> {
    pub fn new(plan: &'a Plan, copies: &'a [Copy_]) -> Self {
        Runner {
            plan,
            copies,
            next_copy: 0,
            live: vec![],
            clients: vec![],
            snap_left: None,
            old_inos: vec![],
            killed_any: false,
            main_done: false,
        }
    }

    fn new_proc(&mut self, plan: u32) -> Option<usize> {
        if self.next_copy >= self.copies.len() {
            return None;
        }
        let s = sim();
        let n = s.procs.len();
        s.procs.push(Proc {
            plan,
            copy: self.next_copy,
            pid: 500 + 7 * n as i32,
            alive: true,
            ready: false,
            exited: false,
        });
        self.next_copy += 1;
        Some(n)
    }

    /// A process that opens its handles and then lets its clients run.
    fn start(&mut self, plan: u32, handles: &[HandleSpec], clients: Vec<ClientRun>) -> Option<usize> {
        let p = self.new_proc(plan)?;
        let s = sim();
        let c = self.copies[s.procs[p].copy];
        let specs: Vec<Vec<u8>> = handles.iter().map(|h| serde_json::to_vec(h).unwrap()).collect();
        spawn(
            s,
            p,
            format!("main{}", p),
            Box::new(move || unsafe {
                (c.init)(STORE.as_ptr(), STORE.len());
                for (i, h) in specs.iter().enumerate() {
                    (c.open)(i as u8, h.as_ptr(), h.len());
                }
                let _g = enter();
                let s = sim();
                s.procs[p].ready = true;
                for r in &clients {
                    spawn(s, p, format!("c{}", r.id), client_job(c, r));
                }
            }),
        );
        Some(p)
    }

    fn add_client(&mut self, c: &ClientPlan) -> ClientRun {
        let s = sim();
        s.clients.push(Cl { handle: c.handle, ops: c.ops.clone(), next: 0, cur: None, buf: vec![] });
        ClientRun { id: s.clients.len() as u32 - 1, handle: c.handle, capi: c.capi, audit: c.audit }
    }

    /// Runs until all clients are done. false: a violation ended the run.
    fn settle(&mut self, restart: bool) -> bool {
        let mut restarts = 0;
        loop {
            match sim().run() {
                Reason::AllDone => return sim().viol.is_none(),
                Reason::Fail => return false,
                Reason::Deadlock => {
                    let s = sim();
                    let mut t = String::new();
                    for (i, th) in s.threads.iter().enumerate() {
                        if th.fg && !matches!(th.state, State::Done | State::Frozen) {
                            let op = th
                                .client
                                .and_then(|c| s.clients[c as usize].cur)
                                .map(|h| s.hist[h].op.name())
                                .unwrap_or("-");
                            t += &format!("t{} {} in {} {:?}; ", i, th.name, op, anon(th.state));
                        }
                    }
                    s.fail("deadlock", t);
                    return false;
                }
                Reason::StepLimit => {
                    let n = sim().steps;
                    sim().fail("livelock", format!("no end after {} calls", n));
                    return false;
                }
                Reason::Killed(p) => {
                    self.killed_any = true;
                    let plan = sim().procs[p].plan;
                    if (plan as usize) < self.live.len() {
                        self.live[plan as usize] = None;
                        if restart && restarts < self.plan.restarts {
                            restarts += 1;
                            sim().stats.restarts += 1;
                            let cl = self.clients[plan as usize].clone();
                            let h = self.plan.procs[plan as usize].handles.clone();
                            let p = self.start(plan, &h, cl);
                            self.live[plan as usize] = p;
                        }
                    }
                }
            }
        }
    }

    fn close_all(&mut self) -> bool {
        sim().phase = 3;
        for i in 0..self.live.len() {
            let Some(p) = self.live[i] else { continue };
            for h in 0..self.plan.procs[i].handles.len() {
                let c = ClientPlan {
                    handle: h as u8,
                    capi: self.plan.procs[i].handles[h].capi,
                    audit: false,
                    ops: vec![Op::Close],
                };
                let r = self.add_client(&c);
                let copy = self.copies[sim().procs[p].copy];
                spawn(sim(), p, format!("c{}", r.id), client_job(copy, &r));
            }
        }
        self.settle(false)
    }

    fn audit_proc(&mut self, ops: Vec<Op>) -> bool {
        let c = self.add_client(&ClientPlan { handle: 0, capi: false, audit: false, ops });
        let h = HandleSpec { max: None, no_punch: true, set_limits: false, capi: false };
        if self.start(1000, &[h], vec![c]).is_none() {
            sim().fail("harness", "no copies left".into());
            return false;
        }
        self.settle(false)
    }

    fn exec(&mut self) {
        let plan = self.plan;
        {
            let s = sim();
            s.fs.mkdir(b"/simfs/src").unwrap();
            for (vid, len) in plan.sources() {
                let p = format!("/simfs/src/{}", vid);
                s.fs.put_file(p.as_bytes(), &content(vid, len as usize));
            }
            for (vid, key, len) in plan.cli_sources() {
                let d = format!("/simfs/src/{}.d", vid);
                s.fs.mkdir(d.as_bytes()).unwrap();
                s.fs.put_file(&[d.as_bytes(), b"/", &key.0].concat(), &content(vid, len as usize));
            }
        }
        for op in plan.all_ops() {
            if let Op::Huge { len, .. } = op {
                sim().fs.put_sparse(b"/simfs/src/huge", *len, &huge_data(*len).map(|(at, n)| {
                    let mut b = vec![0; n];
                    fill(HUGE_VID, at as usize, &mut b);
                    (at, b)
                }));
                break;
            }
        }
        // Preparation
        if let Some(prep) = &plan.prep {
            let s = sim();
            s.phase = 0;
            let strat = std::mem::replace(&mut s.strat, quiet(plan));
            let cl: Vec<_> = prep.clients.iter().map(|c| self.add_client(c)).collect();
            let p = self.start(999, &prep.handles, cl).unwrap();
            if !self.settle(false) {
                return;
            }
            if plan.prep_kill {
                sim().kill_proc(p);
                sim().stats.kills -= 1;
                self.killed_any = true;
            } else {
                let mut ops = vec![Op::CloseWait];
                if let Some(v) = plan.old_version {
                    ops.push(Op::MakeOld { version: v });
                }
                for h in 0..prep.handles.len() {
                    let r = self.add_client(&ClientPlan {
                        handle: h as u8,
                        capi: false,
                        audit: false,
                        ops: ops.clone(),
                    });
                    let copy = self.copies[sim().procs[p].copy];
                    spawn(sim(), p, format!("c{}", r.id), client_job(copy, &r));
                }
                if !self.settle(false) {
                    return;
                }
                exit_proc(p);
            }
            self.old_inos =
                sim().fs.files().iter().filter(|f| f.2 == FClass::Values).map(|f| f.1).collect();
            sim().strat = strat;
        }
        // Main part
        {
            let s = sim();
            s.phase = 1;
            s.limit = plan.limit;
            s.turns = plan.turns;
            for p in &plan.procs {
                let cl: Vec<_> = p.clients.iter().map(|c| self.add_client(c)).collect();
                self.clients.push(cl);
            }
            s.armed = true;
            for i in 0..plan.procs.len() {
                let cl = self.clients[i].clone();
                let p = self.start(i as u32, &plan.procs[i].handles, cl);
                self.live.push(p);
            }
        }
        let ok = self.settle(true);
        sim().armed = false;
        self.main_done = true;
        if !ok {
            return;
        }
        // Healing
        if !plan.heal.is_empty() {
            sim().phase = 2;
            for (i, c) in &plan.heal {
                if self.live.get(*i).copied().flatten().is_none() {
                    let h = plan.procs[*i].handles.clone();
                    let p = self.start(*i as u32, &h, vec![]);
                    self.live[*i] = p;
                    if p.is_none() || !self.settle(false) {
                        return;
                    }
                }
                let p = self.live[*i].unwrap();
                let mut c = c.clone();
                // A handle that could not be opened because of a fault opens now.
                c.ops.insert(0, Op::EnsureOpen);
                let r = self.add_client(&c);
                let copy = self.copies[sim().procs[p].copy];
                spawn(sim(), p, format!("c{}", r.id), client_job(copy, &r));
            }
            if !self.settle(false) {
                return;
            }
        }
        sim().strat = quiet(plan);
        sim().turns = false;
        if plan.close_first && !self.close_all() {
            return;
        }
        // Settle
        sim().phase = 3;
        let mut ops = vec![Op::Sleep { ms: 10_000 }, Op::Fsck];
        if plan.holes {
            ops.extend([Op::CliHoles { fragments: true }, Op::CliHoles { fragments: false }]);
        }
        if !self.audit_proc(ops) {
            return;
        }
        sim().alloc = Some(space_now());
        exit_proc(sim().procs.len() - 1);
        if plan.holes {
            if !self.audit_proc(vec![Op::CliPunch, Op::CliHoles { fragments: false }]) {
                return;
            }
            sim().alloc_punched = Some(space_now());
            exit_proc(sim().procs.len() - 1);
        }
        if !plan.close_first && !self.close_all() {
            return;
        }
        if !self.audit_proc(vec![Op::Sleep { ms: 1_000 }, Op::Cleanup, Op::Close]) {
            return;
        }
        self.snap_left = Some(
            sim()
                .fs
                .files()
                .iter()
                .map(|f| String::from_utf8_lossy(&f.0).into_owned())
                .filter(|f| f.starts_with("/simfs/db/"))
                .collect(),
        );
        let mut keys: Vec<K> = vec![];
        for op in plan.all_ops() {
            crate::oracle::keys_of(op, &mut keys);
        }
        keys.sort();
        keys.dedup();
        // A huge value is only read in parts.
        keys.retain(|k| !plan.all_ops().any(|op| matches!(op, Op::Huge { key, .. } if key == k)));
        let ops = vec![
            Op::List { prefix: K::default() },
            Op::Read { keys, list: Some(K::default()), style: Style::View, keep: None, begin: true, pause_ms: 0 },
            Op::Fsck,
        ];
        self.audit_proc(ops);
    }

}

/// The bytes are judged later; here only what is allocated is recorded.
fn space_now() -> Vec<(Vec<u8>, u64, Vec<(u64, u64)>)> {
    let s = sim();
    let mut v = vec![];
    for (path, ino, class) in s.fs.files() {
        if class == FClass::Values && path.starts_with(b"/simfs/db/values-") {
            if let Ok(mem) = s.fs.mem(ino) {
                v.push((path, ino, m_data(mem)));
            }
        }
    }
    v
}

/// The process ends by itself: its descriptors close.
fn exit_proc(p: usize) {
    let s = sim();
    s.procs[p].exited = true;
    s.procs[p].alive = false;
    for t in &mut s.threads {
        if t.proc == p && t.state != State::Done {
            t.state = State::Frozen;
        }
    }
    s.fs.kill_proc(p);
    s.wake_locks();
}

fn quiet(plan: &Plan) -> Strat {
    if plan.decisions.is_some() {
        Strat::Replay
    } else {
        Strat::Walk(0)
    }
}

fn anon(s: State) -> String {
    // Addresses differ between executions.
    match s {
        State::Blocked(Key::Futex(_), d) => format!("waits for a futex until {:?}", d),
        State::Blocked(Key::PMutex(_), d) => format!("waits for a mutex until {:?}", d),
        s => format!("{:?}", s),
    }
}

pub fn run_plan(plan: &Plan, copies: &[Copy_], trace: bool) -> RunResult {
    let mut s = Sim::new(plan.fs.clone(), plan.seed);
    s.tick = plan.tick_ns;
    s.max_steps = plan.max_steps;
    s.fs.dir_order = plan.dir_order;
    s.rules = plan.rules.iter().map(|r| (r.clone(), 0, 0)).collect();
    if let Some(d) = &plan.decisions {
        s.strat = Strat::Replay;
        s.replay = d.iter().copied().collect();
    } else {
        s.strat = plan.strat.clone();
        if let Strat::Pct(d, n) = plan.strat {
            let mut r = Rng::new(plan.seed ^ 0x9c7);
            s.pct_changes = (0..d).map(|_| r.below(n as u64)).collect();
        }
    }
    if trace {
        s.trace = Some(vec![]);
    }
    install(s);
    let mut r = Runner::new(plan, copies);
    r.exec();
    let mut res = RunResult::default();
    crate::oracle::judge(&r, &mut res);
    let s = sim();
    res.hash = s.hash;
    res.shape = s.shape;
    res.stats = s.stats.clone();
    res.steps = s.steps;
    res.sim_ns = s.now;
    res.decisions = s.decisions.clone();
    res.ops = s.hist.len() as u64;
    res.ops_ok = s.hist.iter().filter(|h| h.r.as_ref().is_some_and(|r| r.err.is_none())).count() as u64;
    if trace {
        res.trace = s.trace.take().unwrap();
        for h in &s.hist {
            res.history.push(format!(
                "p{} c{} [{}..{}] {:?} -> {}{}",
                h.proc,
                h.client,
                h.inv,
                h.ret.map(|r| r.to_string()).unwrap_or("?".into()),
                h.op,
                h.r.as_ref().map(short).unwrap_or("-".into()),
                if h.killed { " (killed)" } else { "" }
            ));
        }
    }
    res
}
