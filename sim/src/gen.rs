//! Makes plans: which processes, handles and clients there are, what they do, and what fails when.
//! One profile per property, each with several variants.
use proto::*;

use crate::fs::{CloneMode, FClass, FsCfg};
use crate::kern::{Rule, Strat, Sys, What};
use crate::plan::*;
use crate::sys::Rng;

const MAX_VID: u32 = 99;
/// One byte tells which value it is; healing needs some too.
const MAX_VID_BIG: u32 = 220;

#[derive(Clone, Default)]
pub struct W {
    pub put: u32,
    pub batch: u32,
    pub read: u32,
    pub single: u32,
    pub part: u32,
    pub keep: u32,
    pub snap: u32,
    pub drop_snap: u32,
    pub abandon_read: u32,
    pub delete: u32,
    pub rename: u32,
    pub movep: u32,
    pub delp: u32,
    pub list: u32,
    pub stat: u32,
    pub clone: u32,
    pub cleanup: u32,
    pub sleep: u32,
    pub reopen: u32,
}

#[derive(Clone, Default)]
pub struct BatchW {
    pub put: u32,
    pub abandon: u32,
    pub fail: u32,
    pub clone: u32,
    pub multi: u32,
    pub rename_key: u32,
    pub rename_slot: u32,
    pub pause: u32,
    /// per cent
    pub dropped: u32,
    pub max_items: u64,
}

pub struct G {
    pub r: Rng,
    vid: u32,
    pub keys: Vec<K>,
    pub prefixes: Vec<K>,
    pub w: W,
    pub b: BatchW,
    /// values no longer than this
    pub max_len: u32,
    pub pause_ms: u32,
    /// values that may be renamed have at least one byte
    pub min_len: u32,
    pub bs: u32,
    pub read_all: bool,
    /// sources that cannot be read
    pub missing: bool,
    /// batches of many small values that may still be made
    pub big: u32,
    pub big_run: bool,
}

fn k(s: &[u8]) -> K {
    K::new(s)
}

impl G {
    pub fn new(seed: u64) -> G {
        let mut r = Rng::new(seed ^ 0x5eed_0000_0000);
        let sets: [&[&[u8]]; 5] = [
            &[b"a", b"b", b"c"],
            &[b"a", b"ab", b"abc", b"b"],
            &[b"x", b"x\xff", b"x\xff\xff", b"y", b"\xff", b"\xff\xff"],
            &[b"", b"a", b"a\0", b"aa"],
            &[b"k1", b"k2", b"k3", b"k4", b"k5", b"k6"],
        ];
        let i = r.below(sets.len() as u64) as usize;
        let keys: Vec<K> = sets[i].iter().map(|b| k(b)).collect();
        let prefixes: Vec<K> =
            [&b""[..], b"a", b"ab", b"x", b"x\xff", b"\xff", b"k", b"b", b"y", b"z", b"w/"].iter().map(|b| k(b)).collect();
        let prefixes = prefixes
            .into_iter()
            .filter(|p| p.0 == b"z" || p.0 == b"w/" || keys.iter().any(|k| k.0.starts_with(&p.0)))
            .collect();
        G {
            r,
            vid: 1,
            keys,
            prefixes,
            w: W::default(),
            b: BatchW::default(),
            max_len: 20_000,
            pause_ms: 0,
            min_len: 0,
            bs: 4096,
            read_all: false,
            missing: false,
            big: 0,
            big_run: false,
        }
    }

    fn key(&mut self) -> K {
        self.r.pick(&self.keys.clone()).clone()
    }
    fn prefix(&mut self) -> K {
        self.r.pick(&self.prefixes.clone()).clone()
    }
    fn vids_left(&self) -> u32 {
        (if self.big_run { MAX_VID_BIG } else { MAX_VID }).saturating_sub(self.vid)
    }
    fn next_vid(&mut self) -> Vid {
        self.vid += 1;
        self.vid - 1
    }

    pub fn len(&mut self) -> u32 {
        let bs = self.bs;
        let n = match self.r.below(14) {
            0 => 0,
            1 => 1,
            2 | 3 => self.r.range(2, 300) as u32,
            4 => bs - 1,
            5 => bs,
            6 => bs + 1,
            7 => 2 * bs,
            8 => 2 * bs + self.r.range(0, 2) as u32,
            9 => 3 * bs - 1,
            10 => self.r.range(300, 2 * bs as u64) as u32,
            11 => bs * self.r.range(1, 4) as u32,
            _ => self.r.range(1, self.max_len as u64) as u32,
        };
        n.clamp(self.min_len, self.max_len)
    }

    fn chunks(&mut self) -> u32 {
        *self.r.pick(&[1, 1, 1, 2, 3, 5])
    }

    pub fn style(&mut self) -> Style {
        match self.r.below(8) {
            0..=2 => Style::View,
            3 => Style::ReadAt(4096),
            4 => Style::ReadAt(self.r.range(700, 20_000) as u32),
            5 => Style::Read(0),
            6 => Style::Read(1 + self.r.below(50) as u32),
            _ => Style::Stream,
        }
    }

    fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = self.r.below(t.max(1) as u64) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }

    fn item(&mut self) -> Item {
        let b = self.b.clone();
        let c = self.weighted(&[
            b.put, b.abandon, b.fail, b.clone, b.multi, b.rename_key, b.rename_slot, b.pause,
        ]);
        let c = if self.vids_left() < 8 && matches!(c, 0..=4) { 7 } else { c };
        match c {
            0 => {
                let pause_ms = if self.pause_ms > 0 && self.r.chance(0.3) { self.pause_ms } else { 0 };
                Item::Put { key: self.key(), vid: self.next_vid(), len: self.len(), chunks: self.chunks(), pause_ms }
            }
            1 => Item::Abandon { vid: self.next_vid(), len: self.len().max(1) },
            2 => {
                let len = self.len().max(1);
                Item::Fail {
                    key: self.key(),
                    vid: self.next_vid(),
                    len,
                    bad: self.r.range(1, 9_000) as u32,
                    retry: self.r.chance(0.7),
                }
            }
            3 => {
                let len = self.len();
                Item::Clone { key: self.key(), vid: self.next_vid(), len, pos: self.r.below(len as u64 + 1) as u32 }
            }
            4 => {
                let n = self.r.range(2, 3);
                let vals = (0..n).map(|_| (self.key(), self.next_vid(), self.len())).collect();
                Item::Multi { vals, chunks: self.r.range(1, 3) as u32 }
            }
            5 => Item::RenameKey { from: self.key(), to: self.key() },
            6 => Item::RenameSlot { slot: self.r.below(2) as u8, to: self.key() },
            _ => Item::Pause {
                ms: if self.pause_ms > 0 { self.r.range(0, self.pause_ms as u64) as u32 } else { 0 },
            },
        }
    }

    /// More values than anything that works in chunks would take at once.
    fn big_batch(&mut self, all_keys: bool) -> Op {
        let n = self.r.range(33, 70).max(if all_keys { self.keys.len() as u64 } else { 0 }) as usize;
        let keys = self.keys.clone();
        let items = (0..n)
            .map(|i| {
                let key = if all_keys { keys[i % keys.len()].clone() } else { self.r.pick(&keys).clone() };
                let len = if self.r.chance(0.1) { self.len() } else { self.r.range(1, 200) as u32 };
                Item::Put { key, vid: self.next_vid(), len, chunks: 1, pause_ms: 0 }
            })
            .collect();
        let d = self.b.dropped;
        Op::Batch { items, commit: all_keys || self.r.below(100) >= d as u64 }
    }

    /// Many keys, all written by one batch.
    fn many(&mut self) {
        let n = self.r.range(34, 60);
        self.keys = (0..n).map(|i| k(format!("{}{:02}", if i % 3 == 2 { "ka" } else { "k" }, i).as_bytes())).collect();
        self.prefixes = [&b""[..], b"k", b"ka", b"k1", b"z", b"kb"].iter().map(|b| k(b)).collect();
        self.big = 2;
    }

    pub fn batch(&mut self) -> Op {
        if self.big > 0 && self.vid + 75 < MAX_VID_BIG && self.r.chance(0.3) {
            self.big -= 1;
            return self.big_batch(false);
        }
        let n = self.r.range(1, self.b.max_items.max(1));
        let items = (0..n).map(|_| self.item()).collect();
        let d = self.b.dropped;
        Op::Batch { items, commit: self.r.below(100) >= d as u64 }
    }

    pub fn put(&mut self) -> Op {
        Op::Put { key: self.key(), vid: self.next_vid(), len: self.len(), chunks: self.chunks() }
    }

    fn sparse(&mut self, file: u8, n: u64) -> Op {
        let blocks = 14;
        // File 1 is far longer than 4 GiB.
        let bs = if file == 1 { 1 << 30 } else { 4096 };
        let edits = (0..n)
            .map(|_| {
                let b = self.r.below(blocks);
                let n = self.r.range(1, 3);
                match self.r.below(8) {
                    0..=2 => Edit::Write { off: b * bs, len: n * 4096 },
                    // The last block is not full.
                    3 => Edit::Write { off: b * bs, len: self.r.range(1, 4096) },
                    4..=6 => Edit::Punch { off: b * bs, len: n * bs },
                    _ => Edit::Grow { len: self.r.range(1, (blocks + 3) * bs) },
                }
            })
            .collect();
        Op::Sparse { file, edits }
    }

    fn some_keys(&mut self) -> Vec<K> {
        if self.read_all || self.r.chance(0.3) {
            return self.keys.clone();
        }
        let mut v = self.keys.clone();
        let n = self.r.range(1, v.len() as u64) as usize;
        while v.len() > n {
            let i = self.r.below(v.len() as u64) as usize;
            v.remove(i);
        }
        v
    }

    pub fn read(&mut self, keep: Option<u8>, begin: bool) -> Op {
        let list = if self.r.chance(0.3) { Some(self.prefix()) } else { None };
        let pause_ms = if self.pause_ms > 0 && self.r.chance(0.3) { self.r.below(self.pause_ms as u64) as u32 } else { 0 };
        Op::Read { keys: self.some_keys(), list, style: self.style(), keep, begin, pause_ms }
    }

    pub fn op(&mut self) -> Op {
        let w = self.w.clone();
        let c = self.weighted(&[
            w.put, w.batch, w.read, w.single, w.part, w.keep, w.snap, w.drop_snap, w.abandon_read,
            w.delete, w.rename, w.movep, w.delp, w.list, w.stat, w.clone, w.cleanup, w.sleep, w.reopen,
        ]);
        let c = if self.vids_left() < 8 && matches!(c, 0 | 1 | 15) { 2 } else { c };
        match c {
            0 => self.put(),
            1 => self.batch(),
            2 => self.read(None, true),
            3 => Op::ReadSingle { key: self.key(), style: self.style() },
            4 => Op::ReadPart {
                key: self.key(),
                off: *self.r.pick(&[0, 0, 1, 100, 4095, 4096, 5000]),
                n: *self.r.pick(&[0, 8, 64, 4096, 10_000]),
            },
            5 => {
                let s = self.r.below(2) as u8;
                self.read(Some(s), true)
            }
            6 => Op::SnapRead { slot: self.r.below(2) as u8, style: self.style() },
            7 => Op::SnapDrop { slot: self.r.below(2) as u8 },
            8 => self.read(None, false),
            9 => Op::Delete { key: self.key() },
            10 => Op::Rename { from: self.key(), to: self.key() },
            11 => Op::MovePrefix { from: self.prefix(), to: self.prefix() },
            12 => Op::DeletePrefix { prefix: self.prefix() },
            13 => Op::List { prefix: self.prefix() },
            14 => Op::Stat { key: self.key() },
            15 => {
                let len = self.len();
                let missing = self.missing && self.r.chance(0.2);
                Op::CloneFile { key: self.key(), vid: self.next_vid(), len, pos: self.r.below(len as u64 + 1) as u32, missing }
            }
            16 => Op::Cleanup,
            17 => Op::Sleep { ms: *self.r.pick(&[1, 5, 100, 700, 1_100, 2_500]) },
            _ => Op::Reopen,
        }
    }

    pub fn ops(&mut self, lo: u64, hi: u64) -> Vec<Op> {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| self.op()).collect()
    }

    pub fn strat(&mut self) -> Strat {
        match self.r.below(8) {
            0 => Strat::Pct(2, 1500),
            1 => Strat::Pct(4, 4000),
            2 => Strat::Walk(5),
            3 => Strat::Walk(20),
            4 => Strat::Walk(60),
            5 => Strat::Walk(150),
            6 => Strat::Walk(400),
            _ => Strat::Walk(1000),
        }
    }

    pub fn fs(&mut self) -> FsCfg {
        let clone = match self.r.below(10) {
            0..=5 => CloneMode::Yes,
            6..=8 => CloneMode::No,
            _ => CloneMode::CrossDevice,
        };
        FsCfg { block_size: 4096, clone, flock_mode: false, sqlite_close_race: false, weak_ids: 0 }
    }

    /// Processes with clients that do random operations.
    pub fn procs(&mut self, max_procs: u64, max_clients: u64, ops: (u64, u64), h: &HandleSpec) -> Vec<ProcPlan> {
        let np = self.r.range(1, max_procs);
        let nc = self.r.range(np.max(2), max_clients.max(np.max(2)));
        let mut procs: Vec<ProcPlan> = (0..np)
            .map(|_| {
                let nh = if self.r.chance(0.3) { 2 } else { 1 };
                ProcPlan { handles: vec![h.clone(); nh], clients: vec![] }
            })
            .collect();
        for i in 0..nc {
            let p = if i < np { i as usize } else { self.r.below(np) as usize };
            let handle = self.r.below(procs[p].handles.len() as u64) as u8;
            let ops = self.ops(ops.0, ops.1);
            procs[p].clients.push(ClientPlan { handle, capi: false, audit: false, ops });
        }
        procs
    }

    pub fn prep(&mut self, h: &HandleSpec, n: u64) -> ProcPlan {
        let mut ops = vec![];
        if self.keys.len() > 30 {
            ops.push(self.big_batch(true));
        }
        for _ in 0..n {
            ops.push(self.put());
            if self.r.chance(0.2) {
                ops.push(Op::Delete { key: self.key() });
            }
        }
        ProcPlan {
            handles: vec![h.clone()],
            clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }],
        }
    }

    /// A thread that does not get to run for a while, somewhere.
    pub fn stalls(&mut self, n: u64) -> Vec<Rule> {
        let points = [
            (Sys::Clone, None),
            (Sys::Open, None),
            (Sys::Lock, Some(FClass::Values)),
            (Sys::Lock, Some(FClass::Snap)),
            (Sys::Lock, Some(FClass::Shm)),
            (Sys::Unlock, Some(FClass::Shm)),
            (Sys::Unlock, Some(FClass::Values)),
            (Sys::Trunc, Some(FClass::Values)),
            (Sys::Unlink, None),
            (Sys::Punch, None),
            (Sys::Write, Some(FClass::Values)),
            (Sys::Write, Some(FClass::Wal)),
            (Sys::Create, None),
            (Sys::Harness, None),
            (Sys::Mutex, None),
            (Sys::Return, None),
            (Sys::Mkdir, None),
            (Sys::Rmdir, None),
            (Sys::ReadDir, None),
            (Sys::Seek, Some(FClass::Values)),
            (Sys::Mmap, Some(FClass::Snap)),
        ];
        (0..self.r.below(n + 1))
            .map(|_| {
                let (sys, file) = *self.r.pick(&points);
                Rule {
                    what: What::Stall(*self.r.pick(&[200, 2_000, 20_000, 300_000])),
                    sys,
                    file,
                    proc: None,
                    bg: *self.r.pick(&[None, None, Some(true), Some(false)]),
                    nth: self.r.log(40) as u32,
                    times: *self.r.pick(&[1, 1, 1, 3]),
                }
            })
            .collect()
    }

    pub fn kills(&mut self, procs: u64, n: u64) -> Vec<Rule> {
        let points = [
            (Sys::Write, Some(FClass::Wal), 4),
            (Sys::Write, Some(FClass::Values), 4),
            (Sys::Write, Some(FClass::Db), 2),
            (Sys::Write, Some(FClass::Shm), 1),
            (Sys::Lock, Some(FClass::Shm), 3),
            (Sys::Unlock, Some(FClass::Shm), 3),
            (Sys::Lock, Some(FClass::Values), 2),
            (Sys::Unlock, Some(FClass::Values), 2),
            (Sys::Lock, Some(FClass::Snap), 1),
            (Sys::Unlink, None, 3),
            (Sys::Punch, None, 2),
            (Sys::Trunc, None, 2),
            (Sys::Clone, None, 2),
            (Sys::Create, None, 2),
            (Sys::Open, None, 1),
            (Sys::Mkdir, None, 1),
            (Sys::Rmdir, None, 1),
            (Sys::Mutex, None, 2),
            (Sys::Harness, None, 2),
            (Sys::Invoke, None, 1),
            (Sys::Return, None, 2),
            (Sys::Close, None, 1),
            (Sys::Read, None, 1),
            (Sys::Seek, None, 1),
        ];
        let n = self.r.range(1, n);
        (0..n)
            .map(|_| {
                let w: Vec<u32> = points.iter().map(|p| p.2).collect();
                let (sys, file, _) = points[self.weighted(&w)];
                let what = if sys == Sys::Write && self.r.chance(0.4) {
                    What::Torn(self.r.below(1000) as u32)
                } else if self.r.chance(0.5) {
                    What::KillBefore
                } else {
                    What::KillAfter
                };
                Rule {
                    what,
                    sys,
                    file,
                    proc: Some(self.r.below(procs) as u32),
                    bg: *self.r.pick(&[None, None, None, Some(true), Some(false)]),
                    nth: self.r.log(60) as u32,
                    times: 1,
                }
            })
            .collect()
    }

    pub fn errors(&mut self, n: u64) -> Vec<Rule> {
        use libc::*;
        let io = |e: i32| What::Errno(e);
        let points: Vec<(Sys, Option<FClass>, Vec<What>, u32)> = vec![
            (Sys::Write, Some(FClass::Values), vec![io(ENOSPC), io(EIO), io(EINTR), What::Short(500), What::Short(10), io(EDQUOT)], 6),
            (Sys::Write, Some(FClass::Wal), vec![io(ENOSPC), io(EIO), What::Short(300), io(EINTR)], 4),
            (Sys::Write, Some(FClass::Db), vec![io(ENOSPC), io(EIO), What::Short(300)], 2),
            (Sys::Read, Some(FClass::Db), vec![io(EIO), io(EINTR)], 1),
            (Sys::Read, Some(FClass::Wal), vec![io(EIO), io(EINTR)], 1),
            (Sys::Read, Some(FClass::Values), vec![io(EIO), io(EINTR), What::Short(500)], 2),
            (Sys::Read, Some(FClass::Snap), vec![io(EIO), io(EINTR), What::Short(500)], 2),
            (Sys::Read, Some(FClass::Src), vec![io(EIO), io(EINTR), What::Short(500)], 3),
            (Sys::Open, Some(FClass::Values), vec![io(EMFILE), io(EIO), io(EACCES)], 2),
            (Sys::Open, Some(FClass::Snap), vec![io(EMFILE), io(EIO)], 2),
            (Sys::Open, Some(FClass::Db), vec![io(EMFILE), io(EIO)], 1),
            (Sys::Create, Some(FClass::Values), vec![io(EMFILE), io(ENOSPC), io(EIO)], 3),
            (Sys::Create, Some(FClass::Snap), vec![io(EMFILE), io(ENOSPC)], 3),
            (Sys::Create, Some(FClass::Wal), vec![io(EMFILE), io(ENOSPC)], 1),
            (Sys::Clone, None, vec![io(ENOSPC), io(EIO), io(EOPNOTSUPP), io(EXDEV), io(EINVAL), io(ENOMEM)], 5),
            (Sys::Punch, Some(FClass::Values), vec![io(EIO), io(ENOSPC), io(EINTR)], 3),
            (Sys::Trunc, Some(FClass::Values), vec![io(EIO), io(EINTR)], 2),
            (Sys::Trunc, Some(FClass::Shm), vec![io(ENOSPC)], 1),
            (Sys::Unlink, Some(FClass::Values), vec![io(EIO), io(EACCES)], 2),
            (Sys::Unlink, Some(FClass::Snap), vec![io(EIO)], 1),
            (Sys::Mkdir, None, vec![io(ENOSPC), io(EMFILE), io(EIO)], 3),
            (Sys::Rmdir, None, vec![io(EIO)], 1),
            (Sys::Lock, Some(FClass::Values), vec![io(ENOLCK), io(EIO)], 2),
            (Sys::Lock, Some(FClass::Snap), vec![io(ENOLCK)], 1),
            (Sys::Unlock, Some(FClass::Values), vec![io(ENOLCK)], 1),
            (Sys::Seek, Some(FClass::Values), vec![io(EIO)], 2),
            (Sys::Mmap, Some(FClass::Snap), vec![io(ENOMEM), io(EMFILE)], 2),
            (Sys::Mmap, Some(FClass::Values), vec![io(ENOMEM)], 2),
            (Sys::ReadDir, None, vec![io(EIO)], 1),
        ];
        let w: Vec<u32> = points.iter().map(|p| p.3).collect();
        let n = self.r.range(1, n);
        (0..n)
            .map(|_| {
                let (sys, file, whats, _) = points[self.weighted(&w)].clone();
                Rule {
                    what: self.r.pick(&whats).clone(),
                    sys,
                    file,
                    proc: None,
                    bg: *self.r.pick(&[None, None, None, Some(true), Some(false)]),
                    nth: self.r.log(30) as u32,
                    times: *self.r.pick(&[1, 1, 1, 2, 5, 30]),
                }
            })
            .collect()
    }
}

pub fn handle() -> HandleSpec {
    HandleSpec { max: None, no_punch: false, set_limits: false, capi: false }
}

fn base(prop: &str, seed: u64, g: &mut G) -> Plan {
    Plan {
        prop: prop.into(),
        profile: String::new(),
        seed,
        fs: g.fs(),
        tick_ns: 10_000,
        strat: g.strat(),
        max_steps: 400_000,
        dir_order: g.r.next(),
        prep: None,
        prep_kill: false,
        old_version: None,
        procs: vec![],
        restarts: 2,
        rules: vec![],
        turns: false,
        heal: vec![],
        close_first: g.r.chance(0.4),
        limit: None,
        limit0: None,
        racing_opens: false,
        check_space: true,
        holes: false,
        decisions: None,
    }
}

fn mixed() -> W {
    W { put: 10, batch: 6, read: 8, single: 8, part: 3, delete: 5, rename: 3, movep: 1, delp: 1, list: 4, stat: 3, clone: 2, cleanup: 1, keep: 2, snap: 2, drop_snap: 1, abandon_read: 1, sleep: 2, reopen: 1 }
}

fn mixed_batch() -> BatchW {
    BatchW { put: 8, abandon: 2, fail: 1, clone: 1, multi: 2, rename_key: 2, rename_slot: 1, pause: 2, dropped: 15, max_items: 5 }
}

/// Some clients of some handles use the C interface.
fn some_capi(g: &mut G, p: &mut Plan, share: f64) {
    for pr in &mut p.procs {
        for h in &mut pr.handles {
            h.capi = g.r.chance(share);
        }
        for c in &mut pr.clients {
            c.capi = g.r.chance(share);
        }
    }
}

fn has_renames(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Batch { items, .. } => {
            items.iter().any(|i| matches!(i, Item::RenameKey { .. } | Item::RenameSlot { .. }))
        }
        _ => false,
    })
}

fn heal_all(g: &mut G, p: &mut Plan, ops: (u64, u64)) {
    let w = std::mem::replace(
        &mut g.w,
        W { put: 6, read: 4, single: 4, delete: 2, list: 2, clone: 1, batch: 1, cleanup: 1, stat: 1, ..W::default() },
    );
    let b = std::mem::replace(&mut g.b, BatchW { put: 3, multi: 1, max_items: 3, ..BatchW::default() });
    for i in 0..p.procs.len() {
        for h in 0..p.procs[i].handles.len() {
            let ops = g.ops(ops.0, ops.1);
            p.heal.push((i, ClientPlan { handle: h as u8, capi: false, audit: false, ops }));
        }
    }
    g.w = w;
    g.b = b;
}

/// Operations do not overlap, and the manifest is looked at after each.
fn in_turns(p: &mut Plan) {
    p.turns = true;
    for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
        for c in &mut pr.clients {
            c.audit = true;
        }
    }
    for (_, c) in &mut p.heal {
        c.audit = true;
    }
}

fn set_limit(p: &mut Plan, max: u64) {
    p.limit = Some(max);
    for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
        for h in &mut pr.handles {
            h.max = Some(max);
            h.set_limits = true;
        }
    }
}

/// Snapshots of some of the values that one batch put next to each other, and which are then deleted.
fn neighbours(g: &mut G, p: &mut Plan) {
    p.profile = "neighbours".into();
    if g.r.chance(0.7) {
        p.fs.clone = CloneMode::No;
    }
    let h = handle();
    let n = g.r.range(6, 12);
    g.keys = (0..n).map(|i| k(format!("k{:02}", i).as_bytes())).collect();
    g.prefixes = [&b""[..], b"k", b"k0", b"k1"].iter().map(|b| k(b)).collect();
    let items = (0..n)
        .map(|i| {
            let len = match g.r.below(5) {
                0 | 1 => g.r.range(1, 400),
                2 => g.r.range(2000, 4200),
                3 => g.r.range(4096, 20_000),
                _ => g.len() as u64,
            } as u32;
            let key = g.keys[i as usize].clone();
            Item::Put { key, vid: g.next_vid(), len, chunks: 1, pause_ms: 0 }
        })
        .collect();
    let prep = |ops| ProcPlan {
        handles: vec![h.clone()],
        clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }],
    };
    p.prep = Some(prep(vec![Op::Batch { items, commit: true }]));
    p.prep_kill = false;
    p.procs.clear();
    let mut clients = vec![];
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 2) {
            ops.push(g.read(Some(0), true));
            for _ in 0..g.r.range(1, 3) {
                ops.push(Op::Sleep { ms: *g.r.pick(&[5, 700, 1_100, 2_500]) });
                ops.push(Op::SnapRead { slot: 0, style: g.style() });
            }
            ops.push(Op::SnapDrop { slot: 0 });
        }
        clients.push(ops);
    }
    let mut ops = vec![Op::Sleep { ms: *g.r.pick(&[1, 5, 100]) }];
    for key in g.some_keys() {
        ops.push(match g.r.below(4) {
            0 => Op::Put { key, vid: g.next_vid(), len: g.len(), chunks: 1 },
            _ => Op::Delete { key },
        });
        if g.r.chance(0.2) {
            ops.push(Op::Sleep { ms: *g.r.pick(&[1, 100, 700]) });
        }
    }
    clients.push(ops);
    let same = g.r.chance(0.5);
    for ops in clients {
        let c = ClientPlan { handle: 0, capi: false, audit: false, ops };
        match p.procs.last_mut() {
            Some(pr) if same => pr.clients.push(c),
            _ => p.procs.push(ProcPlan { handles: vec![h.clone()], clients: vec![c] }),
        }
    }
}

/// A process that runs the command line tool now and then.
fn tool(g: &mut G, lo: u64, hi: u64, only_holes: bool) -> ProcPlan {
    let n = g.r.range(lo, hi);
    let mut ops = vec![];
    while (ops.len() as u64) < n {
        ops.push(match g.r.below(if only_holes { 4 } else { 12 }) {
            0 => Op::Sleep { ms: *g.r.pick(&[1, 5, 100, 700, 2_500]) },
            1 => Op::CliHoles { fragments: g.r.chance(0.5) },
            2 | 3 => Op::CliPunch,
            4..=6 => {
                let key = g.key();
                if key.0.is_empty() || key.0.contains(&0) || g.vids_left() < 8 {
                    continue;
                }
                Op::CliPut { key, vid: g.next_vid(), len: g.len() }
            }
            7..=9 => Op::CliRead { key: g.key() },
            _ => Op::CliList { prefix: g.prefix() },
        });
    }
    ProcPlan { handles: vec![], clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }] }
}

/// Each handle gets other limits as it goes. They count from the next write on.
fn change_limit(g: &mut G, p: &mut Plan) {
    p.limit0 = p.limit;
    let mut most = p.limit.unwrap();
    for pr in &mut p.procs {
        for c in &mut pr.clients {
            // Looking up what's to be renamed may drop it already.
            strip_renames(&mut c.ops);
            for _ in 0..g.r.range(0, 2) {
                let max = *g.r.pick(&[0, 100, 4096, 10_000, 20_000, 40_000]);
                most = most.max(max);
                let at = g.r.range(0, c.ops.len() as u64) as usize;
                c.ops.insert(at, Op::SetLimits { max: Some(max), no_punch: false });
            }
        }
    }
    p.limit = Some(most);
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(seed);
    let g = &mut g;
    let mut p = base(prop, seed, g);
    let h = handle();
    g.w = mixed();
    g.b = mixed_batch();
    let mut many = false;
    if matches!(prop, "C01" | "C02" | "C04" | "C07" | "C08" | "C10" | "C12" | "C15" | "C16" | "C17") {
        match g.r.below(if matches!(prop, "C02" | "C12") { 12 } else { 25 }) {
            0 => many = true,
            1 => g.big = 1,
            _ => {}
        }
        if many {
            g.many();
        }
        g.big_run = g.big > 0;
    }
    match prop {
        "C01" => {
            if g.r.chance(0.5) {
                // few keys, many overwrites
                g.keys.truncate(2);
                g.w = W { put: 12, batch: 3, read: 10, single: 12, part: 2, delete: 3, rename: 2, list: 2, stat: 2, clone: 1, reopen: 1, sleep: 1, ..W::default() };
                p.profile = "overwrites".into();
            } else {
                p.profile = "mixed".into();
            }
            p.prep = Some(g.prep(&h, 3));
            p.procs = g.procs(3, 5, (2, 7), &h);
            p.rules = g.stalls(3);
        }
        "C02" => {
            g.read_all = true;
            g.w = W { put: 2, batch: 12, read: 10, list: 3, delete: 2, keep: 3, snap: 2, reopen: 1, single: 2, ..W::default() };
            g.b = BatchW { put: 8, abandon: 3, fail: 2, clone: 1, multi: 3, rename_key: 3, rename_slot: 2, pause: 3, dropped: 25, max_items: 7 };
            p.profile = "batches".into();
            p.prep = Some(g.prep(&h, 3));
            if g.r.chance(0.3) {
                p.profile = "batches, kills".into();
                g.b.rename_key = 0;
                g.b.rename_slot = 0;
                p.procs = g.procs(3, 4, (2, 6), &h);
                p.rules = g.kills(p.procs.len() as u64, 2);
                heal_all(g, &mut p, (1, 2));
            } else if g.r.chance(0.3) {
                p.profile = "batches, errors".into();
                p.procs = g.procs(2, 4, (2, 6), &h);
                p.rules = g.errors(3);
                heal_all(g, &mut p, (1, 2));
            } else {
                p.procs = g.procs(2, 4, (2, 6), &h);
                p.rules = g.stalls(2);
            }
        }
        "C03" => {
            g.w = W { put: 8, batch: 3, read: 2, keep: 10, snap: 12, drop_snap: 2, delete: 6, delp: 1, rename: 2, cleanup: 3, sleep: 3, reopen: 2, clone: 1, single: 2, ..W::default() };
            p.profile = "snapshots".into();
            g.pause_ms = 400;
            p.prep = Some(g.prep(&h, 4));
            p.procs = g.procs(3, 5, (3, 8), &h);
            p.rules = g.stalls(2);
            if g.r.chance(0.2) {
                neighbours(g, &mut p);
                if g.r.chance(0.3) {
                    p.profile += ", tool";
                    let t = tool(g, 1, 4, true);
                    p.procs.push(t);
                }
            } else if g.r.chance(0.25) {
                p.profile = "snapshots, kills".into();
                g.b.rename_key = 0;
                for pr in &mut p.procs {
                    for c in &mut pr.clients {
                        strip_renames(&mut c.ops);
                    }
                }
                p.rules.extend(g.kills(p.procs.len() as u64, 2));
            }
        }
        "C04" => {
            g.b.rename_key = 0;
            g.b.rename_slot = 0;
            p.profile = "kills".into();
            p.prep = Some(g.prep(&h, 3));
            p.prep_kill = g.r.chance(0.3);
            p.procs = g.procs(3, 5, (2, 7), &h);
            p.rules = g.kills(p.procs.len() as u64, 3);
            if g.r.chance(0.3) {
                p.rules.extend(g.stalls(2));
            }
            heal_all(g, &mut p, (1, 3));
        }
        "C05" | "C06" => {
            let no_clone = g.r.chance(0.6);
            if no_clone {
                p.fs.clone = CloneMode::No;
            }
            g.w = W { put: 10, batch: 4, single: 6, read: 3, keep: 2, snap: 3, drop_snap: 2, delete: 9, delp: 1, sleep: 3, rename: 1, reopen: 1, clone: 1, ..W::default() };
            g.b = BatchW { put: 8, abandon: 2, fail: 1, clone: 1, multi: 3, pause: 3, dropped: 20, max_items: 4, ..BatchW::default() };
            if prop == "C05" && g.r.chance(0.2) {
                p.fs.flock_mode = true;
                p.fs.clone = CloneMode::No;
            }
            if g.r.chance(0.3) {
                g.pause_ms = 1_500;
            }
            p.profile = format!("reclaim{}", if no_clone { ", no clones" } else { "" });
            if g.r.chance(0.25) {
                // What a rename displaces is given back too.
                g.b.rename_key = 3;
                g.b.rename_slot = 2;
                g.w.keep = 4;
            }
            p.prep = Some(g.prep(&h, 4));
            p.procs = g.procs(3, 5, (3, 8), &h);
            p.rules = g.stalls(4);
            match g.r.below(10) {
                0 | 1 => {
                    p.profile += ", limit";
                    let max = *g.r.pick(&[0, 1, 8192, 20_000, 60_000]);
                    set_limit(&mut p, max);
                }
                2 => {
                    // More to reclaim than the queue takes, while the reclaimer is busy.
                    p.profile += ", burst";
                    for pr in &mut p.procs {
                        let key = g.key();
                        let n = g.r.range(13, 17);
                        let c = g.r.below(pr.clients.len() as u64) as usize;
                        for _ in 0..n {
                            let len = if g.r.chance(0.3) { g.len() } else { *g.r.pick(&[4096, 8192, 9000]) };
                            let op = Op::Put { key: key.clone(), vid: g.next_vid(), len, chunks: 1 };
                            pr.clients[c].ops.push(op);
                        }
                    }
                    p.rules.push(Rule {
                        what: What::Stall(*g.r.pick(&[2_000, 20_000])),
                        sys: *g.r.pick(&[Sys::Open, Sys::Lock, Sys::Punch]),
                        file: Some(FClass::Values),
                        proc: None,
                        bg: Some(true),
                        nth: g.r.range(1, 4) as u32,
                        times: 1,
                    });
                }
                _ => {}
            }
            if prop == "C05" && !p.fs.flock_mode && g.r.chance(0.2) {
                p.profile += ", tool";
                let t = tool(g, 1, 5, true);
                p.procs.push(t);
            }
            if prop == "C05" && g.r.chance(0.2) {
                p.profile += ", kills";
                p.rules.extend(g.kills(p.procs.len() as u64, 2));
                heal_all(g, &mut p, (1, 2));
            }
        }
        "C07" | "C08" => {
            g.max_len = 9_000;
            g.w = W { put: 12, batch: 5, read: 3, single: 5, delete: 3, rename: 2, movep: 1, list: 3, stat: 1, clone: 1, abandon_read: 1, delp: 1, sleep: 2, reopen: 1, ..W::default() };
            g.b = BatchW { put: 8, abandon: 2, multi: 2, rename_key: 2, pause: 1, dropped: 15, max_items: 4, ..BatchW::default() };
            let max = *g.r.pick(&[0, 1, 100, 4096, 8192, 10_000, 20_000]);
            p.prep = Some(g.prep(&h, 4));
            let turns = prop == "C08" || g.r.chance(0.4);
            if turns {
                p.profile = "limit, one operation at a time".into();
                p.procs = g.procs(2, 3, (3, 8), &h);
                p.tick_ns = *g.r.pick(&[100, 100, 10_000]);
                set_limit(&mut p, max);
                if g.r.chance(0.3) {
                    p.profile += ", changing";
                    change_limit(g, &mut p);
                }
                in_turns(&mut p);
                if g.r.chance(0.3) {
                    p.rules.extend(jumps(g));
                }
            } else {
                p.profile = "limit, concurrent".into();
                for w in [&mut g.w.rename, &mut g.w.movep] {
                    *w = 0;
                }
                g.b.rename_key = 0;
                p.procs = g.procs(3, 5, (3, 7), &h);
                set_limit(&mut p, max);
                p.rules = g.stalls(2);
                // the total is looked at in between
                let ops = (0..5).map(|_| Op::List { prefix: K::default() }).collect();
                p.procs[0].clients.push(ClientPlan { handle: 0, capi: false, audit: false, ops });
                if g.r.chance(0.3) {
                    p.profile += ", kills";
                    p.rules.extend(g.kills(p.procs.len() as u64, 2));
                }
            }
            if g.r.chance(0.2) {
                some_capi(g, &mut p, 0.5);
            }
            p.check_space = true;
        }
        "C09" => {
            g.w.movep = 4;
            g.w.delp = 4;
            g.w.cleanup = 3;
            g.w.reopen = 2;
            g.pause_ms = *g.r.pick(&[0, 400, 3_000, 30_000]);
            p.profile = "progress".into();
            p.prep = Some(g.prep(&h, 3));
            if g.r.chance(0.5) {
                p.fs.clone = CloneMode::No;
            }
            if g.r.chance(0.15) {
                p.fs.flock_mode = true;
                p.fs.clone = CloneMode::No;
                g.pause_ms = g.pause_ms.min(400);
                p.profile = "progress, flock".into();
            }
            p.procs = g.procs(3, 6, (2, 6), &h);
            p.rules = g.stalls(3);
        }
        "C10" => {
            g.w.movep = 2;
            g.w.clone = 4;
            g.b.fail = 4;
            g.b.clone = 2;
            p.profile = "errors".into();
            p.prep = Some(g.prep(&h, 3));
            p.procs = g.procs(2, 4, (2, 7), &h);
            if g.r.chance(0.85) {
                p.rules = g.errors(4);
            }
            heal_all(g, &mut p, (2, 4));
        }
        "C11" => {
            g.min_len = 1;
            g.w = W { put: 5, batch: 10, rename: 8, read: 6, single: 4, keep: 4, delete: 3, list: 4, movep: 1, snap: 1, ..W::default() };
            g.b = BatchW { put: 4, rename_key: 10, rename_slot: 5, pause: 2, multi: 1, dropped: 10, max_items: 4, ..BatchW::default() };
            p.profile = "renames".into();
            p.prep = Some(g.prep(&h, 4));
            p.procs = g.procs(2, 4, (2, 6), &h);
            match g.r.below(4) {
                0 => {
                    p.profile = "renames, one at a time".into();
                    in_turns(&mut p);
                }
                1 => p.rules = g.stalls(3),
                _ => {}
            }
        }
        "C12" => {
            g.w = W { put: 8, batch: 3, movep: 8, delp: 5, list: 10, read: 5, delete: 3, single: 2, rename: 1, ..W::default() };
            if many {
            } else if g.r.chance(0.5) {
                g.keys = [&b"x"[..], b"x\xff", b"x\xff\xff", b"x\xffa", b"y", b"\xff", b"\xff\xff", b"", b"\xff\0"].iter().map(|b| k(b)).collect();
                g.prefixes = [&b""[..], b"x", b"x\xff", b"x\xff\xff", b"\xff", b"\xff\xff", b"y", b"z", b"xx"].iter().map(|b| k(b)).collect();
            } else {
                g.keys = [&b"a"[..], b"ab", b"abc", b"ac", b"b", b"ba", b"aab"].iter().map(|b| k(b)).collect();
                g.prefixes = [&b""[..], b"a", b"ab", b"b", b"c", b"aa", b"abc", b"bb"].iter().map(|b| k(b)).collect();
            }
            g.max_len = 3_000;
            p.profile = "prefixes".into();
            p.prep = Some(g.prep(&h, 7));
            p.procs = g.procs(2, 4, (2, 6), &h);
            match g.r.below(5) {
                0 => {
                    p.profile = "prefixes, one at a time".into();
                    in_turns(&mut p);
                }
                1 => {
                    p.profile = "prefixes, kills".into();
                    for pr in &mut p.procs {
                        for c in &mut pr.clients {
                            strip_renames(&mut c.ops);
                        }
                    }
                    p.rules = g.kills(p.procs.len() as u64, 1);
                }
                2 => p.rules = g.stalls(3),
                _ => {}
            }
        }
        "C13" => {
            g.w = W { put: 5, batch: 8, clone: 12, read: 5, single: 5, delete: 4, list: 1, reopen: 1, sleep: 1, ..W::default() };
            g.b = BatchW { put: 4, clone: 8, multi: 2, abandon: 1, fail: 1, pause: 2, dropped: 20, max_items: 4, ..BatchW::default() };
            g.missing = true;
            p.profile = "imports".into();
            p.fs.clone = *g.r.pick(&[CloneMode::Yes, CloneMode::Yes, CloneMode::CrossDevice, CloneMode::No]);
            p.prep = Some(g.prep(&h, 2));
            p.procs = g.procs(2, 4, (2, 6), &h);
            if g.r.chance(0.4) {
                p.profile = "imports, errors".into();
                p.rules = import_errors(g);
                heal_all(g, &mut p, (1, 2));
            } else {
                p.rules = g.stalls(3);
            }
        }
        "C14" => {
            g.w = W { put: 5, read: 5, single: 5, keep: 8, snap: 5, drop_snap: 5, delete: 2, cleanup: 8, reopen: 3, sleep: 1, batch: 1, ..W::default() };
            g.b = BatchW { put: 4, max_items: 3, ..BatchW::default() };
            if g.r.chance(0.8) {
                p.fs.clone = CloneMode::Yes;
            }
            p.profile = "snapshot files".into();
            p.prep = Some(g.prep(&h, 4));
            p.procs = g.procs(3, 5, (3, 8), &h);
            p.rules = g.stalls(3);
            if g.r.chance(0.4) {
                p.profile = "snapshot files, kills".into();
                p.rules.extend(g.kills(p.procs.len() as u64, 2));
                heal_all(g, &mut p, (1, 2));
            }
        }
        "C15" => {
            g.w = W { put: 8, batch: 12, delete: 3, single: 3, read: 2, sleep: 2, rename: 3, movep: 1, reopen: 2, clone: 2, list: 1, ..W::default() };
            g.b = BatchW { put: 8, abandon: 3, fail: 2, multi: 6, clone: 2, pause: 3, dropped: 20, max_items: 6, ..BatchW::default() };
            if g.r.chance(0.3) {
                g.pause_ms = 900;
            }
            p.profile = "writers".into();
            p.prep = Some(g.prep(&h, 2));
            p.procs = g.procs(3, 6, (2, 6), &h);
            match g.r.below(5) {
                0 => {
                    p.profile = "writers, kills".into();
                    p.rules = g.kills(p.procs.len() as u64, 2);
                    heal_all(g, &mut p, (1, 2));
                }
                1 => {
                    p.profile = "writers, errors".into();
                    p.rules = g.errors(2);
                    heal_all(g, &mut p, (1, 2));
                }
                2 => {
                    p.profile = "writers, flock".into();
                    p.fs.flock_mode = true;
                    p.fs.clone = CloneMode::No;
                }
                _ => p.rules = g.stalls(3),
            }
        }
        "C16" => c16(g, &mut p),
        "C17" => {
            g.w = W { put: 8, batch: 6, read: 8, single: 5, part: 6, keep: 4, snap: 5, drop_snap: 2, delete: 5, movep: 2, delp: 2, list: 6, stat: 5, cleanup: 1, abandon_read: 1, ..W::default() };
            g.b = BatchW { put: 8, rename_key: 3, pause: 2, max_items: 4, ..BatchW::default() };
            p.profile = "C interface".into();
            p.prep = Some(g.prep(&h, 3));
            p.procs = g.procs(2, 4, (2, 7), &h);
            match g.r.below(5) {
                0 => {
                    p.profile = "C interface, kills".into();
                    for pr in &mut p.procs {
                        for c in &mut pr.clients {
                            strip_renames(&mut c.ops);
                        }
                    }
                    p.rules = g.kills(p.procs.len() as u64, 1);
                    heal_all(g, &mut p, (1, 2));
                }
                1 => {
                    p.profile = "C interface, errors".into();
                    p.rules = g.errors(3);
                    heal_all(g, &mut p, (1, 2));
                }
                2 => {
                    p.profile = "C interface, one at a time".into();
                    some_capi(g, &mut p, 0.8);
                    in_turns(&mut p);
                    p.tick_ns = 100;
                }
                _ => p.rules = g.stalls(3),
            }
            some_capi(g, &mut p, 0.7);
        }
        "C18" => {
            g.max_len = 6_000;
            g.w = W { put: 8, batch: 3, read: 8, single: 8, part: 3, stat: 4, list: 4, rename: 3, movep: 1, abandon_read: 4, delete: 2, sleep: 4, clone: 1, keep: 4, snap: 2, ..W::default() };
            g.b = BatchW { put: 6, rename_key: 2, rename_slot: 3, pause: 2, max_items: 3, ..BatchW::default() };
            p.profile = "clocks".into();
            p.tick_ns = *g.r.pick(&[100, 100, 100, 5_000]);
            p.prep = Some(g.prep(&h, 3));
            p.procs = g.procs(2, 3, (4, 10), &h);
            some_capi(g, &mut p, 0.2);
            in_turns(&mut p);
            p.rules = jumps(g);
        }
        "C19" => {
            p.profile = "regions".into();
            g.w = W { put: 6, delete: 5, batch: 1, single: 1, sleep: 1, ..W::default() };
            g.max_len = 30_000;
            let mut prep = g.prep(&h, 2);
            for file in 0..2 {
                let n = g.r.range(1, 6);
                let op = g.sparse(file, n);
                prep.clients[0].ops.push(op);
            }
            p.prep = Some(prep);
            p.procs = g.procs(2, 4, (1, 3), &h);
            for pr in &mut p.procs {
                for c in &mut pr.clients {
                    for _ in 0..g.r.range(3, 9) {
                        let file = g.r.below(2) as u8;
                        let op = match g.r.below(5) {
                            0 | 1 => {
                                let n = g.r.range(1, 3);
                                g.sparse(file, n)
                            }
                            2 => Op::Regions { file: None, lazy: g.r.chance(0.5) },
                            _ => Op::Regions { file: Some(file), lazy: g.r.chance(0.5) },
                        };
                        let i = g.r.below(c.ops.len() as u64 + 1) as usize;
                        c.ops.insert(i, op);
                    }
                }
            }
            match g.r.below(4) {
                0 => {
                    p.profile = "regions, errors".into();
                    p.rules = (0..g.r.range(1, 3))
                        .map(|_| Rule {
                            what: What::Errno(*g.r.pick(&[libc::EIO, libc::EINTR, libc::ENOMEM])),
                            sys: Sys::Seek,
                            file: *g.r.pick(&[Some(FClass::Src), None]),
                            proc: None,
                            bg: Some(false),
                            nth: g.r.log(60) as u32,
                            times: *g.r.pick(&[1, 1, 3]),
                        })
                        .collect();
                }
                1 => {
                    p.profile = "regions, one at a time".into();
                    p.turns = true;
                }
                _ => p.rules = g.stalls(3),
            }
        }
        "C21" => {
            g.w = W { put: 10, batch: 5, single: 3, read: 2, keep: 5, snap: 6, drop_snap: 2, delete: 9, delp: 1, sleep: 3, rename: 1, reopen: 1, list: 1, ..W::default() };
            g.b = BatchW { put: 8, abandon: 4, fail: 1, multi: 3, pause: 2, dropped: 20, max_items: 5, ..BatchW::default() };
            if g.r.chance(0.5) {
                p.fs.clone = CloneMode::No;
            }
            p.profile = "tool".into();
            p.holes = true;
            let mut h = h.clone();
            if g.r.chance(0.6) {
                // All holes are missing.
                h.no_punch = true;
                h.set_limits = true;
                p.check_space = false;
            }
            p.prep = Some(g.prep(&h, 4));
            p.procs = g.procs(2, 3, (2, 7), &h);
            for _ in 0..g.r.range(1, 2) {
                let t = tool(g, 1, 6, false);
                p.procs.push(t);
            }
            match g.r.below(10) {
                0..=2 => p.rules = g.stalls(3),
                3 | 4 => {
                    p.profile += ", kills";
                    p.rules = g.kills(p.procs.len() as u64, 2);
                    heal_all(g, &mut p, (1, 2));
                }
                5 | 6 => {
                    p.profile += ", one at a time";
                    in_turns(&mut p);
                }
                _ => {}
            }
        }
        _ => panic!("no profile for {}", prop),
    }
    if p.heal.is_empty() && !p.turns && prop != "C16" && g.r.chance(0.3) {
        heal_all(g, &mut p, (1, 2));
    }
    if matches!(prop, "C01" | "C02" | "C13" | "C15") && g.r.chance(0.06) {
        p.profile += ", few random numbers";
        p.fs.weak_ids = g.r.range(1, 3) as u32;
        no_reopen(&mut p);
        p.check_space = false;
        // The name of a file that was removed must not be used again while a handle may have a
        // clone of it.
        for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
            for h in &mut pr.handles {
                h.no_punch = true;
                h.set_limits = true;
            }
        }
    }
    if matches!(prop, "C03" | "C06" | "C10" | "C14" | "C04") && g.r.chance(0.15) {
        some_capi(g, &mut p, 0.6);
    }
    let kills = p.rules.iter().any(|r| matches!(r.what, What::KillAfter | What::KillBefore | What::Torn(_)));
    if kills {
        // Which value a killed batch would have renamed is not known.
        for pr in &mut p.procs {
            for c in &mut pr.clients {
                strip_renames(&mut c.ops);
            }
        }
    }
    if p.rules.iter().any(|r| r.what.is_io() || matches!(r.what, What::Stall(_))) || g.pause_ms > 1_000 {
        // possum_single_stat has no way to report an error; see known::all.
        no_c_stat(&mut p);
    }
    if matches!(prop, "C01" | "C05" | "C06" | "C13" | "C17")
        && !p.turns
        && p.limit.is_none()
        && !p.rules.iter().any(|r| r.what.is_io())
        && g.r.chance(0.04)
    {
        huge(g, &mut p);
    }
    let all: Vec<Op> = p.all_ops().cloned().collect();
    if has_renames(&all) {
        no_empty(&mut p);
    }
    p
}

/// A value of more than 4 GiB, and others behind it in its file.
fn huge(g: &mut G, p: &mut Plan) {
    p.fs.clone = CloneMode::Yes;
    p.fs.flock_mode = false;
    let len = (1 << 32) + *g.r.pick(&[8192, 20_000, 4095 + 8192, 1 << 31]);
    let key = k(b"Huge");
    let data = huge_data(len);
    for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
        for c in &mut pr.clients {
            if g.r.chance(0.5) {
                let i = g.r.below(c.ops.len() as u64 / 2 + 1) as usize;
                c.ops.insert(i, Op::Huge { key: key.clone(), len });
            }
            if g.r.chance(0.6) {
                let (at, n) = *g.r.pick(&data);
                let off = at + g.r.below(n as u64 - 100);
                let i = g.r.below(c.ops.len() as u64 + 1) as usize;
                c.ops.insert(i, Op::ReadPart { key: key.clone(), off, n: g.r.range(8, 100) as u32 });
            }
            if g.r.chance(0.4) {
                let i = g.r.below(c.ops.len() as u64 + 1) as usize;
                c.ops.insert(i, Op::Delete { key: key.clone() });
            }
        }
    }
}

fn strip_renames(ops: &mut [Op]) {
    for o in ops {
        if let Op::Batch { items, .. } = o {
            items.retain(|i| !matches!(i, Item::RenameKey { .. } | Item::RenameSlot { .. }));
        }
    }
}

fn no_reopen(p: &mut Plan) {
    for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
        for c in &mut pr.clients {
            c.ops.retain(|o| !matches!(o, Op::Reopen));
        }
    }
}

fn no_c_stat(p: &mut Plan) {
    for pr in &mut p.procs {
        for c in &mut pr.clients {
            if c.capi {
                for o in &mut c.ops {
                    if let Op::Stat { key } = o {
                        *o = Op::ReadSingle { key: key.clone(), style: Style::View };
                    }
                }
            }
        }
    }
}

/// Zero-length values cannot be told apart, so that renaming them by value is a case of its own.
fn no_empty(p: &mut Plan) {
    let fix = |ops: &mut Vec<Op>| {
        for o in ops {
            match o {
                Op::Put { len, .. } | Op::CloneFile { len, .. } => *len = (*len).max(1),
                Op::Batch { items, .. } => {
                    for i in items {
                        match i {
                            Item::Put { len, .. } | Item::Clone { len, .. } | Item::Fail { len, .. } => {
                                *len = (*len).max(1)
                            }
                            Item::Multi { vals, .. } => {
                                for v in vals {
                                    v.2 = v.2.max(1);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    };
    for pr in p.prep.iter_mut().chain(p.procs.iter_mut()) {
        for c in &mut pr.clients {
            fix(&mut c.ops);
        }
    }
    for (_, c) in &mut p.heal {
        fix(&mut c.ops);
    }
}

fn jumps(g: &mut G) -> Vec<Rule> {
    let n = g.r.range(0, 6);
    (0..n)
        .map(|_| Rule {
            // Between operations
            what: What::Wall(*g.r.pick(&[-1, 1, -3, 7, -1_000, 1_000, -86_400_000, 86_400_000, 3_600_000, -250])),
            sys: Sys::Harness,
            file: None,
            proc: None,
            bg: Some(false),
            nth: g.r.below(30) as u32,
            times: 1,
        })
        .collect()
}

fn import_errors(g: &mut G) -> Vec<Rule> {
    use libc::*;
    let mut v = g.errors(1);
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let (sys, file, e) = *g.r.pick(&[
            (Sys::Clone, None, EOPNOTSUPP),
            (Sys::Clone, None, EXDEV),
            (Sys::Clone, None, ENOSPC),
            (Sys::Clone, None, EIO),
            (Sys::Clone, None, EINVAL),
            (Sys::Read, Some(FClass::Src), EIO),
            (Sys::Read, Some(FClass::Src), EINTR),
            (Sys::Create, Some(FClass::Values), ENOSPC),
            (Sys::Open, Some(FClass::Values), EMFILE),
            (Sys::Write, Some(FClass::Values), ENOSPC),
        ]);
        v.push(Rule {
            what: What::Errno(e),
            sys,
            file,
            proc: None,
            bg: Some(false),
            nth: g.r.log(12) as u32,
            times: *g.r.pick(&[1, 1, 2, 5]),
        });
    }
    v
}

fn c16(g: &mut G, p: &mut Plan) {
    let h = handle();
    let open_kills = |g: &mut G| -> Vec<Rule> {
        let points = [
            (Sys::Write, Some(FClass::Db)),
            (Sys::Write, Some(FClass::Wal)),
            (Sys::Write, Some(FClass::Journal)),
            (Sys::Write, None),
            (Sys::Lock, None),
            (Sys::Unlock, None),
            (Sys::Unlink, None),
            (Sys::Create, None),
            (Sys::Open, None),
            (Sys::Trunc, None),
            (Sys::Mkdir, None),
            (Sys::Read, None),
            (Sys::Stat, None),
            (Sys::Close, None),
            (Sys::Mmap, None),
        ];
        let n = g.r.range(1, 3);
        (0..n)
            .map(|_| {
                let (sys, file) = *g.r.pick(&points);
                let what = if sys == Sys::Write && g.r.chance(0.4) {
                    What::Torn(g.r.below(1000) as u32)
                } else if g.r.chance(0.5) {
                    What::KillBefore
                } else {
                    What::KillAfter
                };
                Rule { what, sys, file, proc: Some(0), bg: None, nth: g.r.log(60) as u32, times: 1 }
            })
            .collect()
    };
    match g.r.below(5) {
        4 => {
            p.profile = "first opens together".into();
            p.racing_opens = true;
            if g.r.chance(0.5) {
                p.prep = Some(g.prep(&h, 3));
                p.prep_kill = false;
                p.old_version = Some(g.r.below(3) as u32);
            }
            g.w.reopen = 3;
            for _ in 0..g.r.range(2, 3) {
                let n = g.r.range(1, 3);
                let mut ops = g.ops(n, n + 2);
                if g.r.chance(0.7) {
                    // done before others have even begun
                    ops.push(Op::Close);
                }
                p.procs.push(ProcPlan {
                    handles: vec![h.clone()],
                    clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }],
                });
            }
            let points = [
                (Sys::Read, Some(FClass::Db)),
                (Sys::Lock, Some(FClass::Db)),
                (Sys::Unlock, Some(FClass::Db)),
                (Sys::Stat, None),
                (Sys::Open, None),
                (Sys::Lock, None),
                (Sys::Create, None),
                (Sys::Mkdir, None),
                (Sys::Close, None),
            ];
            for _ in 0..g.r.range(1, 2) {
                let (sys, file) = *g.r.pick(&points);
                p.rules.push(Rule {
                    what: What::Stall(*g.r.pick(&[20_000, 300_000, 2_000_000, 20_000_000])),
                    sys,
                    file,
                    proc: Some(g.r.below(2) as u32),
                    bg: Some(false),
                    nth: g.r.log(30) as u32,
                    times: 1,
                });
            }
            heal_all(g, p, (2, 4));
        }
        0 => {
            p.profile = "reopen".into();
            g.w.reopen = 14;
            p.prep = Some(g.prep(&h, 3));
            p.procs = g.procs(3, 5, (2, 7), &h);
            p.rules = g.stalls(3);
            if g.r.chance(0.3) {
                p.profile = "reopen, kills".into();
                p.rules.extend(g.kills(p.procs.len() as u64, 2));
                heal_all(g, p, (1, 2));
            }
        }
        1 => {
            p.profile = "first open, killed".into();
            let n = g.r.range(1, 4);
            let ops = g.ops(n, n + 2);
            p.procs = vec![ProcPlan {
                handles: vec![h.clone()],
                clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }],
            }];
            p.rules = open_kills(g);
            p.restarts = 3;
            heal_all(g, p, (2, 4));
        }
        v => {
            p.profile = "upgrade".into();
            p.prep = Some(g.prep(&h, 5));
            p.prep_kill = false;
            p.old_version = Some(g.r.below(3) as u32);
            let n = g.r.range(1, 4);
            let ops = g.ops(n, n + 2);
            p.procs = vec![ProcPlan {
                handles: vec![h.clone()],
                clients: vec![ClientPlan { handle: 0, capi: false, audit: false, ops }],
            }];
            if v == 2 {
                p.profile = "upgrade, killed".into();
                p.rules = open_kills(g);
                p.restarts = 3;
            }
            heal_all(g, p, (2, 4));
        }
    }
}
