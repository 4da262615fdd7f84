//! The harness that runs inside each simulated process. It is linked with the real possum crate
//! (and through it the real SQLite) and executes the operations that the simulator hands out.
//! Everything it or possum asks of the operating system goes to the simulator.
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

use positioned_io::ReadAt;
use possum::*;
use proto::*;

mod capi;
#[cfg(feature = "cli")]
mod cli;
#[cfg(not(feature = "cli"))]
mod cli {
    /// The tool could not be built in here.
    pub fn exec(_: &std::path::Path, op: &super::Op, ret: &mut super::Ret) -> bool {
        let c = op.name().starts_with("cli ");
        if c {
            ret.err = Some((super::EK::Skip, "no tool".into()));
        }
        c
    }
}

extern "C" {
    fn simx_next_op(client: u32, ptr: *mut *const u8, len: *mut usize) -> i32;
    fn simx_ret(client: u32, ptr: *const u8, len: usize);
    fn simx_value(vid: u32);
    fn simx_yield();
    fn simx_panic(ptr: *const u8, len: usize);
}

fn yield_now() {
    unsafe { simx_yield() }
}

pub fn note_value(vid: Vid) {
    unsafe { simx_value(vid) }
}

pub type H = Arc<RwLock<Handle>>;

struct Node {
    dir: PathBuf,
    handles: BTreeMap<u8, H>,
    specs: BTreeMap<u8, HandleSpec>,
}

static NODE: Mutex<Option<Node>> = Mutex::new(None);

fn with_node<R>(f: impl FnOnce(&mut Node) -> R) -> R {
    f(NODE.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}

#[no_mangle]
pub extern "C" fn node_init(dir: *const u8, dir_len: usize) {
    let dir = unsafe { std::slice::from_raw_parts(dir, dir_len) };
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        unsafe { simx_panic(s.as_ptr(), s.len()) }
    }));
    *NODE.lock().unwrap() = Some(Node {
        dir: PathBuf::from(String::from_utf8(dir.to_vec()).unwrap()),
        handles: Default::default(),
        specs: Default::default(),
    });
}

fn open_handle(spec: &HandleSpec) -> anyhow::Result<H> {
    let dir = with_node(|n| n.dir.clone());
    let h = if spec.capi {
        capi::open(dir.to_str().unwrap())?
    } else {
        Arc::new(RwLock::new(Handle::new(dir)?))
    };
    if spec.set_limits {
        set_limits(&h, spec.capi, spec.max, spec.no_punch)?;
    }
    Ok(h)
}

fn set_limits(h: &H, capi: bool, max: Option<u64>, no_punch: bool) -> anyhow::Result<()> {
    if capi {
        return capi::set_limits(h, max, no_punch);
    }
    set_limits_rust(&mut h.write().unwrap(), max, no_punch)
}

/// Limits is not nameable outside the crate: the setter is reached through its own parameter type.
fn set_limits_rust(h: &mut Handle, max: Option<u64>, no_punch: bool) -> anyhow::Result<()> {
    fn call<L: Default>(
        h: &mut Handle,
        f: impl FnOnce(&mut Handle, L) -> anyhow::Result<()>,
        g: impl FnOnce(&mut L),
    ) -> anyhow::Result<()> {
        let mut l = L::default();
        g(&mut l);
        f(h, l)
    }
    call(h, Handle::set_instance_limits, |l| {
        l.max_value_length_sum = max;
        l.disable_hole_punching = no_punch;
    })
}

/// Opens a handle of this process. Returns a JSON Ret through simx_ret of client u32::MAX.
#[no_mangle]
pub extern "C" fn node_open(id: u8, spec: *const u8, spec_len: usize) -> i32 {
    let spec: HandleSpec =
        serde_json::from_slice(unsafe { std::slice::from_raw_parts(spec, spec_len) }).unwrap();
    with_node(|n| n.specs.insert(id, spec.clone()));
    let mut ret = Ret::default();
    match catch_unwind(AssertUnwindSafe(|| open_handle(&spec))) {
        Ok(Ok(h)) => {
            with_node(|n| n.handles.insert(id, h));
        }
        Ok(Err(e)) => ret.err = Some(classify(&e)),
        Err(_) => ret.err = Some((EK::Panic, "panic in open".into())),
    }
    let ok = ret.err.is_none();
    send_ret(u32::MAX, &ret);
    ok as i32
}

fn send_ret(client: u32, ret: &Ret) {
    let s = serde_json::to_vec(ret).unwrap();
    unsafe { simx_ret(client, s.as_ptr(), s.len()) }
}

fn chain<'a>(
    e: &'a (dyn std::error::Error + 'static),
) -> Vec<&'a (dyn std::error::Error + 'static)> {
    let mut v = vec![e];
    let mut cur = e;
    while let Some(s) = cur.source() {
        v.push(s);
        cur = s;
    }
    v
}

fn sqlite_kind(e: &rusqlite::Error) -> EK {
    use rusqlite::ErrorCode::*;
    match e {
        rusqlite::Error::SqliteFailure(f, _) => match f.code {
            DatabaseBusy | DatabaseLocked => EK::Busy,
            ConstraintViolation => EK::Constraint,
            _ => EK::Sqlite,
        },
        _ => EK::Sqlite,
    }
}

fn classify_dyn(e: &(dyn std::error::Error + 'static), text: String) -> (EK, String) {
    for e in chain(e) {
        if let Some(e) = e.downcast_ref::<rusqlite::Error>() {
            return (sqlite_kind(e), text);
        }
        if e.is::<io::Error>() {
            return (EK::Io, text);
        }
        if let Some(e) = e.downcast_ref::<possum::Error>() {
            match e {
                possum::Error::NoSuchKey => return (EK::NoSuchKey, text),
                possum::Error::Sqlite(e) => return (sqlite_kind(e), text),
                possum::Error::Io(_) => return (EK::Io, text),
                possum::Error::Anyhow(e) => return classify(e),
                _ => {}
            }
        }
    }
    (EK::Other, text)
}

pub fn classify(e: &anyhow::Error) -> (EK, String) {
    classify_dyn(e.as_ref(), format!("{:#}", e))
}

/// A source stream that delivers a value in pieces and lets others run in between.
pub struct Source {
    vid: Vid,
    len: usize,
    pos: usize,
    chunk: usize,
    fail_at: Option<usize>,
}

impl Source {
    fn new(vid: Vid, len: u32, chunks: u32) -> Self {
        let len = len as usize;
        Source { vid, len, pos: 0, chunk: (len / chunks.max(1) as usize).max(1), fail_at: None }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        yield_now();
        let mut n = buf.len().min(self.chunk).min(self.len - self.pos);
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "source stream failed"));
            }
            n = n.min(f - self.pos);
        }
        fill(self.vid, self.pos, &mut buf[..n]);
        self.pos += n;
        Ok(n)
    }
}

fn lu(v: &Value) -> i64 {
    v.last_used().timestamp_millis()
}

fn obs_of(v: &Value, b: &[u8]) -> Obs {
    let len = v.length();
    let last_used_ms = lu(v);
    if b.is_empty() {
        return Obs::Empty { last_used_ms };
    }
    match identify(b) {
        Ok(vid) => Obs::Val { vid, len, last_used_ms },
        Err(desc) => Obs::Corrupt { desc },
    }
}

fn read_value(sv: &SnapshotValue<Value>, style: Style) -> io::Result<Obs> {
    let v: &Value = sv;
    let len = v.length();
    if len > 64 << 20 {
        return Ok(Obs::Corrupt { desc: format!("length {}", len) });
    }
    Ok(match style {
        Style::View => sv.view(|b| {
            yield_now();
            if b.len() as u64 != len {
                return Obs::Corrupt { desc: format!("view of {} bytes, length {}", b.len(), len) };
            }
            obs_of(v, b)
        })?,
        Style::Stream => {
            let mut b = vec![];
            sv.new_reader().read_to_end(&mut b)?;
            if b.len() as u64 != len {
                return Ok(Obs::Corrupt {
                    desc: format!("stream of {} bytes, length {}", b.len(), len),
                });
            }
            obs_of(v, &b)
        }
        Style::ReadAt(piece) => {
            let piece = piece.max(1) as usize;
            let mut b = vec![];
            let mut zero = 0;
            loop {
                let mut buf = vec![0; piece];
                let n = sv.read_at(b.len() as u64, &mut buf)?;
                if n == 0 {
                    zero += 1;
                    if b.len() as u64 >= len || zero > 1 {
                        break;
                    }
                    continue;
                }
                b.extend_from_slice(&buf[..n]);
                if b.len() as u64 > len {
                    break;
                }
            }
            if b.len() as u64 != len {
                return Ok(Obs::Corrupt {
                    desc: format!("read_at gave {} bytes, length {}", b.len(), len),
                });
            }
            obs_of(v, &b)
        }
        Style::Read(spare) => {
            let mut b = vec![0; len as usize + spare as usize];
            let n = match sv.read(&mut b) {
                Ok(n) => n,
                Err(e) => {
                    return Err(match e.downcast::<io::Error>() {
                        Ok(e) => e,
                        Err(e) => io::Error::new(io::ErrorKind::Other, format!("{e:#}")),
                    })
                }
            };
            if n as u64 > len {
                return Ok(Obs::Corrupt { desc: format!("read gave {} bytes, length {}", n, len) });
            }
            if n == 0 && len > 0 {
                return Ok(Obs::Corrupt { desc: format!("read gave 0 bytes, length {}", len) });
            }
            obs_of(v, &b[..n])
        }
    })
}

enum Slot {
    Rust(Vec<(K, SnapshotValue<Value>)>),
    C(capi::CReader, Vec<(K, *const libc::c_void)>),
}

pub struct Client {
    spec: ClientSpec,
    slots: BTreeMap<u8, Slot>,
}

macro_rules! tri {
    ($ret:expr, $e:expr) => {
        match $e {
            Ok(x) => x,
            Err(e) => {
                $ret.err = Some(classify(&anyhow::Error::from(e)));
                return;
            }
        }
    };
}

#[no_mangle]
pub extern "C" fn node_client(spec: *const u8, spec_len: usize) {
    let spec: ClientSpec =
        serde_json::from_slice(unsafe { std::slice::from_raw_parts(spec, spec_len) }).unwrap();
    let mut client = Client { spec, slots: Default::default() };
    let id = client.spec.id;
    loop {
        let mut p = std::ptr::null();
        let mut n = 0;
        if unsafe { simx_next_op(id, &mut p, &mut n) } == 0 {
            break;
        }
        let op: Op = serde_json::from_slice(unsafe { std::slice::from_raw_parts(p, n) }).unwrap();
        let mut ret = Ret::default();
        let r = catch_unwind(AssertUnwindSafe(|| client.exec(&op, &mut ret)));
        if r.is_err() {
            ret.err = Some((EK::Panic, "panic".into()));
        }
        if client.spec.audit {
            if let Err(e) = rows(&mut ret) {
                ret.text = Some(format!("audit: {:#}", e));
            }
        }
        send_ret(id, &ret);
    }
    client.slots.clear();
}

impl Client {
    fn handle(&self) -> Option<H> {
        with_node(|n| n.handles.get(&self.spec.handle).cloned())
    }

    fn exec(&mut self, op: &Op, ret: &mut Ret) {
        match op {
            Op::Sleep { ms } => return std::thread::sleep(Duration::from_millis(*ms as u64)),
            Op::SnapDrop { slot } => {
                if self.slots.remove(slot).is_none() {
                    ret.err = Some((EK::Skip, "empty slot".into()));
                }
                return;
            }
            Op::SnapRead { slot, style } => {
                match self.slots.get(slot) {
                    None => ret.err = Some((EK::Skip, "empty slot".into())),
                    Some(Slot::Rust(vals)) => {
                        for (k, sv) in vals {
                            let obs = tri!(ret, read_value(sv, *style));
                            ret.reads.push((k.clone(), Some(obs)));
                        }
                    }
                    Some(Slot::C(_, vals)) => {
                        for (k, v) in vals {
                            let obs = tri!(ret, capi::read_value(*v, *style));
                            ret.reads.push((k.clone(), Some(obs)));
                        }
                    }
                }
                return;
            }
            Op::Reopen => {
                let spec = with_node(|n| {
                    let h = n.handles.remove(&self.spec.handle);
                    (n.specs.get(&self.spec.handle).cloned(), h)
                });
                if let Some(h) = spec.1 {
                    drop_handle(h, self.spec.capi);
                }
                let spec = spec.0.unwrap();
                let h = tri!(ret, open_handle(&spec));
                let old = with_node(|n| n.handles.insert(self.spec.handle, h));
                if let Some(h) = old {
                    drop_handle(h, self.spec.capi);
                }
                return;
            }
            Op::EnsureOpen => {
                if self.handle().is_none() {
                    let Some(spec) = with_node(|n| n.specs.get(&self.spec.handle).cloned()) else {
                        ret.err = Some((EK::Skip, "no such handle".into()));
                        return;
                    };
                    let h = tri!(ret, open_handle(&spec));
                    with_node(|n| {
                        n.handles.entry(self.spec.handle).or_insert(h);
                    });
                }
                return;
            }
            Op::Close => {
                match with_node(|n| n.handles.remove(&self.spec.handle)) {
                    Some(h) => drop_handle(h, self.spec.capi),
                    None => ret.err = Some((EK::Skip, "closed".into())),
                }
                return;
            }
            Op::CloseWait => {
                match with_node(|n| n.handles.remove(&self.spec.handle)) {
                    Some(h) => {
                        let done = h.read().unwrap().get_value_puncher_done();
                        drop_handle(h, self.spec.capi);
                        done.wait();
                    }
                    None => ret.err = Some((EK::Skip, "closed".into())),
                }
                return;
            }
            Op::Sparse { file, edits } => {
                if let Err(e) = sparse(*file, edits) {
                    ret.err = Some(classify(&e));
                }
                return;
            }
            Op::Regions { file, lazy } => {
                if let Err(e) = regions(*file, *lazy, ret) {
                    ret.err = Some(classify(&e));
                }
                return;
            }
            Op::Fsck => {
                if let Err(e) = fsck(ret) {
                    ret.err = Some(classify(&e));
                }
                return;
            }
            Op::MakeOld { version } => {
                if let Err(e) = make_old(*version) {
                    ret.err = Some(classify(&e));
                }
                return;
            }
            _ => {}
        }
        if cli::exec(&with_node(|n| n.dir.clone()), op, ret) {
            return;
        }
        let Some(h) = self.handle() else {
            ret.err = Some((EK::Skip, "closed".into()));
            return;
        };
        if self.spec.capi && capi::exec(self, &h, op, ret) {
            return;
        }
        self.exec_rust(&h, op, ret)
    }

    fn exec_rust(&mut self, h: &H, op: &Op, ret: &mut Ret) {
        match op {
            Op::Put { key, vid, len, chunks } => {
                note_value(*vid);
                let (n, res) = tri!(
                    ret,
                    h.read()
                        .unwrap()
                        .single_write_from(key.0.clone(), Source::new(*vid, *len, *chunks))
                );
                ret.n = Some(n);
                if res.count() != 1 {
                    ret.text = Some(format!("single write reported count {}", res.count()));
                }
            }
            Op::Delete { key } => {
                let stat = tri!(ret, h.read().unwrap().single_delete(&key.0));
                match stat {
                    None => ret.err = Some((EK::NoSuchKey, "delete returned none".into())),
                    Some(s) => ret.stat = Some(capi::stat_of(&s)),
                }
            }
            Op::Rename { from, to } => {
                let ts = tri!(ret, h.write().unwrap().rename_item(&from.0, &to.0));
                ret.stat = Some((0, ts.timestamp_millis()));
            }
            Op::MovePrefix { from, to } => {
                tri!(ret, h.read().unwrap().move_prefix(&from.0, &to.0))
            }
            Op::DeletePrefix { prefix } => {
                tri!(ret, h.read().unwrap().delete_prefix(&prefix.0))
            }
            Op::List { prefix } => {
                let items = tri!(ret, h.read().unwrap().list_items(&prefix.0));
                ret.list = Some(
                    items
                        .iter()
                        .map(|i| (K(i.key.clone()), i.value.length(), lu(&i.value)))
                        .collect(),
                );
            }
            Op::Cleanup => tri!(ret, h.read().unwrap().cleanup_snapshots()),
            Op::SetLimits { max, no_punch } => {
                tri!(ret, set_limits(h, self.spec.capi, *max, *no_punch))
            }
            Op::Stat { key } | Op::ReadSingle { key, .. } => {
                let r = tri!(ret, h.read().unwrap().read_single(&key.0));
                let obs = match r {
                    None => Obs::Missing,
                    Some(sv) => {
                        ret.stat = Some((sv.length(), lu(&sv)));
                        if let Op::ReadSingle { style, .. } = op {
                            tri!(ret, read_value(&sv, *style))
                        } else {
                            return;
                        }
                    }
                };
                ret.reads.push((key.clone(), Some(obs)));
            }
            Op::ReadPart { key, off, n } => {
                let r = tri!(ret, h.read().unwrap().read_single(&key.0));
                let obs = match r {
                    None => Obs::Missing,
                    Some(sv) => {
                        let mut b = vec![0xaa; *n as usize];
                        let got = tri!(ret, sv.read_at(*off, &mut b));
                        part_obs(*off, *n, got, &b, Some(lu(&sv)))
                    }
                };
                ret.reads.push((key.clone(), Some(obs)));
            }
            Op::Read { keys, list, style, keep, begin, pause_ms } => {
                let mut vals = vec![];
                let snap = {
                    let guard = h.read().unwrap();
                    let mut reader = tri!(ret, guard.read());
                    for k in keys {
                        vals.push((k.clone(), tri!(ret, reader.add(&k.0))));
                    }
                    if let Some(p) = list {
                        let items = tri!(ret, reader.list_items(&p.0));
                        ret.list = Some(
                            items
                                .iter()
                                .map(|i| (K(i.key.clone()), i.value.length(), lu(&i.value)))
                                .collect(),
                        );
                    }
                    if !*begin {
                        ret.list = None;
                        return;
                    }
                    tri!(ret, reader.begin())
                };
                if *pause_ms > 0 {
                    std::thread::sleep(Duration::from_millis(*pause_ms as u64));
                }
                let mut kept = vec![];
                for (k, v) in vals {
                    match v {
                        None => ret.reads.push((k, Some(Obs::Missing))),
                        Some(v) => {
                            let sv = snap.value(v);
                            ret.reads.push((k.clone(), Some(tri!(ret, read_value(&sv, *style)))));
                            kept.push((k, sv));
                        }
                    }
                }
                if let Some(slot) = keep {
                    self.slots.remove(slot);
                    self.slots.insert(*slot, Slot::Rust(kept));
                }
            }
            Op::CloneFile { key, vid, len, pos, missing } => {
                note_value(*vid);
                let mut f = tri!(ret, open_source(*vid, *pos, *missing));
                let n = tri!(ret, h.write().unwrap().clone_from_file(key.0.clone(), &mut f));
                ret.n = Some(n);
                if n != *len as u64 {
                    ret.text = Some(format!("clone_from_file reported {} bytes of {}", n, len));
                }
            }
            Op::Huge { key, len } => {
                let mut f = tri!(ret, std::fs::File::open("/simfs/src/huge"));
                let n = tri!(ret, h.write().unwrap().clone_from_file(key.0.clone(), &mut f));
                ret.n = Some(n);
                if n != *len {
                    ret.text = Some(format!("clone_from_file reported {} bytes of {}", n, len));
                }
            }
            Op::Batch { items, commit } => self.batch(h, items, *commit, ret),
            _ => ret.err = Some((EK::Other, format!("unhandled op {:?}", op))),
        }
    }

    fn batch(&mut self, h: &H, items: &[Item], commit: bool, ret: &mut Ret) {
        let mut w = BatchWriter::new(h.clone());
        for (i, item) in items.iter().enumerate() {
            let r = self.item(h, &mut w, i, item, ret);
            if let Err(e) = r {
                let (k, t) = classify(&e);
                ret.part_errs.push((i, k, t));
            }
        }
        ret.committing = commit;
        if commit {
            let c = tri!(ret, w.commit());
            ret.n = Some(c.count() as u64);
        } else {
            drop(w);
        }
    }

    fn item(
        &mut self,
        h: &H,
        w: &mut BatchWriter<H>,
        i: usize,
        item: &Item,
        ret: &mut Ret,
    ) -> anyhow::Result<()> {
        let pause = |ms: u32| {
            if ms > 0 {
                std::thread::sleep(Duration::from_millis(ms as u64))
            } else {
                yield_now()
            }
        };
        match item {
            Item::Pause { ms } => pause(*ms),
            Item::Put { key, vid, len, chunks, pause_ms } => {
                note_value(*vid);
                let mut v = w.new_value().begin()?;
                if *chunks <= 1 {
                    let n = v.copy_from(Source::new(*vid, *len, 1))?;
                    anyhow::ensure!(n == *len as u64, "copied {} of {}", n, len);
                } else {
                    let data = content(*vid, *len as usize);
                    // All the ways to write
                    for (j, c) in data.chunks(((*len / *chunks) as usize).max(1)).enumerate() {
                        match (*vid as usize + j) % 4 {
                            0 => v.get_file()?.write_all(c)?,
                            1 => {
                                let n = v.copy_from(c)?;
                                anyhow::ensure!(n == c.len() as u64, "copied {} of {}", n, c.len());
                            }
                            _ => v.write_all(c)?,
                        }
                        pause(*pause_ms);
                    }
                }
                let n = v.value_length()?;
                if n != *len as u64 {
                    ret.text = Some(format!("value_length is {} after writing {}", n, len));
                }
                w.stage_write(key.0.clone(), v)?;
                ret.staged.push(*vid);
            }
            Item::Abandon { vid, len } => {
                note_value(u32::MAX);
                let mut v = w.new_value().begin()?;
                v.copy_from(Source::new(*vid, *len, 2))?;
                yield_now();
                drop(v);
            }
            Item::Fail { key, vid, len, bad, retry } => {
                note_value(u32::MAX);
                let mut v = w.new_value().begin()?;
                // What was written before the failing copy stays.
                let before = if *retry && *vid % 3 == 0 { *len as usize / 3 } else { 0 };
                if before > 0 {
                    note_value(*vid);
                    v.write_all(&content(*vid, *len as usize)[..before])?;
                    note_value(u32::MAX);
                }
                // The bytes of the failed source are those of another value, so that they show.
                let mut src = Source::new(*vid + 100, (*bad).max(1) + 10, 2);
                src.fail_at = Some(*bad as usize);
                let r = v.copy_from(src);
                anyhow::ensure!(r.is_err(), "copy_from ignored a failing source");
                if *retry {
                    yield_now();
                    note_value(*vid);
                    let mut rest = Source::new(*vid, *len, 2);
                    rest.pos = before;
                    if *vid % 4 == 1 {
                        // not by copying
                        let mut b = vec![];
                        rest.read_to_end(&mut b)?;
                        v.get_file()?.write_all(&b)?;
                    } else {
                        v.copy_from(rest)?;
                    }
                    w.stage_write(key.0.clone(), v)?;
                    ret.staged.push(*vid);
                }
            }
            Item::Clone { key, vid, pos, .. } => {
                note_value(*vid);
                let mut f = open_source(*vid, *pos, false)?;
                let v = w.new_value().clone_file(&mut f)?;
                w.stage_write(key.0.clone(), v)?;
                ret.staged.push(*vid);
            }
            Item::Multi { vals, chunks } => {
                let mut open = vec![];
                for (k, vid, len) in vals {
                    open.push((k, *vid, content(*vid, *len as usize), 0usize, w.new_value().begin()?));
                }
                loop {
                    let mut any = false;
                    for (_, vid, data, pos, v) in &mut open {
                        if *pos < data.len() {
                            let n = (data.len() / (*chunks).max(1) as usize).max(1).min(data.len() - *pos);
                            note_value(*vid);
                            v.write_all(&data[*pos..*pos + n])?;
                            *pos += n;
                            any = true;
                        }
                    }
                    if !any {
                        break;
                    }
                }
                while let Some((k, vid, _, _, v)) = open.pop() {
                    w.stage_write(k.0.clone(), v)?;
                    ret.staged.push(vid);
                }
            }
            Item::RenameKey { from, to } => {
                let r = h.read().unwrap().read_single(&from.0)?;
                match r {
                    None => ret.renames.push((i, None, false)),
                    Some(sv) => {
                        let obs = read_value(&sv, Style::View)?;
                        let v: Value = *sv;
                        match obs {
                            Obs::Val { vid, .. } => ret.renames.push((i, Some(vid), false)),
                            Obs::Empty { .. } => ret.renames.push((i, None, true)),
                            o => {
                                ret.reads.push((from.clone(), Some(o)));
                                return Ok(());
                            }
                        }
                        w.rename_value(v, to.0.clone());
                    }
                }
            }
            Item::RenameSlot { slot, to } => {
                if let Some(Slot::Rust(vals)) = self.slots.get(slot) {
                    if let Some((_, sv)) = vals.first() {
                        let obs = read_value(sv, Style::ReadAt(4096))?;
                        match obs {
                            Obs::Val { vid, .. } => ret.renames.push((i, Some(vid), false)),
                            Obs::Empty { .. } => ret.renames.push((i, None, true)),
                            o => {
                                ret.reads.push((to.clone(), Some(o)));
                                return Ok(());
                            }
                        }
                        let v: Value = **sv;
                        w.rename_value(v, to.0.clone());
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn part_obs(off: u64, want: u32, got: usize, b: &[u8], last_used_ms: Option<i64>) -> Obs {
    if got > b.len() {
        return Obs::Corrupt { desc: format!("{} bytes returned into a buffer of {}", got, b.len()) };
    }
    match identify_at(off as usize, &b[..got]) {
        Ok(vid) => Obs::Part { vid, off: off as u64, want: want as u64, got: got as u64, last_used_ms },
        Err(desc) => Obs::Corrupt { desc },
    }
}

fn open_source(vid: Vid, pos: u32, missing: bool) -> anyhow::Result<std::fs::File> {
    use std::io::Seek;
    let mut f = std::fs::File::open(format!("/simfs/src/{}", vid))?;
    f.seek(io::SeekFrom::Start(pos as u64))?;
    if missing {
        // A source that can be opened but neither read nor cloned.
        f = std::fs::OpenOptions::new().write(true).open(format!("/simfs/src/{}", vid))?;
    }
    Ok(f)
}

fn sparse(file: u8, edits: &[Edit]) -> anyhow::Result<()> {
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(format!("/simfs/src/sparse-{}", file))?;
    for e in edits {
        match e {
            Edit::Write { off, len } => f.write_all_at(&vec![7; *len as usize], *off)?,
            Edit::Punch { off, len } => possum::sys::punchfile(&f, (*off).try_into()?, (*len).try_into()?)?,
            Edit::Grow { len } => {
                if f.metadata()?.len() < *len {
                    f.set_len(*len)?
                }
            }
        }
    }
    Ok(())
}

/// The regions go to `list`, the walk of each file followed by an end mark.
fn regions(file: Option<u8>, lazy: bool, ret: &mut Ret) -> anyhow::Result<()> {
    use possum::sys::seekhole::{file_regions, Iter, RegionType};
    let mut files = vec![];
    match file {
        Some(n) => files.push(PathBuf::from(format!("/simfs/src/sparse-{}", n))),
        None => {
            for e in std::fs::read_dir(with_node(|n| n.dir.clone()))? {
                let e = e?;
                if e.file_name().to_string_lossy().starts_with("values-") {
                    files.push(e.path());
                }
            }
        }
    }
    for path in files {
        let mut f = match std::fs::File::open(&path) {
            Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
            default => default?,
        };
        let mut list = vec![];
        let res = if lazy {
            let mut res = Ok(());
            // More regions than there can be: the walk does not end.
            for r in Iter::new(&mut f).take(500) {
                match r {
                    Ok(r) => list.push(r),
                    Err(e) => {
                        res = Err(e.into());
                        break;
                    }
                }
            }
            res
        } else {
            file_regions(&mut f).map(|l| list = l)
        };
        let out = ret.list.get_or_insert_default();
        for r in list {
            let t: &[u8] = if matches!(r.region_type, RegionType::Data) { b"data" } else { b"hole" };
            out.push((K::new(t), r.start, r.end as i64));
        }
        res?;
        out.push((K::new(b"end"), 0, 0));
    }
    Ok(())
}

fn drop_handle(h: H, capi: bool) {
    if capi {
        capi::drop_handle(h)
    } else {
        drop(h)
    }
}

fn manifest() -> PathBuf {
    with_node(|n| n.dir.join("manifest.db"))
}

fn fsck(ret: &mut Ret) -> anyhow::Result<()> {
    let conn = rusqlite::Connection::open(manifest())?;
    let mode: String = conn.pragma_query_value(None, "journal_mode", |r| r.get(0))?;
    let ver: i64 = conn.pragma_query_value(None, "user_version", |r| r.get(0))?;
    let integrity: String = conn.pragma_query_value(None, "integrity_check", |r| r.get(0))?;
    ret.text = Some(format!("journal_mode={} user_version={} integrity={}", mode, ver, integrity));
    read_rows(&conn, ret)
}

fn rows(ret: &mut Ret) -> anyhow::Result<()> {
    read_rows(&rusqlite::Connection::open(manifest())?, ret)
}

fn read_rows(conn: &rusqlite::Connection, ret: &mut Ret) -> anyhow::Result<()> {
    let tx = conn.unchecked_transaction()?;
    ret.sums = Some(tx.query_row("select value from sums where key='value_length'", [], |r| r.get(0))?);
    let mut st = tx.prepare("select key,file_id,file_offset,value_length,last_used from keys order by key")?;
    let rows = st.query_map([], |r| {
        Ok(FsckRow {
            key: K(r.get(0)?),
            file: r.get::<_, Option<u32>>(1)?,
            off: r.get::<_, Option<u64>>(2)?.unwrap_or(0),
            len: r.get(3)?,
            last_used_ms: r.get(4)?,
        })
    })?;
    for r in rows {
        ret.fsck.push(r?);
    }
    Ok(())
}

fn make_old(version: u32) -> anyhow::Result<()> {
    let conn = rusqlite::Connection::open(manifest())?;
    conn.pragma_update(None, "user_version", version)?;
    Ok(())
}
