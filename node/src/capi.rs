//! The same operations through possum's C interface.
use std::ffi::CString;
use std::time::Duration;

use libc::{c_char, c_void, size_t};

use super::*;

#[repr(C)]
pub struct Buf {
    ptr: *const c_char,
    size: size_t,
}
#[repr(C)]
#[derive(Default, Clone, Copy)]
pub struct Ts {
    secs: i64,
    nanos: u32,
}
#[repr(C)]
#[derive(Default, Clone, Copy)]
pub struct Stat {
    last_used: Ts,
    size: u64,
}
#[repr(C)]
pub struct CItem {
    key: Buf,
    stat: Stat,
}
#[repr(C)]
pub struct CLimits {
    max: u64,
    no_punch: bool,
}

type PH = H;

extern "C" {
    fn possum_new(path: *const c_char) -> *mut PH;
    fn possum_drop(h: *mut PH);
    fn possum_set_instance_limits(h: *mut PH, l: *const CLimits) -> i32;
    fn possum_cleanup_snapshots(h: *const PH) -> i32;
    fn possum_single_write_buf(h: *mut PH, key: Buf, value: Buf) -> size_t;
    fn possum_new_writer(h: *mut PH) -> *mut c_void;
    fn possum_single_stat(h: *const PH, key: Buf, out: *mut Stat) -> bool;
    fn possum_list_items(h: *const PH, prefix: Buf, out: *mut *mut CItem, n: *mut size_t) -> i32;
    fn possum_single_read_at(h: *const PH, key: Buf, buf: *mut Buf, off: u64) -> i32;
    fn possum_single_delete(h: *const PH, key: Buf, stat: *mut Stat) -> i32;
    fn possum_reader_new(h: *const PH, r: *mut *mut c_void) -> i32;
    fn possum_handle_move_prefix(h: *mut PH, from: Buf, to: Buf) -> i32;
    fn possum_handle_delete_prefix(h: *mut PH, p: Buf) -> i32;
    fn possum_start_new_value(w: *mut c_void, v: *mut *mut c_void) -> i32;
    fn possum_value_writer_fd(v: *mut c_void) -> isize;
    fn possum_writer_rename(w: *mut c_void, v: *const c_void, key: Buf) -> i32;
    fn possum_reader_add(r: *mut c_void, key: Buf, v: *mut *const c_void) -> i32;
    fn possum_reader_begin(r: *mut c_void) -> i32;
    fn possum_reader_end(r: *mut c_void);
    fn possum_value_read_at(v: *const c_void, buf: *mut Buf, off: u64) -> i32;
    fn possum_value_stat(v: *const c_void, out: *mut Stat);
    fn possum_reader_list_items(r: *const c_void, p: Buf, out: *mut *mut CItem, n: *mut size_t) -> i32;
    fn possum_writer_commit(w: *mut c_void) -> i32;
    fn possum_writer_stage(w: *mut c_void, key: Buf, v: *mut c_void) -> i32;
}

fn buf(b: &[u8]) -> Buf {
    Buf { ptr: if null(b.len()) { std::ptr::null() } else { b.as_ptr() as _ }, size: b.len() }
}

fn out_buf(b: &mut [u8]) -> Buf {
    Buf { ptr: if null(b.len()) { std::ptr::null_mut() } else { b.as_mut_ptr() as _ }, size: b.len() }
}

/// What is empty is passed the way C and Go programs do: sometimes with a null pointer.
fn null(len: usize) -> bool {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    len == 0 && N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0
}

fn ms(t: Ts) -> i64 {
    t.secs * 1000 + (t.nanos / 1_000_000) as i64
}

pub fn stat_of<T>(s: &T) -> (u64, i64) {
    // PossumStat is not nameable outside the crate, its layout is part of its C interface.
    assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<Stat>());
    let s: Stat = unsafe { std::ptr::read(s as *const T as *const Stat) };
    (s.size, ms(s.last_used))
}

fn err(code: i32) -> Option<(EK, String)> {
    match code {
        0 => None,
        1 => Some((EK::NoSuchKey, "C code NoSuchKey".into())),
        2 => Some((EK::Sqlite, "C code SqliteError".into())),
        3 => Some((EK::Io, "C code IoError".into())),
        c => Some((EK::Other, format!("C code {}", c))),
    }
}

pub fn open(dir: &str) -> anyhow::Result<H> {
    let c = CString::new(dir).unwrap();
    let p = unsafe { possum_new(c.as_ptr()) };
    anyhow::ensure!(!p.is_null(), "possum_new returned null");
    Ok(*unsafe { Box::from_raw(p) })
}

pub fn drop_handle(h: H) {
    unsafe { possum_drop(Box::into_raw(Box::new(h))) }
}

pub fn set_limits(h: &H, max: Option<u64>, no_punch: bool) -> anyhow::Result<()> {
    let l = CLimits { max: max.unwrap_or(u64::MAX), no_punch };
    let mut h = h.clone();
    let c = unsafe { possum_set_instance_limits(&mut h, &l) };
    anyhow::ensure!(c == 0, "set_instance_limits {}", c);
    Ok(())
}

pub struct CReader(*mut c_void);

impl Drop for CReader {
    fn drop(&mut self) {
        unsafe { possum_reader_end(self.0) }
    }
}

fn take_items(items: *mut CItem, n: usize, prefix: &[u8]) -> Vec<(K, u64, i64)> {
    let mut out = vec![];
    for i in 0..n {
        let it = unsafe { &*items.add(i) };
        let mut k = prefix.to_vec();
        k.extend_from_slice(unsafe {
            std::slice::from_raw_parts(
                if it.key.ptr.is_null() { std::ptr::NonNull::dangling().as_ptr() } else { it.key.ptr as *const u8 },
                it.key.size,
            )
        });
        out.push((K(k), it.stat.size, ms(it.stat.last_used)));
        unsafe { libc::free(it.key.ptr as *mut c_void) };
    }
    unsafe { libc::free(items as *mut c_void) };
    out
}

pub fn read_value(v: *const c_void, style: Style) -> anyhow::Result<Obs> {
    let mut st = Stat::default();
    unsafe { possum_value_stat(v, &mut st) };
    let last_used_ms = ms(st.last_used);
    let len = st.size;
    if len > 64 << 20 {
        return Ok(Obs::Corrupt { desc: format!("length {}", len) });
    }
    let piece = match style {
        Style::ReadAt(p) => p.max(1) as usize,
        Style::Read(spare) => len as usize + spare as usize,
        _ => (len as usize).max(1),
    };
    let mut all = vec![];
    let mut zero = 0;
    loop {
        let mut b = vec![0u8; piece.max(1)];
        let mut cb = out_buf(&mut b);
        let c = unsafe { possum_value_read_at(v, &mut cb, all.len() as u64) };
        anyhow::ensure!(c == 0, std::io::Error::new(std::io::ErrorKind::Other, format!("value_read_at {}", c)));
        let n = cb.size;
        if n > b.len() {
            return Ok(Obs::Corrupt { desc: format!("read_at gave {} bytes into {}", n, b.len()) });
        }
        if n == 0 {
            zero += 1;
            if all.len() as u64 >= len || zero > 1 {
                break;
            }
            continue;
        }
        all.extend_from_slice(&b[..n]);
        if all.len() as u64 > len {
            break;
        }
    }
    if all.len() as u64 != len {
        return Ok(Obs::Corrupt { desc: format!("read {} bytes, size {}", all.len(), len) });
    }
    if all.is_empty() {
        return Ok(Obs::Empty { last_used_ms });
    }
    Ok(match identify(&all) {
        Ok(vid) => Obs::Val { vid, len, last_used_ms },
        Err(desc) => Obs::Corrupt { desc },
    })
}

macro_rules! chk {
    ($ret:expr, $c:expr) => {
        if let Some(e) = err($c) {
            $ret.err = Some(e);
            return true;
        }
    };
}

/// Returns false if the operation has no C counterpart.
pub(crate) fn exec(cl: &mut Client, h: &H, op: &Op, ret: &mut Ret) -> bool {
    let mut hh = h.clone();
    let h: *mut PH = &mut hh;
    unsafe {
        match op {
            Op::Put { key, vid, len, .. } => {
                note_value(*vid);
                let data = content(*vid, *len as usize);
                let n = possum_single_write_buf(h, buf(&key.0), buf(&data));
                if n == usize::MAX {
                    ret.err = Some((EK::Other, "single_write_buf failed".into()));
                } else {
                    ret.n = Some(n as u64);
                }
            }
            Op::Delete { key } => {
                let mut st = Stat::default();
                chk!(ret, possum_single_delete(h, buf(&key.0), &mut st));
                ret.stat = Some((st.size, ms(st.last_used)));
            }
            Op::MovePrefix { from, to } => {
                chk!(ret, possum_handle_move_prefix(h, buf(&from.0), buf(&to.0)))
            }
            Op::DeletePrefix { prefix } => {
                chk!(ret, possum_handle_delete_prefix(h, buf(&prefix.0)))
            }
            Op::List { prefix } => {
                let mut items = std::ptr::null_mut();
                let mut n = 0;
                chk!(ret, possum_list_items(h, buf(&prefix.0), &mut items, &mut n));
                ret.list = Some(take_items(items, n, &prefix.0));
            }
            Op::Cleanup => chk!(ret, possum_cleanup_snapshots(h)),
            Op::Stat { key } => {
                let mut st = Stat::default();
                if possum_single_stat(h, buf(&key.0), &mut st) {
                    ret.stat = Some((st.size, ms(st.last_used)));
                } else {
                    ret.reads.push((key.clone(), Some(Obs::Missing)));
                }
            }
            Op::ReadPart { key, off, n } => {
                let mut b = vec![0xaau8; *n as usize];
                let mut cb = out_buf(&mut b);
                let c = possum_single_read_at(h, buf(&key.0), &mut cb, *off);
                if c == 1 {
                    ret.reads.push((key.clone(), Some(Obs::Missing)));
                    return true;
                }
                chk!(ret, c);
                let got = cb.size;
                ret.reads.push((key.clone(), Some(part_obs(*off, *n, got, &b, None))));
            }
            Op::ReadSingle { key, style } => {
                let op = Op::Read {
                    keys: vec![key.clone()],
                    list: None,
                    style: *style,
                    keep: None,
                    begin: true,
                    pause_ms: 0,
                };
                return exec(cl, &hh, &op, ret);
            }
            Op::Read { keys, list, style, keep, begin, pause_ms } => {
                let mut r = std::ptr::null_mut();
                chk!(ret, possum_reader_new(h, &mut r));
                let reader = CReader(r);
                let mut vals = vec![];
                for k in keys {
                    let mut v = std::ptr::null();
                    match possum_reader_add(r, buf(&k.0), &mut v) {
                        1 => vals.push((k.clone(), None)),
                        c => {
                            chk!(ret, c);
                            vals.push((k.clone(), Some(v)));
                        }
                    }
                }
                if let Some(p) = list {
                    let mut items = std::ptr::null_mut();
                    let mut n = 0;
                    chk!(ret, possum_reader_list_items(r, buf(&p.0), &mut items, &mut n));
                    ret.list = Some(take_items(items, n, &p.0));
                }
                if !*begin {
                    ret.list = None;
                    return true;
                }
                chk!(ret, possum_reader_begin(r));
                if *pause_ms > 0 {
                    std::thread::sleep(Duration::from_millis(*pause_ms as u64));
                }
                let mut kept = vec![];
                for (k, v) in vals {
                    match v {
                        None => ret.reads.push((k, Some(Obs::Missing))),
                        Some(v) => {
                            match read_value(v, *style) {
                                Ok(o) => ret.reads.push((k.clone(), Some(o))),
                                Err(e) => {
                                    ret.err = Some(classify(&e));
                                    return true;
                                }
                            }
                            kept.push((k, v));
                        }
                    }
                }
                if let Some(slot) = keep {
                    cl.slots.remove(slot);
                    cl.slots.insert(*slot, Slot::C(reader, kept));
                }
            }
            Op::Batch { items, commit } => {
                let plain = items.iter().all(|i| {
                    matches!(i, Item::Put { .. } | Item::Pause { .. } | Item::RenameKey { .. })
                });
                if !plain || !*commit {
                    return false;
                }
                batch(h, items, ret);
            }
            _ => return false,
        }
    }
    true
}

unsafe fn batch(h: *mut PH, items: &[Item], ret: &mut Ret) {
    let w = possum_new_writer(h);
    for (i, item) in items.iter().enumerate() {
        if let Err((k, t)) = batch_item(h, w, i, item, ret) {
            ret.part_errs.push((i, k, t));
        }
    }
    ret.committing = true;
    if let Some(e) = err(possum_writer_commit(w)) {
        ret.err = Some(e);
    }
}

unsafe fn batch_item(
    h: *mut PH,
    w: *mut c_void,
    i: usize,
    item: &Item,
    ret: &mut Ret,
) -> Result<(), (EK, String)> {
    let ck = |c: i32| match err(c) {
        None => Ok(()),
        Some(e) => Err(e),
    };
    match item {
        Item::Pause { ms } => std::thread::sleep(Duration::from_millis(*ms as u64)),
        Item::Put { key, vid, len, chunks, pause_ms } => {
            note_value(*vid);
            let mut v = std::ptr::null_mut();
            ck(possum_start_new_value(w, &mut v))?;
            let fd = possum_value_writer_fd(v) as i32;
            let data = content(*vid, *len as usize);
            let chunk = (data.len() / (*chunks).max(1) as usize).max(1);
            let mut pos = 0;
            let mut tries = 0;
            while pos < data.len() {
                let n = chunk.min(data.len() - pos);
                let r = libc::write(fd, data[pos..].as_ptr() as _, n);
                if r < 0 {
                    let e = std::io::Error::last_os_error();
                    // The C interface cannot drop a value writer, so go on trying.
                    tries += 1;
                    if e.kind() == std::io::ErrorKind::Interrupted || tries < 500 {
                        continue;
                    }
                    return Err((EK::Io, format!("write: {e}")));
                }
                pos += r as usize;
                if *pause_ms > 0 {
                    std::thread::sleep(Duration::from_millis(*pause_ms as u64));
                }
            }
            ck(possum_writer_stage(w, buf(&key.0), v))?;
            ret.staged.push(*vid);
        }
        Item::RenameKey { from, to } => {
            let mut r = std::ptr::null_mut();
            ck(possum_reader_new(h, &mut r))?;
            let _reader = CReader(r);
            let mut v = std::ptr::null();
            let c = possum_reader_add(r, buf(&from.0), &mut v);
            if c == 1 {
                ret.renames.push((i, None, false));
                return Ok(());
            }
            ck(c)?;
            ck(possum_reader_begin(r))?;
            match read_value(v, Style::View).map_err(|e| classify(&e))? {
                Obs::Val { vid, .. } => ret.renames.push((i, Some(vid), false)),
                Obs::Empty { .. } => ret.renames.push((i, None, true)),
                o => {
                    ret.reads.push((from.clone(), Some(o)));
                    return Ok(());
                }
            }
            ck(possum_writer_rename(w, v, buf(&to.0)))?;
        }
        _ => {}
    }
    Ok(())
}
