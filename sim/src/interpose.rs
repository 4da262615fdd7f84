//! The C library's functions as seen by simulated processes. Calls of simulated threads go to the
//! simulator; everybody else's (the controller's) go to the real kernel or C library.
#![allow(clippy::missing_safety_doc)]
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::AtomicU32;

use crate::fs::*;
use crate::kern::*;
use crate::sys::*;

type Size = usize;
type Ssize = isize;
type Off = i64;

macro_rules! next_fn {
    ($name:literal, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = next(concat!($name, "\0").as_bytes()) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    unsafe { CStr::from_ptr(p).to_bytes() }
}

/// Ends an intercepted call: records the result, sets errno.
fn fin(r: Result<i64, i32>) -> i64 {
    let s = sim();
    match r {
        Ok(v) => {
            s.done(v);
            v
        }
        Err(e) => {
            s.done(-(e as i64));
            set_errno(e);
            -1
        }
    }
}

fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE
}

fn class_at(p: &[u8]) -> FClass {
    let s = sim();
    match s.fs.lookup(p) {
        Ok(i) => s.fs.inodes[&i].class,
        Err(_) => class_of(p),
    }
}

// ---------------------------------------------------------------- files

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let Some(_g) = enter() else {
        return ret(raw(libc::SYS_openat, dirfd as u64, path as u64, flags as u64, mode as u64, 0, 0)) as c_int;
    };
    let p = bytes(path);
    let s = sim();
    if p == b"/dev/urandom" || p == b"/dev/random" {
        s.call(Sys::Rand, FClass::Other, 0);
        let proc = s.th().proc;
        let fd = s.fs.add_fd(OKind::Urandom, flags, proc, FClass::Other);
        s.done(0);
        return fd;
    }
    if p == b"/dev/null" {
        let proc = s.th().proc;
        return s.fs.add_fd(OKind::Null, flags, proc, FClass::Other);
    }
    if !(Fs::is_sim(p) || (simfd(dirfd) && !p.starts_with(b"/"))) {
        if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            s.escapes += 1;
            let t = String::from_utf8_lossy(p).into_owned();
            s.fail("escape", format!("opens {} for writing", t));
            set_errno(libc::EACCES);
            return -1;
        }
        return ret(raw(libc::SYS_openat, dirfd as u64, path as u64, flags as u64, mode as u64, 0, 0)) as c_int;
    }
    let abs = match s.fs.at(dirfd, p) {
        Ok(a) => a,
        Err(e) => {
            set_errno(e);
            return -1;
        }
    };
    let creates = flags & libc::O_CREAT != 0 && s.fs.lookup(&abs).is_err();
    let cls = class_at(&abs);
    let inj = s.call(if creates { Sys::Create } else { Sys::Open }, cls, (flags as u64) ^ fnv(0, &abs) << 32);
    s.tr(|_| format!("  open {} {:#o}", String::from_utf8_lossy(&abs), flags));
    if let Some(Inj::Errno(e)) = inj {
        return fin(Err(e)) as c_int;
    }
    let r = s.fs.open_node(&abs, flags).map(|(ino, created)| {
        let proc = s.th().proc;
        let class = s.fs.inodes[&ino].class;
        if created {
            s.tr(|_| format!("  created ino {}", ino));
        } else if flags & libc::O_TRUNC != 0 {
            s.note_truncated(ino, 0);
        }
        let fd = s.fs.add_fd(OKind::Node(ino), flags, proc, class);
        s.tr(|_| format!("  ino {} fd {}", ino, fd));
        fd as i64
    });
    fin(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            s.call(Sys::Close, c, fd as u64);
            return fin(s.fs.close(fd).map(|_| 0)) as c_int;
        }
    }
    ret(raw(libc::SYS_close, fd as u64, 0, 0, 0, 0, 0)) as c_int
}

fn check_read(flags: i32) -> Result<(), i32> {
    if flags & libc::O_ACCMODE == libc::O_WRONLY {
        Err(libc::EBADF)
    } else {
        Ok(())
    }
}

fn check_write(flags: i32) -> Result<(), i32> {
    if flags & libc::O_ACCMODE == libc::O_RDONLY {
        Err(libc::EBADF)
    } else {
        Ok(())
    }
}

fn cut(n: usize, permille: u32) -> usize {
    ((n as u64 * permille as u64 / 1000) as usize).clamp(1, n.max(1)).min(n)
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, off: Option<u64>) -> i64 {
    let s = sim();
    let c = s.fs.fd_class(fd);
    let inj = s.call(Sys::Read, c, mix(n as u64, off.unwrap_or(u64::MAX)));
    let mut n = n;
    match inj {
        Some(Inj::Errno(e)) => return fin(Err(e)),
        Some(Inj::Short(p)) => n = cut(n, p),
        _ => {}
    }
    let r = (|| {
        let o = s.fs.ofd(fd)?;
        check_read(o.flags)?;
        let pos = off.unwrap_or(o.pos);
        match o.kind {
            OKind::Urandom => {
                rand_fill(buf, n);
                Ok(n as i64)
            }
            OKind::Null => Ok(0),
            OKind::Node(ino) => {
                let mem = s.fs.mem(ino)?;
                let got = m_pread(mem, buf, n, pos)?;
                if off.is_none() {
                    s.fs.ofd(fd)?.pos += got as u64;
                }
                Ok(got as i64)
            }
        }
    })();
    fin(r)
}

unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, off: Option<u64>) -> i64 {
    let s = sim();
    let c = s.fs.fd_class(fd);
    let inj = s.call(Sys::Write, c, mix(n as u64, off.unwrap_or(u64::MAX)));
    let full = n;
    let mut n = n;
    let mut torn = false;
    match inj {
        Some(Inj::Errno(e)) => return fin(Err(e)),
        Some(Inj::Short(p)) => n = cut(n, p),
        Some(Inj::Torn(p)) => {
            n = (n as u64 * p as u64 / 1000) as usize;
            torn = true;
        }
        _ => {}
    }
    let r = (|| {
        let o = s.fs.ofd(fd)?;
        check_write(o.flags)?;
        let (flags, kind_ino) = (
            o.flags,
            match o.kind {
                OKind::Node(i) => i,
                _ => return Ok(full as i64),
            },
        );
        let opos = o.pos;
        let mem = s.fs.mem(kind_ino)?;
        // Linux appends even for pwrite if the descriptor has O_APPEND.
        let pos = if flags & libc::O_APPEND != 0 { m_size(mem) } else { off.unwrap_or(opos) };
        let put = if n == 0 { 0 } else { m_pwrite(mem, buf, n, pos)? };
        if off.is_none() {
            s.fs.ofd(fd)?.pos = pos + put as u64;
        }
        if c == FClass::Values && put > 0 {
            s.note_write(kind_ino, pos, put as u64);
        }
        Ok(put as i64)
    })();
    if torn {
        s.tr(|_| format!("  torn after {:?} of {}", r, full));
        s.die();
    }
    fin(r)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: Size) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return do_read(fd, buf as *mut u8, n, None) as Ssize;
        }
    }
    ret(raw(libc::SYS_read, fd as u64, buf as u64, n as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: Size, off: Off) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return do_read(fd, buf as *mut u8, n, Some(off as u64)) as Ssize;
        }
    }
    ret(raw(libc::SYS_pread64, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as Ssize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: Size, off: Off) -> Ssize {
    pread64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: Size) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return do_write(fd, buf as *const u8, n, None) as Ssize;
        }
    } else if fd > 2 && is_sim_thread() {
        set_errno(libc::EBADF);
        return -1;
    }
    ret(raw(libc::SYS_write, fd as u64, buf as u64, n as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: Size, off: Off) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return do_write(fd, buf as *const u8, n, Some(off as u64)) as Ssize;
        }
    } else if is_sim_thread() {
        set_errno(libc::EBADF);
        return -1;
    }
    ret(raw(libc::SYS_pwrite64, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as Ssize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: Size, off: Off) -> Ssize {
    pwrite64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let mut all = vec![];
            for v in std::slice::from_raw_parts(iov, n as usize) {
                if v.iov_len > 0 {
                    all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); // iov_len > 0 checked
                }
            }
            return do_write(fd, all.as_ptr(), all.len(), None) as Ssize;
        }
    }
    ret(raw(libc::SYS_writev, fd as u64, iov as u64, n as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> Ssize {
    if simfd(fd) {
        if let Some(_g) = enter() {
            for v in std::slice::from_raw_parts(iov, n as usize) {
                if v.iov_len > 0 {
                    return do_read(fd, v.iov_base as *mut u8, v.iov_len, None) as Ssize;
                }
            }
            return 0;
        }
    }
    ret(raw(libc::SYS_readv, fd as u64, iov as u64, n as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: Off, whence: c_int) -> Off {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            let inj = s.call(Sys::Seek, c, mix(off as u64, whence as u64));
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e));
            }
            let r = (|| {
                let ino = s.fs.fd_ino(fd)?;
                let mem = s.fs.mem(ino)?;
                let cur = s.fs.ofd(fd)?.pos as i64;
                let new = match whence {
                    libc::SEEK_SET => off,
                    libc::SEEK_CUR => cur + off,
                    libc::SEEK_END => m_size(mem) as i64 + off,
                    libc::SEEK_DATA | libc::SEEK_HOLE => m_seek(mem, off as u64, whence)? as i64,
                    _ => return Err(libc::EINVAL),
                };
                if new < 0 {
                    return Err(libc::EINVAL);
                }
                s.fs.ofd(fd)?.pos = new as u64;
                Ok(new)
            })();
            return fin(r);
        }
    }
    ret(raw(libc::SYS_lseek, fd as u64, off as u64, whence as u64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: Off, whence: c_int) -> Off {
    lseek64(fd, off, whence)
}

fn stat_of(ino: u64) -> libc::stat {
    let s = sim();
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let n = &s.fs.inodes[&ino];
    st.st_ino = ino;
    st.st_dev = 77;
    st.st_nlink = n.nlink as u64;
    st.st_blksize = s.fs.cfg.block_size as i64;
    match n.kind {
        Kind::Dir(_) => {
            st.st_mode = libc::S_IFDIR | 0o755;
            st.st_size = 4096;
        }
        Kind::File { mem } => {
            let mut real: libc::stat = unsafe { std::mem::zeroed() };
            unsafe { raw(libc::SYS_fstat, mem as u64, &mut real as *mut _ as u64, 0, 0, 0, 0) };
            st.st_mode = libc::S_IFREG | 0o644;
            st.st_size = real.st_size;
            st.st_blocks = real.st_blocks;
        }
    }
    st.st_mtime = 1_700_000_000;
    st
}

fn dev_stat() -> libc::stat {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    st.st_mode = libc::S_IFCHR | 0o666;
    st
}

fn fstat_sim(fd: c_int) -> Result<libc::stat, i32> {
    let s = sim();
    let c = s.fs.fd_class(fd);
    if let Some(Inj::Errno(e)) = s.call(Sys::Stat, c, fd as u64) {
        return Err(e);
    }
    match s.fs.ofd(fd)?.kind {
        OKind::Node(i) => Ok(stat_of(i)),
        _ => Ok(dev_stat()),
    }
}

fn stat_sim(abs: &[u8]) -> Result<libc::stat, i32> {
    let s = sim();
    if let Some(Inj::Errno(e)) = s.call(Sys::Stat, class_at(abs), fnv(0, abs)) {
        return Err(e);
    }
    Ok(stat_of(s.fs.lookup(abs)?))
}

unsafe fn fin_stat(r: Result<libc::stat, i32>, out: *mut libc::stat) -> c_int {
    fin(r.map(|st| {
        *out = st;
        0
    })) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return fin_stat(fstat_sim(fd), st);
        }
    }
    ret(raw(libc::SYS_fstat, fd as u64, st as u64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    fstat64(fd, st)
}

unsafe fn do_fstatat(d: c_int, path: *const c_char, st: *mut libc::stat, flags: c_int) -> c_int {
    let p = bytes(path);
    if Fs::is_sim(p) || (simfd(d) && !p.starts_with(b"/")) {
        if let Some(_g) = enter() {
            if p.is_empty() {
                return fin_stat(fstat_sim(d), st);
            }
            let s = sim();
            return match s.fs.at(d, p) {
                Ok(abs) => fin_stat(stat_sim(&abs), st),
                Err(e) => fin(Err(e)) as c_int,
            };
        }
    }
    ret(raw(libc::SYS_newfstatat, d as u64, path as u64, st as u64, flags as u64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat) -> c_int {
    do_fstatat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, st: *mut libc::stat, flags: c_int) -> c_int {
    do_fstatat(d, path, st, flags)
}

unsafe fn do_statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if path.is_null() {
        return ret(-libc::EFAULT as i64) as c_int;
    }
    let p = bytes(path);
    if (!p.is_empty() && Fs::is_sim(p)) || simfd(d) {
        if let Some(_g) = enter() {
            let s = sim();
            let r = if p.is_empty() {
                fstat_sim(d)
            } else {
                match s.fs.at(d, p) {
                    Ok(abs) => stat_sim(&abs),
                    Err(e) => Err(e),
                }
            };
            return fin(r.map(|st| {
                let mut x: libc::statx = std::mem::zeroed();
                x.stx_mask = libc::STATX_BASIC_STATS;
                x.stx_blksize = st.st_blksize as u32;
                x.stx_nlink = st.st_nlink as u32;
                x.stx_mode = st.st_mode as u16;
                x.stx_ino = st.st_ino;
                x.stx_size = st.st_size as u64;
                x.stx_blocks = st.st_blocks as u64;
                x.stx_dev_minor = 77;
                x.stx_mtime.tv_sec = st.st_mtime;
                *out = x;
                0
            })) as c_int;
        }
    }
    ret(raw(libc::SYS_statx, d as u64, path as u64, flags as u64, mask as u64, out as u64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    do_statx(d, path, flags, mask, out)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    let p = bytes(path);
    if let Some(_g) = enter() {
        if !Fs::is_sim(p) {
            set_errno(libc::ENOENT);
            return -1;
        }
        let s = sim();
        let abs = Fs::abs(p);
        s.call(Sys::Stat, class_at(&abs), fnv(1, &abs));
        return fin(s.fs.lookup(&abs).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_access, path as u64, mode as u64, 0, 0, 0, 0)) as c_int
}

/// Calls that change the tree. `None`: not a simulated thread.
unsafe fn tree(
    path: *const c_char,
    sys: Sys,
    d: c_int,
    f: impl FnOnce(&mut Sim, &[u8]) -> Result<i64, i32>,
) -> Option<i64> {
    let _g = enter()?;
    let s = sim();
    let p = bytes(path);
    if !(Fs::is_sim(p) || (simfd(d) && !p.starts_with(b"/"))) {
        s.escapes += 1;
        let t = String::from_utf8_lossy(p).into_owned();
        s.fail("escape", format!("{:?} {}", sys, t));
        set_errno(libc::EACCES);
        return Some(-1);
    }
    let abs = match s.fs.at(d, p) {
        Ok(a) => a,
        Err(e) => return Some(fin(Err(e))),
    };
    let c = class_at(&abs);
    let inj = s.call(sys, c, fnv(0, &abs));
    s.tr(|_| format!("  {:?} {}", sys, String::from_utf8_lossy(&abs)));
    if let Some(Inj::Errno(e)) = inj {
        return Some(fin(Err(e)));
    }
    let r = f(s, &abs);
    Some(fin(r))
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    tree(path, Sys::Mkdir, libc::AT_FDCWD, |s, p| s.fs.mkdir(p).map(|_| 0))
        .unwrap_or_else(|| ret(raw(libc::SYS_mkdir, path as u64, mode as u64, 0, 0, 0, 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    tree(path, Sys::Rmdir, libc::AT_FDCWD, |s, p| s.fs.rmdir(p).map(|_| 0))
        .unwrap_or_else(|| ret(raw(libc::SYS_rmdir, path as u64, 0, 0, 0, 0, 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    tree(path, Sys::Unlink, libc::AT_FDCWD, |s, p| s.unlink(p))
        .unwrap_or_else(|| ret(raw(libc::SYS_unlink, path as u64, 0, 0, 0, 0, 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    let dir = flags & libc::AT_REMOVEDIR != 0;
    tree(path, if dir { Sys::Rmdir } else { Sys::Unlink }, d, |s, p| {
        if dir {
            s.fs.rmdir(p).map(|_| 0)
        } else {
            s.unlink(p)
        }
    })
    .unwrap_or_else(|| ret(raw(libc::SYS_unlinkat, d as u64, path as u64, flags as u64, 0, 0, 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let to = bytes(b);
    tree(a, Sys::Rename, libc::AT_FDCWD, |s, p| {
        if !Fs::is_sim(to) {
            return Err(libc::EXDEV);
        }
        s.fs.rename(p, &Fs::abs(to)).map(|_| 0)
    })
    .unwrap_or_else(|| ret(raw(libc::SYS_rename, a as u64, b as u64, 0, 0, 0, 0))) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: Off) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            let inj = s.call(Sys::Trunc, c, n as u64);
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            let r = (|| {
                check_write(s.fs.ofd(fd)?.flags).map_err(|_| libc::EINVAL)?;
                let ino = s.fs.fd_ino(fd)?;
                m_truncate(s.fs.mem(ino)?, n as u64)?;
                s.note_truncated(ino, n as u64);
                Ok(0)
            })();
            return fin(r) as c_int;
        }
    } else if is_sim_thread() {
        set_errno(libc::EBADF);
        return -1;
    }
    ret(raw(libc::SYS_ftruncate, fd as u64, n as u64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: Off) -> c_int {
    ftruncate64(fd, n)
}

#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: Off, len: Off) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            let inj = s.call(Sys::Punch, c, mix(off as u64, len as u64));
            s.tr(|_| format!("  fallocate mode {} off {} len {}", mode, off, len));
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            let r = (|| {
                check_write(s.fs.ofd(fd)?.flags)?;
                if off < 0 || len <= 0 {
                    return Err(libc::EINVAL);
                }
                let ino = s.fs.fd_ino(fd)?;
                let mem = s.fs.mem(ino)?;
                let r = raw(libc::SYS_fallocate, mem as u64, mode as u64, off as u64, len as u64, 0, 0);
                if r < 0 {
                    return Err(-r as i32);
                }
                if mode & libc::FALLOC_FL_PUNCH_HOLE != 0 {
                    s.note_punched(ino, off as u64, len as u64);
                }
                Ok(0)
            })();
            return fin(r) as c_int;
        }
    }
    ret(raw(libc::SYS_fallocate, fd as u64, mode as u64, off as u64, len as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: Off, len: Off) -> c_int {
    fallocate64(fd, mode, off, len)
}

unsafe fn simple_fd(fd: c_int, sys: Sys, nr: i64, a: u64, b: u64) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            if let Some(Inj::Errno(e)) = s.call(sys, c, 0) {
                return fin(Err(e)) as c_int;
            }
            return fin(s.fs.fd_ofd(fd).map(|_| 0)) as c_int;
        }
    }
    ret(raw(nr, fd as u64, a, b, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    simple_fd(fd, Sys::Sync, libc::SYS_fsync, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    simple_fd(fd, Sys::Sync, libc::SYS_fdatasync, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    simple_fd(fd, Sys::Misc, libc::SYS_fchmod, mode as u64, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, a: c_uint, b: c_uint) -> c_int {
    simple_fd(fd, Sys::Misc, libc::SYS_fchown, a as u64, b as u64)
}

#[no_mangle]
pub unsafe extern "C" fn utimes(path: *const c_char, t: *const libc::timeval) -> c_int {
    if enter().is_some() {
        return 0;
    }
    ret(raw(libc::SYS_utimes, path as u64, t as u64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    if enter().is_some() {
        return 0;
    }
    ret(raw(libc::SYS_chmod, path as u64, mode as u64, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- directories

const DIR_TAG: usize = 0x7a00_0000_0000_0000;

fn is_dirp(p: *mut libc::DIR) -> bool {
    (p as usize) & DIR_TAG == DIR_TAG
}

unsafe fn open_stream(fd: c_int) -> *mut libc::DIR {
    let s = sim();
    let inj = s.call(Sys::ReadDir, FClass::Dir, fd as u64);
    let r = match inj {
        Some(Inj::Errno(e)) => Err(e),
        _ => s.fs.fd_ino(fd).and_then(|i| s.fs.list(i)),
    };
    match r {
        Ok(names) => {
            s.next_dir += 1;
            let id = DIR_TAG | s.next_dir;
            s.dirstreams.insert(id, Box::new(DirStream { fd, names, at: 0, buf: std::mem::zeroed() }));
            s.done(0);
            id as *mut libc::DIR
        }
        Err(e) => {
            fin(Err(e));
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if is_sim_thread() && Fs::is_sim(bytes(path)) {
        let fd = do_open(libc::AT_FDCWD, path, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
        if fd < 0 {
            return std::ptr::null_mut();
        }
        let Some(_g) = enter() else { unreachable!() };
        return open_stream(fd);
    }
    next_fn!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(path)
}

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if simfd(fd) {
        if let Some(_g) = enter() {
            return open_stream(fd);
        }
    }
    next_fn!("fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR)(fd)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if is_dirp(d) {
        let _g = enter();
        let s = sim();
        s.call(Sys::ReadDir, FClass::Dir, 1);
        let r = s.dirstreams.get_mut(&(d as usize)).unwrap();
        if r.at >= r.names.len() {
            s.done(0);
            return std::ptr::null_mut();
        }
        let (name, ino, ty) = r.names[r.at].clone();
        r.at += 1;
        r.buf.d_ino = ino;
        r.buf.d_type = ty;
        r.buf.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        r.buf.d_off = r.at as i64;
        for (i, b) in name.iter().chain(std::iter::once(&0)).enumerate() {
            r.buf.d_name[i] = *b as c_char;
        }
        let p = &mut r.buf as *mut _;
        s.done(ino as i64);
        return p;
    }
    next_fn!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if is_dirp(d) {
        let _g = enter();
        let s = sim();
        s.call(Sys::Close, FClass::Dir, 0);
        let r = s.dirstreams.remove(&(d as usize)).unwrap();
        return fin(s.fs.close(r.fd).map(|_| 0)) as c_int;
    }
    next_fn!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if is_dirp(d) {
        return sim().dirstreams[&(d as usize)].fd;
    }
    next_fn!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let p = bytes(path);
    if Fs::is_sim(p) {
        if let Some(_g) = enter() {
            let abs = Fs::abs(p);
            if let Err(e) = sim().fs.lookup(&abs) {
                set_errno(e);
                return std::ptr::null_mut();
            }
            let out = if out.is_null() { libc::malloc(abs.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(abs.as_ptr() as *const c_char, out, abs.len());
            *out.add(abs.len()) = 0;
            return out;
        }
    }
    next_fn!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: Size) -> Ssize {
    let p = bytes(path);
    if Fs::is_sim(p) {
        if let Some(_g) = enter() {
            set_errno(match sim().fs.lookup(p) {
                Ok(_) => libc::EINVAL,
                Err(e) => e,
            });
            return -1;
        }
    }
    ret(raw(libc::SYS_readlink, path as u64, buf as u64, n as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: Size) -> *mut c_char {
    if let Some(_g) = enter() {
        if buf.is_null() || n < ROOT.len() + 1 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(ROOT.as_ptr() as *const c_char, buf, ROOT.len());
        *buf.add(ROOT.len()) = 0;
        return buf;
    }
    next_fn!("getcwd", unsafe extern "C" fn(*mut c_char, Size) -> *mut c_char)(buf, n)
}

// ---------------------------------------------------------------- locks and descriptors

fn range(s: &mut Sim, fd: c_int, fl: &libc::flock) -> Result<(u64, u64), i32> {
    let base = match fl.l_whence as i32 {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => s.fs.ofd(fd)?.pos as i64,
        libc::SEEK_END => {
            let ino = s.fs.fd_ino(fd)?;
            m_size(s.fs.mem(ino)?) as i64
        }
        _ => return Err(libc::EINVAL),
    };
    let start = base.checked_add(fl.l_start).ok_or(libc::EOVERFLOW)?;
    let (start, end) = if fl.l_len > 0 {
        (start, start.checked_add(fl.l_len).ok_or(libc::EOVERFLOW)? as u64)
    } else if fl.l_len == 0 {
        (start, u64::MAX)
    } else {
        (start + fl.l_len, start as u64)
    };
    if start < 0 {
        return Err(libc::EINVAL);
    }
    Ok((start as u64, end))
}

unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    if !simfd(fd) {
        return ret(raw(libc::SYS_fcntl, fd as u64, cmd as u64, arg, 0, 0, 0)) as c_int;
    }
    let Some(_g) = enter() else {
        return ret(raw(libc::SYS_fcntl, fd as u64, cmd as u64, arg, 0, 0, 0)) as c_int;
    };
    let s = sim();
    let c = s.fs.fd_class(fd);
    match cmd {
        libc::F_GETFD | libc::F_SETFD | libc::F_SETFL => fin(s.fs.fd_ofd(fd).map(|_| 0)) as c_int,
        libc::F_GETFL => fin(s.fs.ofd(fd).map(|o| o.flags as i64)) as c_int,
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let inj = s.call(Sys::Misc, c, 2);
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            fin(s.fs.dup(fd).map(|f| f as i64)) as c_int
        }
        libc::F_SETLK | libc::F_SETLKW | libc::F_OFD_SETLK | libc::F_OFD_SETLKW => {
            let fl = *(arg as *const libc::flock);
            let block = cmd == libc::F_SETLKW || cmd == libc::F_OFD_SETLKW;
            let ofd = cmd == libc::F_OFD_SETLK || cmd == libc::F_OFD_SETLKW;
            let unlock = fl.l_type as i32 == libc::F_UNLCK;
            let rg = range(s, fd, &fl);
            let a = rg.map(|(a, b)| mix(a, b)).unwrap_or(0);
            let inj = s.call(
                if unlock { Sys::Unlock } else { Sys::Lock },
                c,
                mix(a, (cmd as u64) << 8 | fl.l_type as u64),
            );
            s.tr(|_| format!("  lock cmd {} type {} {:?}", cmd, fl.l_type, rg));
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            let r = (|| {
                let (start, end) = rg?;
                if ofd && fl.l_pid != 0 {
                    return Err(libc::EINVAL);
                }
                let o = s.fs.fd_ofd(fd)?;
                let owner = if ofd { Owner::Ofd(o) } else { Owner::Posix(s.th().proc) };
                let ino = s.fs.fd_ino(fd)?;
                if unlock {
                    s.fs.set_lock(ino, owner, start, end, None);
                    return Ok(0);
                }
                let write = fl.l_type as i32 == libc::F_WRLCK;
                let flags = s.fs.ofd(fd)?.flags;
                if write {
                    check_write(flags)?;
                } else {
                    check_read(flags)?;
                }
                loop {
                    match s.fs.conflict(ino, owner, start, end, write) {
                        None => break,
                        Some(l) => {
                            s.tr(|_| format!("  conflicts with {:?}", l));
                            if !block {
                                return Err(libc::EAGAIN);
                            }
                            s.block(Key::Lock(ino), None);
                            s.steps += 1;
                        }
                    }
                }
                s.fs.set_lock(ino, owner, start, end, Some(write));
                Ok(0)
            })();
            fin(r) as c_int
        }
        libc::F_GETLK | libc::F_OFD_GETLK => {
            let fl = &mut *(arg as *mut libc::flock);
            s.call(Sys::GetLk, c, 0);
            let rg = range(s, fd, fl);
            let r = (|| {
                let (start, end) = rg?;
                let o = s.fs.fd_ofd(fd)?;
                let owner =
                    if cmd == libc::F_OFD_GETLK { Owner::Ofd(o) } else { Owner::Posix(s.th().proc) };
                let ino = s.fs.fd_ino(fd)?;
                let write = fl.l_type as i32 == libc::F_WRLCK;
                match s.fs.conflict(ino, owner, start, end, write) {
                    None => fl.l_type = libc::F_UNLCK as i16,
                    Some(l) => {
                        fl.l_type = (if l.write { libc::F_WRLCK } else { libc::F_RDLCK }) as i16;
                        fl.l_whence = libc::SEEK_SET as i16;
                        fl.l_start = l.start as i64;
                        fl.l_len = if l.end == u64::MAX { 0 } else { (l.end - l.start) as i64 };
                        fl.l_pid = match l.owner {
                            Owner::Posix(p) => s.procs[p].pid,
                            Owner::Ofd(_) => -1,
                        };
                    }
                }
                Ok(fl.l_type as i64)
            })();
            let r = fin(r);
            if r < 0 {
                -1
            } else {
                0
            }
        }
        _ => {
            set_errno(libc::EINVAL);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if simfd(fd) {
        return do_fcntl(fd, libc::F_DUPFD, 0);
    }
    ret(raw(libc::SYS_dup, fd as u64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            let unlock = op & libc::LOCK_UN != 0;
            let inj = s.call(if unlock { Sys::Unlock } else { Sys::Lock }, c, op as u64);
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            let r = (|| {
                let o = s.fs.fd_ofd(fd)?;
                let ino = s.fs.fd_ino(fd)?;
                if unlock {
                    s.fs.set_flock(ino, o, None);
                    return Ok(0);
                }
                let ex = op & libc::LOCK_EX != 0;
                // Converting a lock is not atomic: the old one goes first.
                let had = s.fs.inodes[&ino].flocks.iter().find(|l| l.0 == o).copied();
                if had.is_some_and(|h| h.1 == ex) {
                    return Ok(0);
                }
                if s.fs.flock_conflict(ino, o, ex) {
                    if op & libc::LOCK_NB != 0 {
                        if had.is_some() {
                            s.fs.set_flock(ino, o, None);
                        }
                        return Err(libc::EAGAIN);
                    }
                    s.fs.set_flock(ino, o, None);
                    s.wake_locks();
                    while s.fs.flock_conflict(ino, o, ex) {
                        s.block(Key::Lock(ino), None);
                        s.steps += 1;
                    }
                }
                s.fs.set_flock(ino, o, Some(ex));
                Ok(0)
            })();
            return fin(r) as c_int;
        }
    }
    ret(raw(libc::SYS_flock, fd as u64, op as u64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: u64) -> c_int {
    if simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            if req as u32 as u64 != libc::FICLONE as u32 as u64 {
                set_errno(libc::ENOTTY);
                return -1;
            }
            let src = arg as c_int;
            let sc = s.fs.fd_class(src);
            // The class of the source tells imports, snapshots and probes apart.
            let fc = match (sc, c) {
                (FClass::Src, _) => FClass::Src,
                (_, FClass::Snap) => FClass::Snap,
                _ => FClass::Other,
            };
            let inj = s.call(Sys::Clone, fc, src as u64);
            if let Some(Inj::Errno(e)) = inj {
                return fin(Err(e)) as c_int;
            }
            let r = (|| {
                let si = s.fs.fd_ino(src)?;
                let di = s.fs.fd_ino(fd)?;
                check_read(s.fs.ofd(src)?.flags)?;
                check_write(s.fs.ofd(fd)?.flags)?;
                if s.fs.ofd(fd)?.flags & libc::O_APPEND != 0 {
                    return Err(libc::EBADF);
                }
                match s.fs.cfg.clone {
                    CloneMode::Yes => {}
                    CloneMode::No => return Err(libc::EOPNOTSUPP),
                    CloneMode::CrossDevice if sc == FClass::Src => return Err(libc::EXDEV),
                    CloneMode::CrossDevice => {}
                }
                s.fs.clone_data(si, di)?;
                if c == FClass::Values {
                    let n = m_size(s.fs.mem(di)?);
                    if n > 0 {
                        s.note_write(di, 0, n);
                    }
                }
                s.tr(|_| format!("  clone ino {} -> {}", si, di));
                Ok(0)
            })();
            return fin(r) as c_int;
        }
    }
    ret(raw(libc::SYS_ioctl, fd as u64, req, arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if simfd(fd) {
        set_errno(libc::ENOTTY);
        return 0;
    }
    next_fn!("isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}

unsafe fn do_mmap(addr: *mut c_void, len: Size, prot: c_int, flags: c_int, fd: c_int, off: Off) -> *mut c_void {
    if flags & libc::MAP_ANONYMOUS == 0 && simfd(fd) {
        if let Some(_g) = enter() {
            let s = sim();
            let c = s.fs.fd_class(fd);
            let inj = s.call(Sys::Mmap, c, mix(len as u64, off as u64));
            if let Some(Inj::Errno(e)) = inj {
                fin(Err(e));
                return libc::MAP_FAILED;
            }
            let r = (|| {
                let o = s.fs.ofd(fd)?;
                check_read(o.flags).map_err(|_| libc::EACCES)?;
                if prot & libc::PROT_WRITE != 0 && flags & libc::MAP_SHARED != 0 {
                    check_write(o.flags).map_err(|_| libc::EACCES)?;
                }
                let ino = s.fs.fd_ino(fd)?;
                let mem = s.fs.mem(ino)?;
                let r = raw(libc::SYS_mmap, addr as u64, len as u64, prot as u64, flags as u64, mem as u64, off as u64);
                if (-4095..0).contains(&r) {
                    return Err(-r as i32);
                }
                Ok(r)
            })();
            return match r {
                Ok(p) => {
                    s.done(0);
                    p as *mut c_void
                }
                Err(e) => {
                    fin(Err(e));
                    libc::MAP_FAILED
                }
            };
        }
    }
    let r = raw(libc::SYS_mmap, addr as u64, len as u64, prot as u64, flags as u64, fd as u64, off as u64);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return libc::MAP_FAILED;
    }
    r as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: Size, prot: c_int, flags: c_int, fd: c_int, off: Off) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: Size, prot: c_int, flags: c_int, fd: c_int, off: Off) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}

unsafe fn do_copy(fd_in: c_int, off_in: *mut Off, fd_out: c_int, off_out: *mut Off, len: Size, sendfile: bool) -> Ssize {
    let Some(_g) = enter() else {
        let r = if sendfile {
            raw(libc::SYS_sendfile, fd_out as u64, fd_in as u64, off_in as u64, len as u64, 0, 0)
        } else {
            raw(libc::SYS_copy_file_range, fd_in as u64, off_in as u64, fd_out as u64, off_out as u64, len as u64, 0)
        };
        return ret(r) as Ssize;
    };
    let s = sim();
    let c = s.fs.fd_class(fd_out);
    let inj = s.call(Sys::Write, c, len as u64);
    let mut len = len.min(1 << 20);
    match inj {
        Some(Inj::Errno(e)) => return fin(Err(e)) as Ssize,
        Some(Inj::Short(p)) => len = cut(len, p),
        _ => {}
    }
    let r = (|| {
        let fo = s.fs.ofd(fd_out)?.flags;
        if fo & libc::O_APPEND != 0 {
            return Err(if sendfile { libc::EINVAL } else { libc::EBADF });
        }
        check_write(fo)?;
        let i = s.fs.ofd(fd_in)?;
        check_read(i.flags)?;
        let ip = if off_in.is_null() { i.pos } else { *off_in as u64 };
        let (ii, oi) = (s.fs.fd_ino(fd_in)?, s.fs.fd_ino(fd_out)?);
        let op = if off_out.is_null() { s.fs.ofd(fd_out)?.pos } else { *off_out as u64 };
        let mut b = vec![0u8; len];
        let n = m_pread(s.fs.mem(ii)?, b.as_mut_ptr(), len, ip)?;
        let n = m_pwrite(s.fs.mem(oi)?, b.as_ptr(), n, op)?;
        if c == FClass::Values && n > 0 {
            s.note_write(oi, op, n as u64);
        }
        if off_in.is_null() {
            s.fs.ofd(fd_in)?.pos += n as u64;
        } else {
            *off_in += n as i64;
        }
        if off_out.is_null() {
            s.fs.ofd(fd_out)?.pos += n as u64;
        } else {
            *off_out += n as i64;
        }
        Ok(n as i64)
    })();
    if let Some(Inj::Torn(_)) = inj {
        s.die();
    }
    fin(r) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut Off, b: c_int, bo: *mut Off, n: Size, _flags: c_uint) -> Ssize {
    do_copy(a, ao, b, bo, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut Off, n: Size) -> Ssize {
    do_copy(inp, off, out, std::ptr::null_mut(), n, true)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut Off, b: c_int, bo: *mut Off, n: Size, flags: c_uint) -> Ssize {
    if enter().is_some() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(libc::SYS_splice, a as u64, ao as u64, b as u64, bo as u64, n as u64, flags as u64)) as Ssize
}

// ---------------------------------------------------------------- time, randomness, identity

fn clock_ns(s: &Sim, clock: c_int) -> i64 {
    match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => s.wall(),
        _ => s.now as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        s.steps += 1;
        s.now += 500;
        let n = clock_ns(s, clock);
        (*ts).tv_sec = n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clock as u64, ts as u64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        s.steps += 1;
        s.now += 500;
        let n = s.wall();
        (*tv).tv_sec = n / 1_000_000_000;
        (*tv).tv_usec = n % 1_000_000_000 / 1000;
        return 0;
    }
    ret(raw(libc::SYS_gettimeofday, tv as u64, tz as u64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

fn do_sleep(ns: i64) {
    let s = sim();
    s.call(Sys::Sleep, FClass::Other, ns as u64);
    if ns > 0 {
        let d = s.now.saturating_add(ns as u64);
        s.block(Key::Sleep, Some(d));
    }
    s.done(0);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(_g) = enter() {
        do_sleep((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec);
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as u64, rem as u64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(_g) = enter() {
        let mut ns = (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec);
        if flags & libc::TIMER_ABSTIME != 0 {
            ns -= clock_ns(sim(), clock);
        }
        do_sleep(ns);
        return 0;
    }
    let r = raw(libc::SYS_clock_nanosleep, clock as u64, flags as u64, req as u64, rem as u64, 0, 0);
    -r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = libc::timespec { tv_sec: us as i64 / 1_000_000, tv_nsec: us as i64 % 1_000_000 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        s.call(Sys::Sleep, FClass::Other, 0);
        // Whoever yields wants others to run.
        let me = s.cur as usize;
        if s.threads.iter().enumerate().any(|(i, t)| i != me && t.state == State::Runnable) {
            let d = s.now + 1000;
            s.block(Key::Sleep, Some(d));
        }
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn rand_fill(buf: *mut u8, n: usize) {
    if n == 0 || buf.is_null() {
        return;
    }
    let s = sim();
    let out = std::slice::from_raw_parts_mut(buf, n);
    // Opening a directory makes up longer names, from the same generator of the thread.
    let weak = s.fs.cfg.weak_ids as u64;
    let client = s.th().client;
    let opens = match client.and_then(|c| s.clients[c as usize].cur) {
        Some(h) => matches!(s.hist[h].op, proto::Op::EnsureOpen | proto::Op::Reopen),
        None => true,
    };
    let mut weak = (weak > 0 && !opens).then(|| Rng::new(77 + s.rng_os.below(weak)));
    for c in out.chunks_mut(8) {
        let r = weak.as_mut().unwrap_or(&mut s.rng_os).next().to_le_bytes();
        c.copy_from_slice(&r[..c.len()]);
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: Size, flags: c_uint) -> Ssize {
    if let Some(_g) = enter() {
        rand_fill(buf as *mut u8, n);
        return n as Ssize;
    }
    ret(raw(libc::SYS_getrandom, buf as u64, n as u64, flags as u64, 0, 0, 0)) as Ssize
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        let p = s.th().proc;
        return s.procs[p].pid;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if let Some(_g) = enter() {
        return 100_000 + sim().cur as c_int;
    }
    raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if TID.with(|t| t.get()) != NONE {
        if bytes(name) == b"POSSUM_EMULATE_FREEBSD" && sim().fs.cfg.flock_mode {
            return c"1".as_ptr() as *mut c_char;
        }
        return std::ptr::null_mut();
    }
    next_fn!("getenv", unsafe extern "C" fn(*const c_char) -> *mut c_char)(name)
}

// ---------------------------------------------------------------- threads

unsafe fn do_futex(addr: *mut u32, op: c_int, val: u32, ts: *const libc::timespec, _uaddr2: u64, _val3: u32) -> i64 {
    let s = sim();
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s.call(Sys::Futex, FClass::Other, 0);
            if (*(addr as *const AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val {
                return fin(Err(libc::EAGAIN));
            }
            let deadline = if ts.is_null() {
                None
            } else {
                let t = (*ts).tv_sec.saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec);
                Some(if cmd == libc::FUTEX_WAIT {
                    s.now.saturating_add(t as u64)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (t - WALL0 - s.wall_off).max(0) as u64
                } else {
                    t as u64
                })
            };
            if s.block(Key::Futex(addr as usize), deadline) {
                fin(Ok(0))
            } else {
                fin(Err(libc::ETIMEDOUT))
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            s.call(Sys::Futex, FClass::Other, 1);
            let n = s.wake(Key::Futex(addr as usize), val as usize);
            fin(Ok(n as i64))
        }
        _ => {
            s.fatal("harness", format!("futex op {}", op));
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if TID.with(|t| t.get()) != NONE && IN.with(|t| t.get()) == 0 {
        match n {
            libc::SYS_futex => {
                let Some(_g) = enter() else { unreachable!() };
                return do_futex(a as *mut u32, b as c_int, c as u32, d as *const libc::timespec, e, f as u32);
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
            libc::SYS_statx => {
                return do_statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long
            }
            libc::SYS_copy_file_range => {
                return do_copy(a as c_int, b as *mut Off, c as c_int, d as *mut Off, e as usize, false) as c_long
            }
            libc::SYS_gettid => return gettid() as c_long,
            libc::SYS_getpid => return getpid() as c_long,
            _ => {
                let Some(_g) = enter() else { unreachable!() };
                sim().fatal("harness", format!("system call {}", n));
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: u32,
}

extern "C" {
    fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}

/// Runs after every other thread-local destructor of the thread.
unsafe extern "C" fn thread_end(_: *mut c_void) {
    IN.with(|i| i.set(1));
    let s = sim();
    let me = s.cur;
    s.tr(|_| "thread ends".to_string());
    s.threads[me as usize].state = State::Done;
    TID.with(|t| t.set(NONE));
    IN.with(|i| i.set(0));
    s.wake(Key::Join(me), usize::MAX);
    s.hand_over(me);
}

pub unsafe fn thread_begin(tid: u32) {
    __cxa_thread_atexit_impl(thread_end, std::ptr::null_mut(), &__dso_handle as *const u8 as *mut c_void);
    sim().threads[tid as usize].gate.pass();
    TID.with(|t| t.set(tid));
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        // The gate first: nothing may touch the simulator before this thread is scheduled.
        let st = p as *mut Start;
        let (f, arg, tid) = ((*st).f, (*st).arg, (*st).tid);
        thread_begin(tid);
        drop(Box::from_raw(st));
        f(arg)
    }
}

type PtCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut c_void) -> *mut c_void,
    *mut c_void,
) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = next_fn!("pthread_create", PtCreate);
    let Some(_g) = enter() else {
        return real(out, attr, f, arg);
    };
    let s = sim();
    let inj = s.call(Sys::Spawn, FClass::Other, 0);
    if let Some(Inj::Errno(e)) = inj {
        return e;
    }
    let proc = s.th().proc;
    let n = s.threads.len();
    let tid = s.add_thread(proc, false, format!("bg{}", n));
    let st = Box::into_raw(Box::new(Start { f, arg, tid }));
    let r = real(out, attr, trampoline, st as *mut c_void);
    if r != 0 {
        s.fatal("harness", format!("pthread_create {}", r));
    }
    s.threads[tid as usize].pt = *out;
    s.tr(|_| format!("  spawned t{}", tid));
    s.done(0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        s.call(Sys::Futex, FClass::Other, 2);
        // Thread handles are reused: take the youngest.
        if let Some(tid) = (0..s.threads.len()).rev().find(|i| s.threads[*i].pt == t) {
            while s.threads[tid].state != State::Done {
                s.block(Key::Join(tid as u32), None);
            }
        }
        s.done(0);
    }
    next_fn!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, out)
}

type MutexFn = unsafe extern "C" fn(*mut libc::pthread_mutex_t) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut libc::pthread_mutex_t) -> c_int {
    let Some(_g) = enter() else {
        return next_fn!("pthread_mutex_lock", MutexFn)(m);
    };
    let try_ = next_fn!("pthread_mutex_trylock", MutexFn);
    // Recursive mutexes work: the owner is the real thread.
    let mut first = true;
    loop {
        let r = try_(m);
        if r != libc::EBUSY {
            return r;
        }
        let s = sim();
        if first {
            s.call(Sys::PMutex, FClass::Other, 0);
            first = false;
            continue;
        }
        s.steps += 1;
        s.block(Key::PMutex(m as usize), None);
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut libc::pthread_mutex_t) -> c_int {
    next_fn!("pthread_mutex_trylock", MutexFn)(m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut libc::pthread_mutex_t) -> c_int {
    let r = next_fn!("pthread_mutex_unlock", MutexFn)(m);
    if let Some(_g) = enter() {
        sim().wake(Key::PMutex(m as usize), usize::MAX);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if let Some(_g) = enter() {
        let s = sim();
        s.fatal("abort", "the process called abort()".into());
    }
    raw(libc::SYS_kill, raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as u64, libc::SIGABRT as u64, 0, 0, 0, 0);
    loop {
        raw(libc::SYS_exit_group, 134, 0, 0, 0, 0, 0);
    }
}

#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if let Some(_g) = enter() {
        let s = sim();
        s.call(Sys::Sleep, FClass::Other, 3);
        s.block(Key::Never, None);
    }
    ret(raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- the harness's own

#[no_mangle]
pub unsafe extern "C" fn simx_next_op(client: u32, ptr: *mut *const u8, len: *mut usize) -> c_int {
    let Some(_g) = enter() else { return 0 };
    match sim().next_op(client) {
        Some((p, n)) => {
            *ptr = p;
            *len = n;
            1
        }
        None => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn simx_ret(client: u32, ptr: *const u8, len: usize) {
    let Some(_g) = enter() else { return };
    let r: proto::Ret = serde_json::from_slice(std::slice::from_raw_parts(ptr, len)).unwrap();
    let s = sim();
    if client == u32::MAX {
        let p = s.th().proc;
        s.tr(|_| format!("OPENED {}", short(&r)));
        s.open_rets.push((p, r));
    } else {
        s.op_ret(client, r);
    }
}

#[no_mangle]
pub unsafe extern "C" fn simx_value(vid: u32) {
    let Some(_g) = enter() else { return };
    sim().th().vid = vid;
}

#[no_mangle]
pub unsafe extern "C" fn simx_yield() {
    let Some(_g) = enter() else { return };
    sim().call(Sys::Harness, FClass::Other, 1);
}

#[no_mangle]
pub unsafe extern "C" fn simx_panic(ptr: *const u8, len: usize) {
    let Some(_g) = enter() else { return };
    let t = String::from_utf8_lossy(std::slice::from_raw_parts(ptr, len)).replace('\n', " ");
    let s = sim();
    s.panicked(t);
}

/// Called by possum's own mutexes when built with cfg(possum_sim).
#[no_mangle]
pub unsafe extern "C" fn possum_sim_yield() {
    let Some(_g) = enter() else { return };
    sim().call(Sys::Mutex, FClass::Other, 0);
}

// ---------------------------------------------------------------- crashes

unsafe extern "C" fn on_signal(sig: c_int, info: *mut libc::siginfo_t, _ctx: *mut c_void) {
    let name = match sig {
        libc::SIGBUS => "SIGBUS",
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "signal",
    };
    if TID.with(|t| t.get()) != NONE && IN.with(|i| i.get()) == 0 {
        IN.with(|i| i.set(1));
        sim().fatal("crash", format!("the process got {}", name));
    }
    let a = (*info).si_addr() as usize;
    let m = format!("simctl: internal {} at {:#x}\n", name, a);
    raw(libc::SYS_write, 2, m.as_ptr() as u64, m.len() as u64, 0, 0, 0);
    raw(libc::SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

pub fn catch_signals() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        for s in [libc::SIGBUS, libc::SIGSEGV, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
