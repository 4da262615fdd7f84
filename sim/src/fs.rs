//! The simulated file system: a tree of directories and files, open file descriptions, descriptors
//! owned by simulated processes, and the three kinds of Linux file locks. The bytes of each file
//! live in a memfd, so that mappings, holes and allocation are those of a real kernel.
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::sys::raw;

pub const ROOT: &[u8] = b"/simfs";
pub const FD_BASE: i32 = 10_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum FClass {
    Values,
    Snap,
    Db,
    Wal,
    Shm,
    Journal,
    Dir,
    Src,
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CloneMode {
    /// FICLONE works (btrfs, xfs)
    Yes,
    /// EOPNOTSUPP
    No,
    /// supported in general, but for source files outside of the store EXDEV
    CrossDevice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FsCfg {
    pub block_size: u32,
    pub clone: CloneMode,
    pub flock_mode: bool,
    /// SQLite's unixClose gives up the process's locks on the manifest if another connection of
    /// the process takes its first one just then (a known finding). Off: its close is atomic.
    #[serde(default)]
    pub sqlite_close_race: bool,
    /// Threads get one of this many sequences of random numbers (0: all differ), so that random
    /// names collide. They have 32 bits, and there can be very many files.
    #[serde(default)]
    pub weak_ids: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Owner {
    Posix(usize),
    Ofd(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Lk {
    pub owner: Owner,
    pub start: u64,
    pub end: u64, // exclusive, u64::MAX for "to the end"
    pub write: bool,
}

pub enum Kind {
    File { mem: i32 },
    Dir(BTreeMap<Vec<u8>, u64>),
}

pub struct Inode {
    pub kind: Kind,
    pub class: FClass,
    pub nlink: u32,
    pub name: Vec<u8>,
    pub locks: Vec<Lk>,
    pub flocks: Vec<(u32, bool)>,
    pub mtime: u64,
}

pub enum OKind {
    Node(u64),
    Urandom,
    Null,
}

pub struct Ofd {
    pub kind: OKind,
    pub flags: i32,
    pub pos: u64,
    pub refs: u32,
    pub proc: usize,
    pub class: FClass,
}

pub struct DirStream {
    pub fd: i32,
    pub names: Vec<(Vec<u8>, u64, u8)>,
    pub at: usize,
    pub buf: libc::dirent64,
}

pub struct Fs {
    pub inodes: BTreeMap<u64, Inode>,
    pub ofds: BTreeMap<u32, Ofd>,
    pub fds: BTreeMap<i32, (u32, usize)>,
    next_ino: u64,
    next_ofd: u32,
    next_fd: i32,
    pub cfg: FsCfg,
    pub dir_order: u64,
    /// inode-lock waiters that may now proceed
    pub woken: Vec<u64>,
}

type R<T> = Result<T, i32>;

pub fn memfd() -> i32 {
    let r = unsafe { raw(libc::SYS_memfd_create, c"f".as_ptr() as u64, 0, 0, 0, 0, 0) };
    assert!(r >= 0, "memfd_create {}", r);
    r as i32
}

pub fn m_size(mem: i32) -> u64 {
    unsafe { raw(libc::SYS_lseek, mem as u64, 0, libc::SEEK_END as u64, 0, 0, 0) as u64 }
}

pub fn m_pread(mem: i32, buf: *mut u8, n: usize, off: u64) -> R<usize> {
    let r = unsafe { raw(libc::SYS_pread64, mem as u64, buf as u64, n as u64, off, 0, 0) };
    if r < 0 {
        Err(-r as i32)
    } else {
        Ok(r as usize)
    }
}

pub fn m_pwrite(mem: i32, buf: *const u8, n: usize, off: u64) -> R<usize> {
    let r = unsafe { raw(libc::SYS_pwrite64, mem as u64, buf as u64, n as u64, off, 0, 0) };
    if r < 0 {
        Err(-r as i32)
    } else {
        Ok(r as usize)
    }
}

pub fn m_read_all(mem: i32) -> Vec<u8> {
    let n = m_size(mem) as usize;
    let mut v = vec![0; n];
    let mut at = 0;
    while at < n {
        match m_pread(mem, v[at..].as_mut_ptr(), n - at, at as u64) {
            Ok(0) | Err(_) => break,
            Ok(k) => at += k,
        }
    }
    v
}

pub fn m_truncate(mem: i32, n: u64) -> R<()> {
    let r = unsafe { raw(libc::SYS_ftruncate, mem as u64, n, 0, 0, 0, 0) };
    if r < 0 {
        Err(-r as i32)
    } else {
        Ok(())
    }
}

pub fn m_seek(mem: i32, off: u64, whence: i32) -> R<u64> {
    let r = unsafe { raw(libc::SYS_lseek, mem as u64, off, whence as u64, 0, 0, 0) };
    if r < 0 {
        Err(-r as i32)
    } else {
        Ok(r as u64)
    }
}

/// The allocated regions of a memfd.
pub fn m_data(mem: i32) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut at = 0;
    while let Ok(d) = m_seek(mem, at, libc::SEEK_DATA) {
        let h = m_seek(mem, d, libc::SEEK_HOLE).unwrap_or_else(|_| m_size(mem));
        v.push((d, h));
        at = h;
    }
    v
}

pub fn class_of(path: &[u8]) -> FClass {
    let mut it = path.rsplit(|c| *c == b'/');
    let base = it.next().unwrap_or(b"");
    let parent = it.next().unwrap_or(b"");
    if base.starts_with(b"values-") {
        if parent.starts_with(b"snapshot-") {
            FClass::Snap
        } else {
            FClass::Values
        }
    } else if base.starts_with(b"manifest.db") {
        match &base[11..] {
            b"" => FClass::Db,
            b"-wal" => FClass::Wal,
            b"-shm" => FClass::Shm,
            b"-journal" => FClass::Journal,
            _ => FClass::Other,
        }
    } else if parent == b"src" {
        FClass::Src
    } else {
        FClass::Other
    }
}

impl Fs {
    pub fn new(cfg: FsCfg) -> Self {
        let mut inodes = BTreeMap::new();
        inodes.insert(
            1,
            Inode {
                kind: Kind::Dir(BTreeMap::new()),
                class: FClass::Dir,
                nlink: 1,
                name: ROOT.to_vec(),
                locks: vec![],
                flocks: vec![],
                mtime: 0,
            },
        );
        Fs {
            inodes,
            ofds: BTreeMap::new(),
            fds: BTreeMap::new(),
            next_ino: 2,
            next_ofd: 1,
            next_fd: FD_BASE,
            cfg,
            dir_order: 0,
            woken: vec![],
        }
    }

    pub fn is_sim(path: &[u8]) -> bool {
        path == ROOT || path.starts_with(b"/simfs/") || !path.starts_with(b"/")
    }

    fn norm(path: &[u8]) -> Vec<Vec<u8>> {
        let rel = if path.starts_with(b"/") { &path[ROOT.len()..] } else { path };
        let mut out: Vec<Vec<u8>> = vec![];
        for c in rel.split(|c| *c == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    out.pop();
                }
                c => out.push(c.to_vec()),
            }
        }
        out
    }

    pub fn abs(path: &[u8]) -> Vec<u8> {
        let mut v = ROOT.to_vec();
        for c in Self::norm(path) {
            v.push(b'/');
            v.extend_from_slice(&c);
        }
        v
    }

    fn walk(&self, from: u64, comps: &[Vec<u8>]) -> R<u64> {
        let mut cur = from;
        for c in comps {
            match &self.inodes[&cur].kind {
                Kind::Dir(m) => cur = *m.get(c).ok_or(libc::ENOENT)?,
                _ => return Err(libc::ENOTDIR),
            }
        }
        Ok(cur)
    }

    pub fn lookup(&self, path: &[u8]) -> R<u64> {
        self.walk(1, &Self::norm(path))
    }

    /// Relative to a directory descriptor, or AT_FDCWD.
    pub fn at(&self, dirfd: i32, path: &[u8]) -> R<Vec<u8>> {
        if path.starts_with(b"/") || dirfd == libc::AT_FDCWD {
            return Ok(Self::abs(path));
        }
        let ino = self.fd_ino(dirfd)?;
        let mut p = self.path_of(ino).ok_or(libc::ENOENT)?;
        if !path.is_empty() {
            p.push(b'/');
            p.extend_from_slice(path);
        }
        Ok(p)
    }

    pub fn path_of(&self, ino: u64) -> Option<Vec<u8>> {
        fn rec(fs: &Fs, cur: u64, path: &mut Vec<u8>, want: u64) -> bool {
            if cur == want {
                return true;
            }
            if let Kind::Dir(m) = &fs.inodes[&cur].kind {
                for (k, v) in m {
                    let n = path.len();
                    path.push(b'/');
                    path.extend_from_slice(k);
                    if rec(fs, *v, path, want) {
                        return true;
                    }
                    path.truncate(n);
                }
            }
            false
        }
        let mut p = ROOT.to_vec();
        rec(self, 1, &mut p, ino).then_some(p)
    }

    fn parent(&self, path: &[u8]) -> R<(u64, Vec<u8>)> {
        let mut c = Self::norm(path);
        let name = c.pop().ok_or(libc::EEXIST)?;
        let d = self.walk(1, &c)?;
        match self.inodes[&d].kind {
            Kind::Dir(_) => Ok((d, name)),
            _ => Err(libc::ENOTDIR),
        }
    }

    fn dir_mut(&mut self, ino: u64) -> &mut BTreeMap<Vec<u8>, u64> {
        match &mut self.inodes.get_mut(&ino).unwrap().kind {
            Kind::Dir(m) => m,
            _ => unreachable!(),
        }
    }

    fn new_inode(&mut self, kind: Kind, class: FClass, name: Vec<u8>) -> u64 {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(
            ino,
            Inode { kind, class, nlink: 1, name, locks: vec![], flocks: vec![], mtime: 0 },
        );
        ino
    }

    /// Creates or opens. Returns the inode and whether it was created.
    pub fn open_node(&mut self, path: &[u8], flags: i32) -> R<(u64, bool)> {
        match self.lookup(path) {
            Ok(ino) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                let is_dir = matches!(self.inodes[&ino].kind, Kind::Dir(_));
                if is_dir && flags & libc::O_ACCMODE != libc::O_RDONLY {
                    return Err(libc::EISDIR);
                }
                if !is_dir && flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_TRUNC != 0 {
                    if let Kind::File { mem } = self.inodes[&ino].kind {
                        m_truncate(mem, 0)?;
                    }
                }
                Ok((ino, false))
            }
            Err(e) if e == libc::ENOENT && flags & libc::O_CREAT != 0 => {
                let (d, name) = self.parent(path)?;
                let ino = self.create_file(d, name, path);
                Ok((ino, true))
            }
            Err(e) => Err(e),
        }
    }

    fn create_file(&mut self, d: u64, name: Vec<u8>, path: &[u8]) -> u64 {
        let ino = self.new_inode(Kind::File { mem: memfd() }, class_of(path), name.clone());
        self.dir_mut(d).insert(name, ino);
        ino
    }

    pub fn add_fd(&mut self, kind: OKind, flags: i32, proc: usize, class: FClass) -> i32 {
        let o = self.next_ofd;
        self.next_ofd += 1;
        self.ofds.insert(o, Ofd { kind, flags, pos: 0, refs: 1, proc, class });
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, (o, proc));
        fd
    }

    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let (o, p) = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        self.ofds.get_mut(&o).unwrap().refs += 1;
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, (o, p));
        Ok(n)
    }

    pub fn fd_ofd(&self, fd: i32) -> R<u32> {
        Ok(self.fds.get(&fd).ok_or(libc::EBADF)?.0)
    }

    pub fn ofd(&mut self, fd: i32) -> R<&mut Ofd> {
        let o = self.fd_ofd(fd)?;
        Ok(self.ofds.get_mut(&o).unwrap())
    }

    pub fn fd_ino(&self, fd: i32) -> R<u64> {
        let o = self.fd_ofd(fd)?;
        match self.ofds[&o].kind {
            OKind::Node(i) => Ok(i),
            _ => Err(libc::EINVAL),
        }
    }

    pub fn fd_class(&self, fd: i32) -> FClass {
        self.fd_ofd(fd).map(|o| self.ofds[&o].class).unwrap_or(FClass::Other)
    }

    pub fn mem(&self, ino: u64) -> R<i32> {
        match self.inodes.get(&ino).ok_or(libc::EBADF)?.kind {
            Kind::File { mem } => Ok(mem),
            Kind::Dir(_) => Err(libc::EISDIR),
        }
    }

    pub fn close(&mut self, fd: i32) -> R<()> {
        let (o, proc) = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        let ino = match self.ofds[&o].kind {
            OKind::Node(i) => Some(i),
            _ => None,
        };
        if let Some(ino) = ino {
            // Closing any descriptor of a file drops all of the process's POSIX locks on it. SQLite
            // (its descriptors have O_NOFOLLOW) sees to it that it holds none then.
            let of = &self.ofds[&o];
            let sqlite = of.class == FClass::Db && of.flags & libc::O_NOFOLLOW != 0;
            let others = self.fds.values().any(|(p, q)| *q == proc && matches!(self.ofds[p].kind, OKind::Node(i) if i == ino));
            let n = self.inodes.get_mut(&ino).unwrap();
            let before = n.locks.len();
            if !(sqlite && others && !self.cfg.sqlite_close_race) {
                n.locks.retain(|l| l.owner != Owner::Posix(proc));
            }
            if n.locks.len() != before {
                self.woken.push(ino);
            }
        }
        let of = self.ofds.get_mut(&o).unwrap();
        of.refs -= 1;
        if of.refs == 0 {
            self.ofds.remove(&o);
            if let Some(ino) = ino {
                let n = self.inodes.get_mut(&ino).unwrap();
                let before = n.locks.len() + n.flocks.len();
                n.locks.retain(|l| l.owner != Owner::Ofd(o));
                n.flocks.retain(|l| l.0 != o);
                if n.locks.len() + n.flocks.len() != before {
                    self.woken.push(ino);
                }
                self.reap(ino);
            }
        }
        Ok(())
    }

    /// Frees an inode with no links and no open descriptions. Its memfd may still be mapped.
    fn reap(&mut self, ino: u64) {
        let n = &self.inodes[&ino];
        if n.nlink > 0 || self.ofds.values().any(|o| matches!(o.kind, OKind::Node(i) if i == ino)) {
            return;
        }
        if let Kind::File { mem } = n.kind {
            unsafe { raw(libc::SYS_close, mem as u64, 0, 0, 0, 0, 0) };
        }
        self.inodes.remove(&ino);
    }

    pub fn kill_proc(&mut self, proc: usize) {
        let fds: Vec<i32> = self.fds.iter().filter(|(_, (_, p))| *p == proc).map(|(f, _)| *f).collect();
        for fd in fds {
            let _ = self.close(fd);
        }
    }

    pub fn unlink(&mut self, path: &[u8]) -> R<u64> {
        let (d, name) = self.parent(path)?;
        let ino = *self.dir_mut(d).get(&name).ok_or(libc::ENOENT)?;
        if matches!(self.inodes[&ino].kind, Kind::Dir(_)) {
            return Err(libc::EISDIR);
        }
        self.dir_mut(d).remove(&name);
        self.inodes.get_mut(&ino).unwrap().nlink -= 1;
        self.reap(ino);
        Ok(ino)
    }

    pub fn rmdir(&mut self, path: &[u8]) -> R<()> {
        let (d, name) = self.parent(path)?;
        let ino = *self.dir_mut(d).get(&name).ok_or(libc::ENOENT)?;
        match &self.inodes[&ino].kind {
            Kind::Dir(m) if m.is_empty() => {}
            Kind::Dir(_) => return Err(libc::ENOTEMPTY),
            _ => return Err(libc::ENOTDIR),
        }
        self.dir_mut(d).remove(&name);
        self.inodes.get_mut(&ino).unwrap().nlink -= 1;
        self.reap(ino);
        Ok(())
    }

    pub fn mkdir(&mut self, path: &[u8]) -> R<()> {
        if Self::norm(path).is_empty() {
            return Err(libc::EEXIST);
        }
        let (d, name) = self.parent(path)?;
        if self.dir_mut(d).contains_key(&name) {
            return Err(libc::EEXIST);
        }
        let ino = self.new_inode(Kind::Dir(BTreeMap::new()), FClass::Dir, name.clone());
        self.dir_mut(d).insert(name, ino);
        Ok(())
    }

    pub fn rename(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        let (d, name) = self.parent(from)?;
        let ino = *self.dir_mut(d).get(&name).ok_or(libc::ENOENT)?;
        let (d2, name2) = self.parent(to)?;
        if let Some(old) = self.dir_mut(d2).get(&name2).copied() {
            if old == ino {
                return Ok(());
            }
            if matches!(self.inodes[&old].kind, Kind::Dir(_)) {
                return Err(libc::EISDIR);
            }
            self.dir_mut(d2).remove(&name2);
            self.inodes.get_mut(&old).unwrap().nlink -= 1;
            self.reap(old);
        }
        self.dir_mut(d).remove(&name);
        self.dir_mut(d2).insert(name2, ino);
        self.inodes.get_mut(&ino).unwrap().class = class_of(to);
        Ok(())
    }

    pub fn list(&self, ino: u64) -> R<Vec<(Vec<u8>, u64, u8)>> {
        let Kind::Dir(m) = &self.inodes[&ino].kind else {
            return Err(libc::ENOTDIR);
        };
        let mut v: Vec<_> = m
            .iter()
            .map(|(k, i)| {
                let t = match self.inodes[i].kind {
                    Kind::Dir(_) => libc::DT_DIR,
                    _ => libc::DT_REG,
                };
                (k.clone(), *i, t)
            })
            .collect();
        // Directory order means nothing: it differs between runs.
        let seed = self.dir_order;
        v.sort_by_key(|(k, _, _)| crate::sys::fnv(0xcbf29ce484222325 ^ seed, k));
        Ok(v)
    }

    // --- locks

    pub fn conflict(&self, ino: u64, owner: Owner, start: u64, end: u64, write: bool) -> Option<Lk> {
        self.inodes[&ino]
            .locks
            .iter()
            .find(|l| l.owner != owner && l.start < end && start < l.end && (write || l.write))
            .copied()
    }

    /// Another live process that has the file locked for reading.
    pub fn shared_lock_of_other(&self, ino: u64, proc: usize) -> Option<usize> {
        let n = self.inodes.get(&ino)?;
        let of_ofd = |o: &u32| self.ofds.get(o).map(|of| of.proc);
        let locks = n.locks.iter().filter(|l| !l.write).filter_map(|l| match &l.owner {
            Owner::Posix(p) => Some(*p),
            Owner::Ofd(o) => of_ofd(o),
        });
        let flocks = n.flocks.iter().filter(|(_, ex)| !ex).filter_map(|(o, _)| of_ofd(o));
        locks.chain(flocks).find(|p| *p != proc)
    }

    /// None unlocks.
    pub fn set_lock(&mut self, ino: u64, owner: Owner, start: u64, end: u64, write: Option<bool>) {
        let n = self.inodes.get_mut(&ino).unwrap();
        let mut out = vec![];
        let mut released = false;
        for l in n.locks.drain(..) {
            if l.owner != owner || l.end <= start || end <= l.start {
                out.push(l);
                continue;
            }
            released = true;
            if l.start < start {
                out.push(Lk { end: start, ..l });
            }
            if end < l.end {
                out.push(Lk { start: end, ..l });
            }
        }
        if let Some(write) = write {
            out.push(Lk { owner, start, end, write });
        }
        n.locks = out;
        if released {
            self.woken.push(ino);
        }
    }

    pub fn flock_conflict(&self, ino: u64, ofd: u32, ex: bool) -> bool {
        self.inodes[&ino].flocks.iter().any(|(o, e)| *o != ofd && (ex || *e))
    }

    pub fn set_flock(&mut self, ino: u64, ofd: u32, ex: Option<bool>) {
        let n = self.inodes.get_mut(&ino).unwrap();
        let before = n.flocks.len();
        n.flocks.retain(|l| l.0 != ofd);
        if n.flocks.len() != before {
            self.woken.push(ino);
        }
        if let Some(ex) = ex {
            n.flocks.push((ofd, ex));
        }
    }

    /// FICLONE: makes dst a copy of src, holes included.
    pub fn clone_data(&mut self, src: u64, dst: u64) -> R<()> {
        let s = self.mem(src)?;
        let d = self.mem(dst)?;
        m_truncate(d, 0)?;
        let size = m_size(s);
        m_truncate(d, size)?;
        for (a, b) in m_data(s) {
            let b = b.min(size);
            let mut buf = vec![0u8; (b - a) as usize];
            let n = m_pread(s, buf.as_mut_ptr(), buf.len(), a)?;
            m_pwrite(d, buf.as_ptr(), n, a)?;
        }
        Ok(())
    }

    /// Harness access, outside of any simulated process.
    pub fn put_file(&mut self, path: &[u8], data: &[u8]) {
        let (ino, _) = self.open_node(path, libc::O_CREAT | libc::O_TRUNC | libc::O_RDWR).unwrap();
        m_pwrite(self.mem(ino).unwrap(), data.as_ptr(), data.len(), 0).unwrap();
    }

    pub fn put_sparse(&mut self, path: &[u8], len: u64, data: &[(u64, Vec<u8>)]) {
        let (ino, _) = self.open_node(path, libc::O_CREAT | libc::O_TRUNC | libc::O_RDWR).unwrap();
        let mem = self.mem(ino).unwrap();
        m_truncate(mem, len).unwrap();
        for (at, b) in data {
            m_pwrite(mem, b.as_ptr(), b.len(), *at).unwrap();
        }
    }

    pub fn files(&self) -> Vec<(Vec<u8>, u64, FClass)> {
        fn rec(fs: &Fs, ino: u64, path: &mut Vec<u8>, out: &mut Vec<(Vec<u8>, u64, FClass)>) {
            if let Kind::Dir(m) = &fs.inodes[&ino].kind {
                for (k, v) in m {
                    let n = path.len();
                    path.push(b'/');
                    path.extend_from_slice(k);
                    out.push((path.clone(), *v, fs.inodes[v].class));
                    rec(fs, *v, path, out);
                    path.truncate(n);
                }
            }
        }
        let mut out = vec![];
        rec(self, 1, &mut ROOT.to_vec(), &mut out);
        out
    }
}
