//! Raw system calls, for the simulator's own use: they never come back to the interposed symbols.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

#[inline(always)]
pub unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// As libc does: -1 and errno.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as u64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as u64, val as u64, 0, 0, 0);
    }
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as u64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as u64, 1, 0, 0, 0);
    }
}

pub struct Gate(AtomicU32);

impl Gate {
    pub const fn new() -> Self {
        Gate(AtomicU32::new(0))
    }
    pub fn open(&self) {
        self.0.store(1, Ordering::Release);
        futex_wake(&self.0);
    }
    pub fn pass(&self) {
        while self.0.swap(0, Ordering::Acquire) == 0 {
            futex_wait(&self.0, 0);
        }
    }
}

pub fn real_now_ns() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as u64, &mut ts as *mut _ as u64, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// The next definition of a symbol after this executable's: the C library's.
pub fn next(name: &'static [u8]) -> *mut libc::c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) }
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5851f42d4c957f2d);
        r.next();
        r
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Small numbers are likely, large ones possible.
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(0, bits);
        self.below((1u64 << b).min(max) + 1).min(max)
    }
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h.rotate_left(23) ^ v.wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 29)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 32)
}
