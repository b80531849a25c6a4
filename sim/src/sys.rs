//! The few system calls the driver needs; std already links libc.

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn mmap(at: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
    fn __errno_location() -> *mut i32;
}

/// The cores this process may use.
pub fn cores() -> Vec<usize> {
    let mut m = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) } < 0 {
        return vec![];
    }
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}

/// Callers of one run take turns, so all of them belong on one core. Only a matter of speed.
pub fn pin(core: usize) {
    let mut m = [0u64; 16];
    m[core / 64] = 1 << (core % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

pub fn limit_memory(bytes: u64) {
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    unsafe {
        setrlimit(RLIMIT_AS, &[bytes, bytes]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

pub fn kill9(pid: u32) {
    unsafe { kill(pid as i32, 9) };
}

/// Address space that costs nothing until it is used. 0: there is none.
pub fn reserve(len: usize) -> usize {
    const READ_WRITE: i32 = 3;
    const PRIVATE_ANON_NORESERVE: i32 = 0x2 | 0x20 | 0x4000;
    match unsafe { mmap(0, len, READ_WRITE, PRIVATE_ANON_NORESERVE, -1, 0) } {
        usize::MAX => 0,
        p => p,
    }
}

/// The system call itself.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
pub unsafe fn call(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        return error(-r as i32);
    }
    r
}

/// What a failing system call gives back.
pub unsafe fn error(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}

pub unsafe fn errno() -> i32 {
    *__errno_location()
}

/// Sleeps for so many nanoseconds.
pub fn nap(ns: i64) {
    let t = [0, ns];
    unsafe { call(35, [t.as_ptr() as i64, 0, 0, 0, 0, 0]) };
}
