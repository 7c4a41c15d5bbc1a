//! The seam below std: raw system calls and the libc entry points std, rayon, indicatif and console call,
//! defined here so that the simulator owns scheduling, time, hash seeds and the terminal.
use crate::sched;
use core::arch::asm;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, Ordering};

#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub const SYS_WRITE: i64 = 1;
pub const SYS_IOCTL: i64 = 16;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_SCHED_SETAFFINITY: i64 = 203;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_PRLIMIT64: i64 = 302;

extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EAGAIN: i32 = 11;
pub const ENOTTY: i32 = 25;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ETIMEDOUT: i32 = 110;

pub fn futex_raw(addr: *const u32, op: i64, val: u32) -> i64 {
    unsafe { raw6(SYS_FUTEX, addr as i64, op, val as i64, 0, 0, 0) }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_raw(fd: i32, buf: &[u8]) {
    let mut off = 0;
    while off < buf.len() {
        let r = unsafe { raw6(SYS_WRITE, fd as i64, buf[off..].as_ptr() as i64, (buf.len() - off) as i64, 0, 0, 0) };
        if r <= 0 {
            if r == -(EINTR as i64) || r == -(EAGAIN as i64) {
                continue;
            }
            break;
        }
        off += r as usize;
    }
}

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

/// Set once the simulation starts; before that every call is forwarded to the kernel.
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_FUTEX && sched::registered() {
        return ret(unsafe { sched::futex(a as *const u32, b, c as u32, d as *const Timespec, e, f as u32) });
    }
    if n == SYS_GETRANDOM && active() {
        unsafe { sched::sim_random(std::slice::from_raw_parts_mut(a as *mut u8, b as usize)) };
        return b;
    }
    ret(unsafe { raw6(n, a, b, c, d, e, f) })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    if active() {
        unsafe { sched::sim_random(std::slice::from_raw_parts_mut(buf as *mut u8, len)) };
        return len as isize;
    }
    ret(unsafe { raw6(SYS_GETRANDOM, buf as i64, len as i64, _flags as i64, 0, 0, 0) }) as isize
}

#[no_mangle]
pub extern "C" fn sched_yield() -> c_int {
    if sched::registered() {
        sched::yield_now();
        return 0;
    }
    unsafe { raw6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) };
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    if active() {
        let (s, n) = sched::clock_read(clk);
        unsafe {
            (*ts).sec = s;
            (*ts).nsec = n;
        }
        return 0;
    }
    ret(unsafe { raw6(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0) }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> c_int {
    if sched::registered() {
        let ns = unsafe { (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64 };
        sched::sleep(ns);
        return 0;
    }
    ret(unsafe { raw6(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0) }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const Timespec, rem: *mut Timespec) -> c_int {
    if sched::registered() {
        let mut ns = unsafe { (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64 };
        if flags & 1 != 0 {
            ns = ns.saturating_sub(sched::now());
        }
        sched::sleep(ns);
        return 0;
    }
    let r = unsafe { raw6(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) };
    (-r) as c_int
}

#[no_mangle]
pub extern "C" fn isatty(fd: c_int) -> c_int {
    if active() && fd == 2 {
        if crate::term::is_tty() {
            return 1;
        }
        set_errno(ENOTTY);
        return 0;
    }
    let mut buf = [0u8; 64];
    let r = unsafe { raw6(SYS_IOCTL, fd as i64, 0x5401, buf.as_mut_ptr() as i64, 0, 0, 0) };
    (r == 0) as c_int
}

#[repr(C)]
struct Winsize {
    row: u16,
    col: u16,
    x: u16,
    y: u16,
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_char) -> c_int {
    if active() && fd == 2 {
        if req == 0x5413 && crate::term::is_tty() {
            match crate::term::size() {
                Some((r, c)) => {
                    unsafe { *(arg as *mut Winsize) = Winsize { row: r, col: c, x: 0, y: 0 } };
                    return 0;
                }
                None => {
                    set_errno(EIO);
                    return -1;
                }
            }
        }
        set_errno(ENOTTY);
        return -1;
    }
    ret(unsafe { raw6(SYS_IOCTL, fd as i64, req as i64, arg as i64, 0, 0, 0) }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if active() && fd == 2 {
        let s = unsafe { std::slice::from_raw_parts(buf as *const u8, len) };
        return match crate::term::write(s) {
            Ok(n) => n as isize,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(unsafe { raw6(SYS_WRITE, fd as i64, buf as i64, len as i64, 0, 0, 0) }) as isize
}

/// CPU-time limit in seconds: an endless computation without any scheduling point ends the run.
pub fn limit_cpu(secs: u64) {
    let lim: [u64; 2] = [secs, secs + 1];
    unsafe {
        raw6(SYS_PRLIMIT64, 0, 0, lim.as_ptr() as i64, 0, 0, 0);
        // RLIMIT_CORE = 4
        let z: [u64; 2] = [0, 0];
        raw6(SYS_PRLIMIT64, 0, 4, z.as_ptr() as i64, 0, 0, 0);
    }
}
pub fn pin_cpu(cpu: usize) {
    let mut mask = [0u64; 16];
    mask[(cpu / 64) % 16] |= 1 << (cpu % 64);
    unsafe {
        raw6(SYS_SCHED_SETAFFINITY, 0, 128, mask.as_ptr() as i64, 0, 0, 0);
    }
}

/// Address-space randomisation off (where the sandbox allows it), so that addresses repeat too.
pub fn fixed_addresses() {
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = personality(0xffff_ffff);
        if p < 0 || p as u64 & NO_RANDOMIZE != 0 || std::env::var_os("SR_SIM_ADDR").is_some() {
            return;
        }
        if personality(p as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("SR_SIM_ADDR", "1").exec();
        eprintln!("re-execution failed: {e}");
    }
}
