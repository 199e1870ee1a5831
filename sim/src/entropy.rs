//! The operating system's entropy source, behind a seam.
//!
//! std's `RandomState` (HashMap iteration order) calls the C symbol `getrandom`,
//! and the `getrandom` crate (below `StdRng::from_entropy`) calls the C symbol
//! `syscall(SYS_getrandom, ..)`. Both symbols are defined here, so that every
//! byte of "OS entropy" a simulated run sees comes from a generator seeded by
//! that run. Threads which are not simulated runs get the real thing.
use std::cell::Cell;
use std::ffi::c_void;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// full reads, no failure
    Plain,
    /// every k-th call is interrupted (EINTR) or short
    Shaky,
    /// every call from this one on fails (EIO)
    DownFrom(u64),
    /// this call alone fails (EIO)
    Once(u64),
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// where the stream is: its seed, and how many bytes of it are gone
    static STATE: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static FAULTGEN: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::Plain) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAULTS: Cell<u64> = const { Cell::new(0) };
}

/// from now on this thread's entropy comes from `seed`
pub fn seed(seed: u64) {
    ON.with(|c| c.set(true));
    STATE.with(|c| c.set((seed, 0)));
    FAULTGEN.with(|c| c.set(!seed));
    MODE.with(|c| c.set(Mode::Plain));
    CALLS.with(|c| c.set(0));
    FAULTS.with(|c| c.set(0));
}
pub fn set_state(s: (u64, u64)) {
    STATE.with(|c| c.set(s));
}
pub fn state() -> (u64, u64) {
    STATE.with(|c| c.get())
}
/// calls are counted from here again
pub fn restart() {
    CALLS.with(|c| c.set(0));
    FAULTS.with(|c| c.set(0));
}
pub fn set_mode(m: Mode) {
    MODE.with(|c| c.set(m));
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn faults() -> u64 {
    FAULTS.with(|c| c.get())
}

fn z(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// the next byte of the stream: the same however the calls cut it
fn byte() -> u8 {
    STATE.with(|c| {
        let (seed, pos) = c.get();
        c.set((seed, pos + 1));
        let w = z(seed.wrapping_add((pos / 8 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)));
        w.to_le_bytes()[(pos % 8) as usize]
    })
}

fn next() -> u64 {
    FAULTGEN.with(|c| {
        let s = c.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        c.set(s);
        z(s)
    })
}

const EINTR: i32 = 4;
const EIO: i32 = 5;
const SYS_GETRANDOM: i64 = 318;

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// returns Err(errno) or the number of bytes written
unsafe fn fill(buf: *mut u8, len: usize) -> Result<usize, i32> {
    let call = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get() - 1
    });
    let mut len = len;
    match MODE.with(|c| c.get()) {
        Mode::Plain => (),
        Mode::DownFrom(k) if call >= k => {
            FAULTS.with(|c| c.set(c.get() + 1));
            return Err(EIO);
        }
        Mode::Once(k) if call == k => {
            FAULTS.with(|c| c.set(c.get() + 1));
            return Err(EIO);
        }
        Mode::DownFrom(_) | Mode::Once(_) => (),
        Mode::Shaky => match next() % 4 {
            0 => {
                FAULTS.with(|c| c.set(c.get() + 1));
                return Err(EINTR);
            }
            1 if len > 1 => {
                FAULTS.with(|c| c.set(c.get() + 1));
                len = 1 + (next() as usize) % (len - 1);
            }
            _ => (),
        },
    }
    for i in 0..len {
        *buf.add(i) = byte();
    }
    Ok(len)
}

unsafe fn raw(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") num => ret,
        in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

/// # Safety
/// the C library's contract
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    let r = if ON.with(|c| c.get()) {
        match fill(buf as *mut u8, len) {
            Ok(n) => return n as isize,
            Err(e) => -(e as i64),
        }
    } else {
        raw(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)
    };
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}

/// # Safety
/// the C library's contract
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: i64,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> i64 {
    let r = if num == SYS_GETRANDOM && ON.with(|c| c.get()) {
        // the crate probes with an empty buffer first
        if b == 0 {
            0
        } else {
            match fill(a as *mut u8, b as usize) {
                Ok(n) => n as i64,
                Err(e) => -(e as i64),
            }
        }
    } else {
        raw(num, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
