//! The clock of the process is ours: the library sees a time that leaps ahead between (and the wall
//! clock also back), as it does on a machine that sleeps, is busy, or has its clock set.
//! The harness itself measures with `now`.
use crate::rng::mix;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

/// seconds added to every clock
static AHEAD: AtomicI64 = AtomicI64::new(0);
/// seconds added to the wall clock alone
static SET: AtomicI64 = AtomicI64::new(0);
static JUMPS: AtomicU64 = AtomicU64::new(0);
/// within what the clock types of std and of C can tell
const MAX: i64 = 200 * 365 * 86_400;

fn real(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_long {
    let r: libc::c_long;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") libc::SYS_clock_gettime => r, in("rdi") id as libc::c_long, in("rsi") ts,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

/// seconds since some moment, really
pub fn now() -> f64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    real(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// takes the place of the C library's
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if real(id, ts) < 0 {
        return -1;
    }
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        (*ts).tv_sec += AHEAD.load(Relaxed) + SET.load(Relaxed);
    } else if id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_BOOTTIME || id == libc::CLOCK_MONOTONIC_COARSE || id == libc::CLOCK_MONOTONIC_RAW {
        (*ts).tv_sec += AHEAD.load(Relaxed);
    }
    0
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
}
/// the leaps of a case depend on the case alone
pub fn begin(seed: u64) {
    STATE.with(|s| s.set(seed));
    LEFT.with(|l| l.set((mix(seed) % 12) as u32));
}
/// called before every call of the library
pub fn tick() {
    let due = LEFT.with(|l| {
        let n = l.get();
        l.set(n.wrapping_sub(1));
        n == 0
    });
    if due {
        leap();
    }
}
#[cold]
fn leap() {
    let x = STATE.with(|s| {
        s.set(mix(s.get() ^ 0xC10C));
        s.get()
    });
    let secs = match x % 20 {
        0 => 3_600 << (x >> 8) % 10,
        1..=6 => 10 + (x >> 8) % 3_600,
        _ => 1 + (x >> 8) % 12,
    } as i64;
    if AHEAD.load(Relaxed) < MAX {
        AHEAD.fetch_add(secs, Relaxed);
    }
    if x >> 40 & 7 == 0 {
        SET.store((x >> 16) as i64 % 200_000 - 100_000, Relaxed);
    }
    JUMPS.fetch_add(1, Relaxed);
    let next = [1, 3, 10, 30, 100, 300][(x >> 50) as usize % 6];
    LEFT.with(|l| l.set(1 + (x >> 20) as u32 % next));
}
/// how often the time leapt, if the library can have noticed
pub fn leaps() -> u64 {
    let a = std::time::Instant::now();
    AHEAD.fetch_add(1_000, Relaxed);
    let seen = a.elapsed().as_secs() >= 1_000;
    if seen {
        JUMPS.load(Relaxed)
    } else {
        0
    }
}
