//! Instrumented allocator: live bytes per thread, and a search of freed blocks for secrets.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Mon;

/// single allocations above this are refused (the process aborts, the supervisor reports it)
const MAX_ONE: usize = 3 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SECRET: Cell<Option<[u8; 32]>> = const { Cell::new(None) };
    static HITS: Cell<u64> = const { Cell::new(0) };
    static SCANNED: Cell<u64> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    // blocks that came while a secret was armed and are still there
    static BLOCKS: UnsafeCell<Vec<(usize, usize)>> = const { UnsafeCell::new(Vec::new()) };
    static IN: Cell<bool> = const { Cell::new(false) };
}


pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    if needle.is_empty() || hay.len() < needle.len() {
        return false;
    }
    let f = needle[0];
    let last = hay.len() - needle.len();
    let mut i = 0;
    while i <= last {
        match hay[i..=last].iter().position(|b| *b == f) {
            None => return false,
            Some(p) => {
                i += p;
                if &hay[i..i + needle.len()] == needle {
                    return true;
                }
                i += 1;
            }
        }
    }
    false
}

fn blocks<T>(f: impl FnOnce(&mut Vec<(usize, usize)>) -> T) -> Option<T> {
    if IN.try_with(|i| i.replace(true)).unwrap_or(true) {
        return None;
    }
    let r = BLOCKS.try_with(|b| f(unsafe { &mut *b.get() })).ok();
    let _ = IN.try_with(|i| i.set(false));
    r
}
fn on_alloc(ptr: *mut u8, size: usize) {
    if size >= 32 && !BUSY.try_with(|b| b.get()).unwrap_or(true) {
        blocks(|v| {
            if v.len() < 200_000 {
                v.push((ptr as usize, size));
            }
        });
    }
}
fn on_free(ptr: *mut u8, size: usize, align: usize) {
    if size >= 32 {
        blocks(|v| {
            if let Some(i) = v.iter().rposition(|b| b.0 == ptr as usize) {
                v.swap_remove(i);
            }
        });
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
    let _ = SECRET.try_with(|s| {
        if let Some(k) = s.get() {
            // blocks of bytes only: in larger types the compiler may copy stale stack contents
            // along with padding and unused parts of enums, which nothing can erase
            if align > 1 || BUSY.with(|b| b.get()) {
                return;
            }
            SCANNED.with(|n| n.set(n.get() + 1));
            // the block is about to be released: what it holds now is what would be left behind
            let hay = unsafe { std::slice::from_raw_parts(ptr, size) };
            if contains(hay, &k) {
                HITS.with(|h| h.set(h.get() + 1));
            }
        }
    });
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        // while a secret is armed blocks are zeroed, so that the scan on free never looks at
        // uninitialised memory or at residues of an earlier owner of the block
        let p = if SECRET.try_with(|s| s.get().is_some()).unwrap_or(false) {
            let p = System.alloc_zeroed(l);
            on_alloc(p, l.size());
            p
        } else {
            System.alloc(l)
        };
        if !p.is_null() {
            let _ = LIVE.try_with(|v| v.set(v.get() + l.size() as i64));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if SECRET.try_with(|s| s.get().is_some()).unwrap_or(false) {
            on_alloc(p, l.size());
        }
        if !p.is_null() {
            let _ = LIVE.try_with(|v| v.set(v.get() + l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(p, l.size(), l.align());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > MAX_ONE {
            return std::ptr::null_mut();
        }
        if SECRET.try_with(|s| s.get().is_some()).unwrap_or(false) {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() && l.size() >= 32 {
            blocks(|v| {
                if let Some(i) = v.iter().rposition(|b| b.0 == p as usize) {
                    v[i] = (q as usize, new);
                }
            });
        }
        if !q.is_null() {
            let _ = LIVE.try_with(|v| v.set(v.get() + new as i64 - l.size() as i64));
        }
        q
    }
}

/// bytes allocated minus bytes freed by this thread so far
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// from now on, every block freed by this thread is searched for `k`
pub fn arm(k: [u8; 32]) {
    HITS.with(|h| h.set(0));
    SECRET.with(|s| s.set(Some(k)));
}
/// number of freed blocks that still held the secret
pub fn disarm() -> u64 {
    SECRET.with(|s| {
        let p = s.as_ptr() as *mut u8;
        for i in 0..std::mem::size_of::<Option<[u8; 32]>>() {
            unsafe { std::ptr::write_volatile(p.add(i), 0) };
        }
        s.set(None);
    });
    HITS.with(|h| h.get())
}
/// once everything of a case is dropped: is the secret still in a block that came meanwhile, in a static or
/// in a thread local variable?  (number of places; bytes searched)
pub fn kept(k: &[u8; 32]) -> (u64, u64) {
    let (mut n, mut total) = (0, 0);
    blocks(|v| {
        for (p, len) in v.iter() {
            let hay = unsafe { std::slice::from_raw_parts(*p as *const u8, *len) };
            n += u64::from(contains(hay, k));
            total += *len as u64;
        }
        v.clear();
    });
    for (a, b) in statics().iter().copied().chain(std::iter::once(thread_block())) {
        let hay = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
        n += u64::from(contains(hay, k));
        total += (b - a) as u64;
    }
    (n, total)
}
pub fn forget_blocks() {
    blocks(|v| v.clear());
}
/// the writable data of the program
fn statics() -> &'static [(usize, usize)] {
    static AT: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    AT.get_or_init(|| {
        let exe = std::fs::read_link("/proc/self/exe").unwrap_or_default();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut v: Vec<(usize, usize)> = vec![];
        for l in maps.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            let Some((a, b)) = f[0].split_once('-') else { continue };
            let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
            if !f[1].starts_with("rw") {
                continue;
            }
            let own = f.len() > 5 && std::path::Path::new(f[5]) == exe;
            let bss = f.len() == 5 && v.last().is_some_and(|x| x.1 == a);
            if own || bss {
                v.push((a, b));
            }
        }
        v
    })
}
/// the thread local variables of this thread
fn thread_block() -> (usize, usize) {
    static SIZE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let size = *SIZE.get_or_init(|| {
        unsafe extern "C" fn one(i: *mut libc::dl_phdr_info, _: usize, d: *mut libc::c_void) -> libc::c_int {
            for k in 0..(*i).dlpi_phnum as usize {
                let h = &*(*i).dlpi_phdr.add(k);
                if h.p_type == libc::PT_TLS {
                    let a = (h.p_align as usize).max(1);
                    *(d as *mut usize) = (h.p_memsz as usize + a - 1) / a * a;
                }
            }
            1 // the program itself comes first
        }
        let mut n = 0usize;
        unsafe { libc::dl_iterate_phdr(Some(one), &mut n as *mut usize as *mut libc::c_void) };
        n
    });
    let tp: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) tp, options(nostack, readonly)) };
    (tp - size, tp)
}
/// frees done by the harness itself inside `f` are not searched
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}
/// blocks this thread has searched so far
pub fn scanned() -> u64 {
    SCANNED.with(|n| n.get())
}
