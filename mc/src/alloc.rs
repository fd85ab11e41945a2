//! Checking allocator: counts live blocks, detects double/invalid frees, poisons freed memory and
//! keeps it in quarantine for a while so that reads through dangling pointers see the poison.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

const LIVE: u64 = 0xA11F_E000_A11F_E001;
const DEAD: u64 = 0xDEAD_F4EE_DEAD_F4EE;
const POISON: u8 = 0xDD;
const QUARANTINE: usize = 512;

pub struct CheckedAlloc;

static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);
/// Quarantine is only used by the (single-threaded) workers.
static QUARANTINE_ON: AtomicBool = AtomicBool::new(false);

struct Ring(UnsafeCell<([(usize, usize, usize); QUARANTINE], usize)>);
unsafe impl Sync for Ring {}
static RING: Ring = Ring(UnsafeCell::new(([(0, 0, 0); QUARANTINE], 0)));

pub fn live_blocks() -> i64 {
    LIVE_BLOCKS.load(Relaxed)
}
pub fn live_bytes() -> i64 {
    LIVE_BYTES.load(Relaxed)
}
pub fn total_allocs() -> i64 {
    TOTAL.load(Relaxed)
}
pub fn enable_quarantine() {
    QUARANTINE_ON.store(true, Relaxed);
}

// Which freed block an allocation gets is a choice of the allocator. While armed, allocations of
// the watched size may get any of the most recently freed blocks of that size, or a fresh one; the
// script says which, and every choice that came up is recorded.
pub struct Script {
    pub size: usize,
    pub digits: Vec<u8>,
    pub options: Vec<u8>,
}
static ARMED: AtomicBool = AtomicBool::new(false);
static mut SCRIPT: Script = Script { size: 0, digits: Vec::new(), options: Vec::new() };
static mut WATCH: Option<Vec<(usize, usize)>> = None;

#[allow(static_mut_refs)]
/// Runs `f` with the allocator's choices scripted; returns the numbers of options it had
pub fn scripted<T>(size: usize, digits: &[u8], f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    unsafe {
        SCRIPT = Script { size, digits: digits.to_vec(), options: Vec::with_capacity(64) };
        ARMED.store(true, Relaxed);
        let r = f();
        ARMED.store(false, Relaxed);
        (r, std::mem::take(&mut SCRIPT.options))
    }
}
#[allow(static_mut_refs)]
/// after a panic inside [`scripted`]
pub fn disarm() {
    ARMED.store(false, Relaxed);
    unsafe { WATCH = None }
}
#[allow(static_mut_refs)]
/// Sizes and alignments of all blocks of at least 128 bytes allocated while `f` runs
pub fn sizes_of<T>(f: impl FnOnce() -> T) -> Vec<(usize, usize)> {
    unsafe {
        WATCH = Some(Vec::with_capacity(10_000));
        let r = f();
        let v = WATCH.take().unwrap();
        drop(r);
        v
    }
}

#[allow(static_mut_refs)]
unsafe fn choose(size: usize, p: usize) -> Option<*mut u8> {
    if SCRIPT.size != size || SCRIPT.options.len() >= 64 {
        return None;
    }
    let ring = &mut *RING.0.get();
    let mut found = [0usize; 3];
    let mut n = 0;
    for back in 1..=QUARANTINE {
        let slot = (ring.1 + QUARANTINE - back) % QUARANTINE;
        let e = ring.0[slot];
        if e.0 != 0 && e.1 == size && e.2 == p {
            found[n] = slot;
            n += 1;
            if n == found.len() {
                break;
            }
        }
    }
    if n == 0 {
        return None;
    }
    let k = SCRIPT.digits.get(SCRIPT.options.len()).copied().unwrap_or(0) as usize;
    SCRIPT.options.push(n as u8 + 1);
    if k >= n {
        return None;
    }
    let user = ring.0[found[k]].0 as *mut u8;
    ring.0[found[k]] = (0, 0, 0);
    check_poison(user, size);
    Some(user)
}

// Every block of at least 128 bytes on pages of its own, so that the blocks touched by an operation
// can be counted: they are made inaccessible before it, and each first access is noted.
const PAGE: usize = 4096;
const ARENA: usize = 512 << 20;
static PAGED: AtomicBool = AtomicBool::new(false);
static mut BASE: usize = 0;
static mut USED: usize = 0;
/// pages to be used again, each naming the next
static mut FREE: usize = 0;
static mut ARENA_LIVE: i64 = 0;
static mut TOUCHED: u64 = 0;

unsafe extern "C" fn on_fault(_: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let a = (*info).si_addr() as usize;
    if BASE != 0 && a >= BASE && a < BASE + USED {
        TOUCHED += 1;
        libc::mprotect((a & !(PAGE - 1)) as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
    } else {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

/// Blocks allocated while `f` runs lie on pages of their own
pub fn paged<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        if BASE == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            BASE = p as usize;
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fault as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        }
        if ARENA_LIVE == 0 {
            USED = 0;
            FREE = 0;
        }
        PAGED.store(true, Relaxed);
        let r = f();
        PAGED.store(false, Relaxed);
        r
    }
}

/// Runs `f` and returns how many pages of blocks allocated before (by [`paged`]) it accessed
pub fn touched<T>(f: impl FnOnce() -> T) -> (T, u64) {
    unsafe {
        TOUCHED = 0;
        if USED > 0 {
            libc::mprotect(BASE as *mut _, USED, libc::PROT_NONE);
        }
        let r = f();
        let n = TOUCHED;
        if USED > 0 {
            libc::mprotect(BASE as *mut _, USED, libc::PROT_READ | libc::PROT_WRITE);
        }
        (r, n)
    }
}

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    let at = layout.align().max(16);
    let full = (layout.size() + at + PAGE - 1) & !(PAGE - 1);
    let page = if full == PAGE && FREE != 0 {
        let page = FREE;
        FREE = *(page as *const usize);
        page
    } else {
        if at > PAGE / 2 || USED + full > ARENA {
            crate::shm::fatal("the arena of the harness is full");
        }
        USED += full;
        BASE + USED - full
    };
    let user = (page + at) as *mut u8;
    ARENA_LIVE += 1;
    *(user.sub(16) as *mut u64) = LIVE;
    *(user.sub(8) as *mut u64) = header(&layout);
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
    TOTAL.fetch_add(1, Relaxed);
    user
}

fn header(layout: &Layout) -> u64 {
    layout.size() as u64 | (layout.align().trailing_zeros() as u64) << 56
}

fn pad(layout: &Layout) -> usize {
    layout.align().max(16)
}

unsafe impl GlobalAlloc for CheckedAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = pad(&layout);
        if layout.size() >= 128 {
            if PAGED.load(Relaxed) {
                return arena_alloc(layout);
            }
            #[allow(static_mut_refs)]
            if let Some(w) = &mut WATCH {
                if w.len() < w.capacity() {
                    w.push((layout.size(), layout.align()));
                }
            }
            if ARMED.load(Relaxed) {
                if let Some(user) = choose(layout.size(), p) {
                    *(user.sub(16) as *mut u64) = LIVE;
                    LIVE_BLOCKS.fetch_add(1, Relaxed);
                    LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
                    TOTAL.fetch_add(1, Relaxed);
                    return user;
                }
            }
        }
        let full = Layout::from_size_align_unchecked(layout.size() + p, p);
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let user = base.add(p);
        *(user.sub(16) as *mut u64) = LIVE;
        *(user.sub(8) as *mut u64) = header(&layout);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let magic = *(user.sub(16) as *mut u64);
        let size = *(user.sub(8) as *mut u64);
        let expected = header(&layout);
        if magic != LIVE {
            crate::shm::fatal(if magic == DEAD { "memory freed twice" } else { "invalid pointer freed" });
        }
        if size != expected {
            crate::shm::fatal("memory freed with a layout different from the one it was allocated with");
        }
        *(user.sub(16) as *mut u64) = DEAD;
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(layout.size() as i64, Relaxed);
        let p = pad(&layout);
        std::ptr::write_bytes(user, POISON, layout.size());
        if BASE != 0 && (user as usize) >= BASE && (user as usize) < BASE + ARENA {
            ARENA_LIVE -= 1;
            if layout.size() + p <= PAGE {
                let page = user as usize & !(PAGE - 1);
                *(page as *mut usize) = FREE;
                FREE = page;
            }
            return;
        }
        if QUARANTINE_ON.load(Relaxed) {
            let ring = &mut *RING.0.get();
            let slot = ring.1;
            ring.1 = (slot + 1) % QUARANTINE;
            let (old, old_size, old_p) = std::mem::replace(&mut ring.0[slot], (user as usize, layout.size(), p));
            if old != 0 {
                release(old as *mut u8, old_size, old_p);
            }
        } else {
            release(user, layout.size(), p);
        }
    }
}

unsafe fn release(user: *mut u8, size: usize, p: usize) {
    check_poison(user, size);
    *(user.sub(16) as *mut u64) = 0;
    System.dealloc(user.sub(p), Layout::from_size_align_unchecked(size + p, p));
}

unsafe fn check_poison(user: *mut u8, size: usize) {
    // a write into freed memory is as bad as a second free
    let step = if size > 4096 { size / 64 } else { 1 };
    let mut i = 0;
    while i < size {
        if *user.add(i) != POISON {
            crate::shm::fatal("memory written after it was freed");
        }
        i += step;
    }
}
