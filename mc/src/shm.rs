//! Shared page between a worker and its supervisor: what case is being executed right now.
//!
//! A case is a history (text, set when a state is built) plus a probe (a tag and numbers).

use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::SeqCst};

pub const SIZE: usize = 1 << 16;
const HIST_OFF: usize = 256;
const HIST_MAX: usize = 48 << 10;
const MSG_OFF: usize = HIST_OFF + HIST_MAX;
const MSG_MAX: usize = 4096;

static mut BASE: *mut u8 = std::ptr::null_mut();

/// layout: 0 progress u64 | 8 in_case u8 | 16 hist_len u64 | 24 tag_len u64 | 32.. tag (64) |
/// 96 nvals u64 | 104.. vals (16 * 8) | 240 msg_len u64
pub struct Page(*mut u8);

pub fn map(path: &str) -> Page {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("open shm");
    f.set_len(SIZE as u64).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        Page(p as *mut u8)
    }
}

/// Used by workers and by replays (with an anonymous page).
pub fn init(page: &Page) {
    unsafe { BASE = page.0 }
}

pub fn init_anonymous() {
    let v = Box::leak(vec![0u64; SIZE / 8].into_boxed_slice());
    unsafe { BASE = v.as_mut_ptr() as *mut u8 }
}

unsafe fn put(off: usize, v: u64) {
    (*(BASE.add(off) as *mut AtomicU64)).store(v, SeqCst)
}

pub fn set_history(h: &str) {
    unsafe {
        let n = h.len().min(HIST_MAX);
        std::ptr::copy_nonoverlapping(h.as_ptr(), BASE.add(HIST_OFF), n);
        put(16, n as u64);
    }
}

/// Announces the next probe; from here to [`end`] whatever happens is the probe's doing.
pub fn begin(tag: &str, vals: &[i64]) {
    unsafe {
        let n = tag.len().min(64);
        std::ptr::copy_nonoverlapping(tag.as_ptr(), BASE.add(32), n);
        put(24, n as u64);
        let m = vals.len().min(16);
        for (i, v) in vals[..m].iter().enumerate() {
            put(104 + 8 * i, *v as u64);
        }
        put(96, m as u64);
        let c = &*(BASE as *mut AtomicU64);
        c.store(c.load(SeqCst) + 1, SeqCst);
        (*(BASE.add(8) as *mut AtomicU8)).store(1, SeqCst);
    }
}

/// What to report should the worker die in the current probe; the first one counts
pub fn note(msg: &str) {
    unsafe {
        if !BASE.is_null() && (*(BASE.add(240) as *mut AtomicU64)).load(SeqCst) == 0 {
            let n = msg.len().min(MSG_MAX);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), BASE.add(MSG_OFF), n);
            put(240, n as u64);
        }
    }
}

pub fn forget_note() {
    unsafe { put(240, 0) }
}

pub fn end() {
    unsafe { (*(BASE.add(8) as *mut AtomicU8)).store(0, SeqCst) }
}

/// Called when memory is known to be corrupt: leave a message and die.
pub fn fatal(msg: &str) -> ! {
    unsafe {
        if !BASE.is_null() {
            let n = msg.len().min(MSG_MAX);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), BASE.add(MSG_OFF), n);
            put(240, n as u64);
        }
        let _ = std::io::stderr().write_all(b"fatal: ");
        let _ = std::io::stderr().write_all(msg.as_bytes());
        let _ = std::io::stderr().write_all(b"\n");
        libc::_exit(77)
    }
}

impl Page {
    unsafe fn get(&self, off: usize) -> u64 {
        (*(self.0.add(off) as *mut AtomicU64)).load(SeqCst)
    }
    pub fn progress(&self) -> u64 {
        unsafe { self.get(0) }
    }
    pub fn in_case(&self) -> bool {
        unsafe { (*(self.0.add(8) as *mut AtomicU8)).load(SeqCst) == 1 }
    }
    unsafe fn text(&self, off: usize, n: usize) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(self.0.add(off), n)).into_owned()
    }
    pub fn message(&self) -> String {
        unsafe { self.text(MSG_OFF, self.get(240) as usize) }
    }
    pub fn case(&self) -> (String, String, Vec<i64>) {
        unsafe {
            let h = self.text(HIST_OFF, self.get(16) as usize);
            let t = self.text(32, self.get(24) as usize);
            let n = self.get(96) as usize;
            (h, t, (0..n).map(|i| self.get(104 + 8 * i) as i64).collect())
        }
    }
}
