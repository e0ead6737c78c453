//! In-flight cases, kept in a shared file mapping so that the supervising process
//! can tell which case was being evaluated when a run hung or died.

use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

extern "C" {
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
}

pub const WORKERS: usize = 16;
const CAP: usize = 16384; // words per slot: [0] = sequence (odd = busy), [1] = law index, [2] = length, [3..] = case
static BASE: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
thread_local! {
    static MINE: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Map `path`; call once per process.
pub fn open(path: &str) -> bool {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path) else { return false };
    if f.set_len((WORKERS * CAP * 8) as u64).is_err() {
        return false;
    }
    let p = unsafe { mmap(std::ptr::null_mut(), WORKERS * CAP * 8, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        return false;
    }
    BASE.store(p as *mut AtomicU64, Ordering::SeqCst);
    true
}

fn slot(i: usize) -> Option<&'static [AtomicU64]> {
    let b = BASE.load(Ordering::Relaxed);
    if b.is_null() || i >= WORKERS {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(b.add(i * CAP), CAP) })
}

pub fn bind(worker: usize) {
    MINE.with(|m| m.set(worker));
}

pub fn begin(law: u64, words: &[u64]) {
    if let Some(s) = slot(MINE.with(|m| m.get())) {
        let n = words.len().min(CAP - 3);
        s[1].store(law, Ordering::Relaxed);
        s[2].store(n as u64, Ordering::Relaxed);
        for (d, w) in s[3..].iter().zip(words) {
            d.store(*w, Ordering::Relaxed);
        }
        s[0].fetch_add(1, Ordering::Release);
    }
}

pub fn end() {
    if let Some(s) = slot(MINE.with(|m| m.get())) {
        s[0].fetch_add(1, Ordering::Release);
    }
}

/// (sequence, law index, case words) of a busy slot
pub fn busy(i: usize) -> Option<(u64, u64, Vec<u64>)> {
    let s = slot(i)?;
    let q = s[0].load(Ordering::Acquire);
    if q % 2 == 0 {
        return None;
    }
    let n = (s[2].load(Ordering::Relaxed) as usize).min(CAP - 3);
    Some((q, s[1].load(Ordering::Relaxed), s[3..3 + n].iter().map(|w| w.load(Ordering::Relaxed)).collect()))
}
