//! An allocator that meters each thread, and calls run on a thread of their own under a time and
//! memory limit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

use crate::core::{guard, Panicked};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static METERED: Cell<bool> = const { Cell::new(false) };
}

/// A metered thread gets no more than this: it ends rather than the sandbox
const HARD_LIMIT: i64 = 6 << 30;

pub struct Meter;

fn account(delta: i64) -> bool {
    // the thread-locals have no destructors: they can be used at any time
    METERED.with(|m| {
        if !m.get() {
            return true;
        }
        let live = LIVE.with(|l| {
            l.set(l.get() + delta);
            l.get()
        });
        PEAK.with(|p| p.set(p.get().max(live)));
        live < HARD_LIMIT
    })
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if account(l.size() as i64) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if account(l.size() as i64) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if account(n as i64 - l.size() as i64) {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
}

#[derive(Debug)]
pub enum Ran<R> {
    Returned(R),
    Panicked(Panicked),
    /// Still running
    TimedOut,
}

pub struct Metered<R> {
    pub ran: Ran<R>,
    pub peak: i64,
    pub elapsed: Duration,
}

/// Runs `f` on its own thread, metered from its start. A call that does not return is left behind.
pub fn metered<R: Send + 'static>(limit: Duration, f: impl FnOnce() -> R + Send + 'static) -> Metered<R> {
    let (tx, rx) = channel();
    let start = Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            LIVE.with(|l| l.set(0));
            PEAK.with(|p| p.set(0));
            METERED.with(|m| m.set(true));
            let r = guard(f);
            METERED.with(|m| m.set(false));
            let _ = tx.send((r, PEAK.with(|p| p.get()), start.elapsed()));
        })
        .expect("thread");
    match rx.recv_timeout(limit) {
        Ok((r, peak, elapsed)) => {
            let _ = h.join();
            Metered {
                ran: match r {
                    Ok(x) => Ran::Returned(x),
                    Err(p) => Ran::Panicked(p),
                },
                peak,
                elapsed,
            }
        }
        Err(RecvTimeoutError::Timeout) => Metered { ran: Ran::TimedOut, peak: 0, elapsed: start.elapsed() },
        Err(RecvTimeoutError::Disconnected) => Metered {
            ran: Ran::Panicked(Panicked { msg: "the thread ended".into(), at: String::new() }),
            peak: 0,
            elapsed: start.elapsed(),
        },
    }
}
