//! Runs programs of numeric operations on the real library and records one event per operation.
//!
//! usage: pgn-exec PROGRAM EVENTS [START]
//!
//! A program is a text file, one operation per line.  Every event carries the operation with its
//! arguments, its outcome and the change it made to the register file (the byte form of every
//! register that differs after the call, whichever register the call was meant to write).
mod alloc;
mod ops;

use std::fs;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;

pub static TICK: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn setlocale(category: std::os::raw::c_int, locale: *const std::os::raw::c_char) -> *mut std::os::raw::c_char;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prog = fs::read_to_string(&args[1]).expect("program");
    let mut out = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("events");
    let start: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let limit: u64 = std::env::var("OP_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(20);

    // a locale with a decimal comma, where there is one (see build_locale in tools/check.py)
    unsafe {
        setlocale(6, b"de_DE.UTF-8\0".as_ptr() as *const _);
    }
    std::panic::set_hook(Box::new(|_| {}));

    // watchdog: an operation that does not come back ends the process with status 99
    // (it has to run before memory is accounted for)
    static RUNS: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(move || {
        RUNS.store(1, Ordering::SeqCst);
        let mut last = TICK.load(Ordering::Relaxed);
        let mut same = 0u64;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICK.load(Ordering::Relaxed);
            if now == last {
                same += 1;
                if same >= limit * 2 {
                    std::process::exit(99);
                }
            } else {
                same = 0;
                last = now;
            }
        }
    });

    while RUNS.load(Ordering::SeqCst) == 0 {
        std::thread::sleep(Duration::from_millis(1));
    }

    let mut m = ops::Machine::new();
    for (i, line) in prog.lines().enumerate().skip(start) {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        TICK.fetch_add(1, Ordering::Relaxed);
        let ev = m.step(i, line);
        out.write_all(ev.as_bytes()).unwrap();
    }
    std::mem::drop(m);
}
