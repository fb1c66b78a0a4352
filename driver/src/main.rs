//! Runs the real code on the cases of a file (one JSON value per line) and records what can be
//! observed, one JSON value per case.
//!
//!     driver CASES OUT SCRATCH

mod misc;
mod num;
mod obj;
mod restart;
mod run;

use std::cell::RefCell;
use std::io::{BufRead, BufWriter, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs `f`, returns the message if it panics
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let text = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if text.starts_with("driver:") {
            eprintln!("{}", text);
            std::process::exit(3);
        }
        let at = PANIC.with(|p| p.borrow().clone());
        format!("{} {}", text, at).trim().to_string()
    })
}

static mut CAPTURE: i32 = -1;

/// Everything written to the standard output since the last call
pub fn take_output() -> String {
    std::io::stdout().flush().unwrap();
    unsafe {
        let fd = CAPTURE;
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        if len <= 0 {
            return String::new();
        }
        let mut buf = vec![0u8; len as usize];
        let got = libc::pread(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len(), 0);
        assert_eq!(got, len as isize);
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        String::from_utf8_lossy(&buf).into_owned()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let scratch = &args[3];

    // The standard output goes to a file in memory, the real one is closed
    unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const libc::c_char, 0);
        assert!(fd >= 0);
        libc::dup2(fd, 1);
        CAPTURE = fd;
        let _ = std::fs::File::from_raw_fd(libc::dup(2));
    }
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("({}:{})", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = at);
    }));

    for line in cases.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let threads = case.get("threads").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        let go = || match case["kind"].as_str().unwrap() {
            "run" => run::run_case(&case, scratch),
            "restart" => restart::restart_case(&case),
            "build" => misc::build_case(&case),
            "scale" => misc::scale_case(&case),
            "conv" => misc::conv_case(&case),
            "bounds" => misc::bounds_case(&case),
            "cells" => misc::cells_case(&case),
            k => panic!("kind {}", k),
        };
        // So that a case that does not end can be named
        if let Some(f) = args.get(4) {
            std::fs::write(f, case["id"].to_string()).unwrap();
        }
        let result = if threads > 0 {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            // The observer and the run must be on one thread
            pool.install(go)
        } else {
            go()
        };
        let mut result = result;
        if case.get("echo").is_some() {
            result["case"] = case.clone();
        }
        writeln!(out, "{}", result).unwrap();
        out.flush().unwrap();
    }
    let _ = json!(null);
}
