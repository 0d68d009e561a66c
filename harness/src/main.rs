//! Executes jobs (sequences of public-API operations) against the real crate and records, for every
//! operation, its arguments and everything observable about its outcome.  It judges nothing: the
//! recorded traces are validated by TLC against the specification in /verif/spec.
//!
//! usage: harness JOBS.ndjson OUT.ndjson [TIMEOUT_S]
//! Every double is written as its bit pattern [hi, lo] (two signed 32-bit halves).
mod iters;
mod ops;
mod rules;

use serde_json::{Value, json};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn fb(x: f64) -> Value {
    let b = x.to_bits();
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}
pub fn u64b(b: u64) -> Value {
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}
pub fn bf(v: &Value) -> f64 {
    let h = v[0].as_i64().expect("hi") as u32 as u64;
    let l = v[1].as_i64().expect("lo") as u32 as u64;
    f64::from_bits(h << 32 | l)
}

static BEAT: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let jobs: Vec<Value> = BufReader::new(std::fs::File::open(&args[1]).expect("jobs file"))
        .lines()
        .map(|l| serde_json::from_str(&l.expect("read")).expect("job json"))
        .collect();
    let limit = Duration::from_secs(args.get(3).map_or(60, |s| s.parse().unwrap()));
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::fs::File::create(&args[2]).expect("out file");
    // a watchdog ends the process when one job exceeds the limit; the driver reports it
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > limit {
                std::process::exit(124);
            }
        }
    });
    let mut w = BufWriter::new(out);
    for job in &jobs {
        BEAT.fetch_add(1, Ordering::SeqCst);
        let rec = ops::run_job(job);
        serde_json::to_writer(&mut w, &rec).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
    }
}
