//! Native runner: replay of counterexamples and search for failing inputs on the
//! real code with the real dependencies.
//!   list
//!   search PREFIX SEED MILLIS      one line of JSON per harness
//!   replay NAME HEXFILE            HEXFILE: one drawn value per line, hex bytes little endian
use harness_native::shim::imp::{Skip, Source, SRC};
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[global_allocator]
static A: harness_native::shim::alloc::Counting = harness_native::shim::alloc::Counting;

static COUNT: AtomicU64 = AtomicU64::new(0);
fn one(f: fn()) -> (Option<String>, bool, bool, Vec<Vec<u8>>) {
    let r = catch_unwind(|| f());
    harness_native::shim::alloc::stop();
    let (log, reached) = SRC.with(|s| {
        let mut s = s.borrow_mut();
        (std::mem::take(&mut s.log), std::mem::take(&mut s.reached))
    });
    match r {
        Ok(()) => (None, false, reached, log),
        Err(e) => {
            if e.downcast_ref::<Skip>().is_some() {
                return (None, true, reached, log);
            }
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            let loc = LOC.with(|l| l.borrow().clone());
            (Some(format!("{} at {}", m, loc)), false, reached, log)
        }
    }
}
thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }
fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect()
}
fn hex(l: &[Vec<u8>]) -> String {
    l.iter().map(|v| v.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect::<Vec<_>>().join(" ")
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        LOC.with(|l| *l.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
    }));
    let a: Vec<String> = std::env::args().collect();
    let all = harness_native::all();
    match a[1].as_str() {
        "list" => {
            for (n, _) in all {
                println!("{}", n)
            }
        }
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let ms: u64 = a[4].parse().unwrap();
            if std::env::var("ZV_GUARD").is_ok() {
                // one run that takes very long ends the process with a status of its own
                std::thread::spawn(|| {
                    let (mut last, mut since, mut shown) = (0, Instant::now(), 0);
                    loop {
                        std::thread::sleep(Duration::from_millis(10));
                        let n = COUNT.load(Relaxed);
                        if n != last {
                            if n >= 4 * shown {
                                shown = n;
                                println!("ZV-RUNS {}", n);
                            }
                            last = n;
                            since = Instant::now();
                        } else if since.elapsed() > Duration::from_secs(4) {
                            println!("ZV-RUNS {}", n);
                            std::process::exit(77)
                        }
                    }
                });
            }
            for (name, f) in all.iter().filter(|x| match a[2].strip_prefix('=') {
                Some(n) => x.0 == n,
                None => x.0.starts_with(a[2].as_str()),
            }) {
                let t = Instant::now();
                let mut runs = 0u64;
                let mut skipped = 0u64;
                let mut reached = false;
                let mut fail = None;
                let mut distinct = std::collections::HashSet::new();
                let mut sample = String::new();
                let h = name.bytes().fold(seed, |h, b| h.wrapping_mul(1099511628211).wrapping_add(b as u64));
                while t.elapsed() < Duration::from_millis(ms) && runs < 5_000_000 {
                    SRC.with(|s| *s.borrow_mut() = Source { replay: None, rng: h.wrapping_add(runs.wrapping_mul(0x1234567_89abcdef)), ..Default::default() });
                    let (e, skip, re, log) = one(*f);
                    runs += 1;
                    COUNT.fetch_add(1, Relaxed);
                    reached |= re;
                    if skip {
                        skipped += 1;
                    } else {
                        if sample.is_empty() || runs == 50 {
                            sample = hex(&log);
                        }
                        if distinct.len() < 100_000 {
                            distinct.insert(log.clone());
                        }
                    }
                    if let Some(m) = e {
                        fail = Some((m, log));
                        break;
                    }
                    if log.is_empty() {
                        break;
                    }
                }
                let f = match fail {
                    Some((m, log)) => format!("{{\"message\":\"{}\",\"draws\":\"{}\"}}", esc(&m), hex(&log)),
                    None => "null".into(),
                };
                println!(
                    "{{\"harness\":\"{}\",\"runs\":{},\"skipped\":{},\"distinct\":{},\"reached\":{},\"sample\":\"{}\",\"fail\":{}}}",
                    name, runs, skipped, distinct.len(), reached, sample, f
                );
            }
        }
        "replay" => {
            let txt = std::fs::read_to_string(&a[3]).unwrap();
            let q = txt
                .split_whitespace()
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            SRC.with(|s| *s.borrow_mut() = Source { replay: Some(q), ..Default::default() });
            let f = all.iter().find(|x| x.0 == a[2]).expect("unknown harness").1;
            let (e, skip, _, _) = one(f);
            if skip {
                println!("SKIPPED");
                std::process::exit(3);
            }
            match e {
                Some(m) => {
                    println!("FAIL {}", esc(&m));
                    std::process::exit(1);
                }
                None => println!("PASS"),
            }
        }
        _ => panic!("usage"),
    }
}
