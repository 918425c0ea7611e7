//! Native side of the harness: replays counterexamples and searches for failing inputs on the real
//! code, compiled from /repo.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use crate::nd;

fn hex(r: &[Vec<u8>]) -> String {
    if r.is_empty() {
        return "-".into();
    }
    r.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
}
fn unhex(s: &str) -> Vec<Vec<u8>> {
    if s == "-" || s.is_empty() {
        return Vec::new();
    }
    s.split(',')
        .map(|p| (0..p.len() / 2).map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).expect("hex")).collect())
        .collect()
}

enum Run {
    Held,
    Discarded,
    Broke(String),
}
fn run(f: fn()) -> Run {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Run::Held,
        Err(e) => {
            if e.is::<nd::Discard>() {
                Run::Discarded
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Run::Broke(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Run::Broke(s.clone())
            } else {
                Run::Broke("panic".into())
            }
        }
    }
}

/// Exit 0: held; 1: broken (a line BROKEN); 3: unknown harness.
pub fn main(extra: Vec<(&'static str, fn())>) {
    let all = || {
        let mut v = crate::all();
        v.extend(extra.iter().cloned());
        v
    };
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    match get(1) {
        "list" => {
            for (n, _) in all() {
                println!("{n}");
            }
        }
        "replay" => {
            let Some((_, f)) = all().into_iter().find(|(n, _)| *n == get(2)) else {
                println!("UNKNOWN {}", get(2));
                std::process::exit(3);
            };
            nd::set_replay(unhex(get(3)));
            match run(f) {
                Run::Held => println!("HELD {}", get(2)),
                Run::Discarded => println!("DISCARDED {}", get(2)),
                Run::Broke(m) => {
                    println!("BROKEN {} {} {}", get(2), hex(&unhex(get(3))), m.replace('\n', " "));
                    std::process::exit(1);
                }
            }
        }
        "search" => {
            // search <prefix,prefix..> <seed> <seconds>
            let pre: Vec<&str> = get(2).split(',').collect();
            let seed: u64 = get(3).parse().unwrap_or(1);
            let secs: f64 = get(4).parse().unwrap_or(5.0);
            let sel: Vec<_> = all().into_iter().filter(|(n, _)| pre.iter().any(|p| n.starts_with(p))).collect();
            if sel.is_empty() {
                println!("UNKNOWN {}", get(2));
                std::process::exit(3);
            }
            let (mut runs, mut discards) = (0u64, 0u64);
            // Half of the time for the generated types (one harness each, many alike), half for the
            // others, such as the sequences of writes.
            let one = |n: &str| n.contains("/shapes::");
            let shapes = sel.iter().filter(|(n, _)| one(n)).count();
            let others = sel.len() - shapes;
            let each = |n: &str| match (shapes, others) {
                (0, k) | (k, 0) => secs / k as f64,
                _ => secs / 2.0 / if one(n) { shapes } else { others } as f64,
            };
            for (n, f) in &sel {
                let end = Instant::now() + Duration::from_secs_f64(each(n));
                let mut k = 0u64;
                loop {
                    nd::set_random(seed.wrapping_mul(0x1_0000_01b3).wrapping_add(k));
                    match run(*f) {
                        Run::Held => {}
                        Run::Discarded => discards += 1,
                        Run::Broke(m) => {
                            println!("BROKEN {n} {} {}", hex(&nd::recorded()), m.replace('\n', " "));
                            std::process::exit(1);
                        }
                    }
                    runs += 1;
                    k += 1;
                    // A harness that draws nothing has one run.
                    if nd::recorded().is_empty() || Instant::now() >= end {
                        break;
                    }
                }
            }
            println!("HELD harnesses={} runs={runs} discarded={discards}", sel.len());
        }
        "strides" => {
            for s in crate::misc::strides() {
                println!("STRIDE {} {} {} {}", s.0, s.1.replace(' ', ""), s.2, s.3);
            }
        }
        _ => {
            eprintln!("usage: vh list | replay NAME HEX | search PREFIXES SEED SECONDS | strides");
            std::process::exit(2);
        }
    }
}
