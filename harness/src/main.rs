
mod core;
mod web;
mod families;
mod oracles;

use std::{
    io::{BufRead, Write},
    sync::{
        Mutex,
        atomic::{AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use crate::core::*;

/// usage: harness IN OUT [PROGRESS]
/// IN: one JSON object per line, {"f": family, "k": kind, "in": [numbers], "i": id}.
/// With PROGRESS the run is sequential, and the line about to run is written there first.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap()).lines().map(|l| l.unwrap()).collect();
    let progress = args.get(3).cloned();
    let threads = if progress.is_some() || std::env::var_os("VERIF_ONE_THREAD").is_some() { 1 } else { 8 };
    let fams = families::families();
    let next = AtomicUsize::new(0);
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap()));
    // every input again, in the opposite order: what was answered before must not matter
    let twice = std::env::var_os("VERIF_TWICE").is_some();
    let first: Vec<Mutex<String>> = (0..if twice { lines.len() } else { 0 }).map(|_| Mutex::new(String::new())).collect();
    let met = std::sync::Barrier::new(threads);
    let again = AtomicUsize::new(0);
    let start = Instant::now();
    // per thread: line being run + 1, and when it started (ms)
    let busy: Vec<(AtomicUsize, AtomicU64)> = (0..threads).map(|_| (AtomicUsize::new(0), AtomicU64::new(0))).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (lines, fams, next, out, busy, done, progress, first, met, again) = (&lines, &fams, &next, &out, &busy, &done, &progress, &first, &met, &again);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let n = next.fetch_add(1, Ordering::SeqCst);
                        if n >= lines.len() {
                            break;
                        }
                        busy[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        busy[t].0.store(n + 1, Ordering::SeqCst);
                        if let Some(p) = progress {
                            std::fs::write(p, n.to_string()).unwrap();
                        }
                        let rec = run(fams, &lines[n]);
                        if twice {
                            *first[n].lock().unwrap() = rec;
                        } else {
                            let mut o = out.lock().unwrap();
                            o.write_all(rec.as_bytes()).unwrap();
                            o.write_all(b"\n").unwrap();
                        }
                        busy[t].0.store(0, Ordering::SeqCst);
                    }
                    if twice {
                        met.wait();
                        loop {
                            let n = again.fetch_add(1, Ordering::SeqCst);
                            if n >= lines.len() {
                                break;
                            }
                            let n = lines.len() - 1 - n;
                            busy[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                            busy[t].0.store(n + 1, Ordering::SeqCst);
                            if let Some(p) = progress {
                                std::fs::write(p, n.to_string()).unwrap();
                            }
                            let rec = std::mem::take(&mut *first[n].lock().unwrap());
                            let same = run(fams, &lines[n]) == rec;
                            let mut o = out.lock().unwrap();
                            write!(o, "{{\"same\":{same},{}\n", &rec[1..]).unwrap();
                            busy[t].0.store(0, Ordering::SeqCst);
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: an input that does not come back is a finding, not a stuck check
        let (busy, done, out) = (&busy, &done, &out);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64;
                for b in busy {
                    let n = b.0.load(Ordering::SeqCst);
                    if n != 0 && now.saturating_sub(b.1.load(Ordering::SeqCst)) > 60_000 {
                        let _ = out.lock().unwrap().flush();
                        eprintln!("HANG {}", n - 1);
                        std::process::exit(42);
                    }
                }
            }
        });
    });
    out.lock().unwrap().flush().unwrap();
}

fn numbers(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}

fn run(fams: &[Family], line: &str) -> String {
    let v: Value = serde_json::from_str(line).unwrap();
    let input = Input {
        kind: v["k"].as_str().unwrap().to_string(),
        c:    match v.get("n").and_then(|n| n.as_u64()) {
            None => numbers(&v["in"]),
            // a long input: its middle n times
            Some(n) => {
                let (head, mid, tail) = (numbers(&v["in"][0]), numbers(&v["in"][1]), numbers(&v["in"][2]));
                head.into_iter().chain(mid.iter().copied().cycle().take(mid.len() * n as usize)).chain(tail).collect()
            },
        },
    };
    let fam = fams.iter().find(|f| f.name == v["f"].as_str().unwrap()).expect("family");
    let oracle = (fam.oracle)(&input);
    let mut groups: Vec<(String, Vec<usize>)> = Vec::new();
    let mut seen: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
    for (c, session) in fam.configs.iter().enumerate() {
        let r = session(&input);
        if r.is_null() {
            continue; // this configuration does not take this kind of input
        }
        let r = r.to_string();
        match seen.get(&r) {
            Some(g) => groups[*g].1.push(c + 1),
            None => {
                seen.insert(r.clone(), groups.len());
                groups.push((r, vec![c + 1]));
            },
        }
    }
    let g: Vec<String> = groups.iter().map(|(r, c)| format!("{{\"c\":{},\"r\":{r}}}", serde_json::to_string(c).unwrap())).collect();
    format!(
        "{{\"i\":{},\"f\":{},\"k\":{},\"in\":{},\"o\":{},\"g\":[{}]}}",
        v["i"],
        v["f"],
        v["k"],
        v["in"],
        oracle,
        g.join(",")
    )
}
