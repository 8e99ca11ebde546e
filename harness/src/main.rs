//! vmon: drives the real crate and decides properties C01..C20 by oracles observing its answers.

#![allow(dead_code)]

mod ctx;
mod dfa;
mod props;
mod rng;
mod rx;
mod span;
mod walk;

use ctx::{install_panic_hook, is_harness, last_panic, Ctx, Tier, R};
use rng::{mix, Rng};
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Family {
    pub name: &'static str,
    /// number of cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    /// index enumerates a fixed finite space (the seed is not used to choose inputs)
    pub enumerated: bool,
    pub run: fn(&mut Ctx, u64, &mut Rng) -> R,
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h ^ b as u64))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Outcome {
    Held,
    Violated(String),
    Harness(String),
}

fn run_case(c: &mut Ctx, prop: &str, fam: &Family, idx: u64, seed: u64, salt: u64) -> Outcome {
    let mut rng = Rng::new(&[seed, hash_str(prop), hash_str(fam.name), idx, salt]);
    match catch_unwind(AssertUnwindSafe(|| (fam.run)(c, idx, &mut rng))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) => {
            if m.starts_with("HARNESS") {
                Outcome::Harness(m)
            } else {
                Outcome::Violated(m)
            }
        }
        Err(_) => {
            let (loc, msg) = last_panic();
            if is_harness(&loc) {
                Outcome::Harness(format!("panic at {loc}: {msg}"))
            } else {
                Outcome::Violated(format!("the code under test panicked at {loc}: {msg}"))
            }
        }
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 / (1 << 20))
}

fn args() -> (Vec<String>, HashMap<String, String>) {
    let mut pos = vec![];
    let mut opt = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            opt.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            pos.push(a);
        }
    }
    (pos, opt)
}

fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(70);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let (pos, opt) = args();
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| get(k, &d.to_string()).parse::<u64>().expect("bad number");
    let tier = if get("tier", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = num("seed", 1);
    // random families draw different cases in the two build profiles
    let profile = get("profile", "checked");
    let salt = if profile == "plain" { 1 } else { 0 };
    match pos.first().map(|s| s.as_str()) {
        Some("families") => {
            for p in props::ALL {
                for f in props::families(p) {
                    println!("{p} {} quick={} thorough={} enumerated={}", f.name, f.quick, f.thorough, f.enumerated);
                }
            }
            0
        }
        Some("one") => {
            // replay of a single case
            install_panic_hook(true);
            let prop = &pos[1];
            let fams = props::families(prop);
            let fname = get("family", "");
            let fam = fams.iter().find(|f| f.name == fname).expect("unknown family");
            let idx = num("index", 0);
            let mut c = Ctx::new(tier, seed, get("verbose", "1") == "1");
            let t = Instant::now();
            let o = run_case(&mut c, prop, fam, idx, seed, salt);
            println!("# {:?} {:.3}s stats {:?}", fname, t.elapsed().as_secs_f64(), c.stats);
            match o {
                Outcome::Held => {
                    println!("HELD");
                    0
                }
                Outcome::Violated(m) => {
                    println!("VIOLATED {m}");
                    1
                }
                Outcome::Harness(m) => {
                    println!("HARNESS-ERROR {m}");
                    3
                }
            }
        }
        Some("run") => {
            install_panic_hook(false);
            let prop = pos[1].clone();
            let worker = num("worker", 0);
            let workers = num("workers", 1);
            let only = get("family", "");
            let start_fam = num("start-family", 0) as usize;
            let start_idx = num("start-index", 0);
            let rss_limit = num("rss-mb", 1500);
            let secs = num("seconds", 600);
            let max_viol = num("max-violations", 3);
            let out = get("out", "");
            let progress = opt.get("progress").map(|p| {
                std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(p).unwrap()
            });
            let begin = Instant::now();
            let mut c = Ctx::new(tier, seed, false);
            let fams: Vec<Family> = props::families(&prop);
            assert!(!fams.is_empty(), "no such property");
            let mut viols = 0;
            let mut state = "done";
            let mut pos_f = fams.len();
            let mut pos_i = 0;
            let deadline = begin + Duration::from_secs(secs);
            let mut famstats: Vec<(String, u64, u64)> = vec![];
            let mut slow: (u64, String) = (0, String::new());
            'outer: for (fi, fam) in fams.iter().enumerate().skip(start_fam) {
                if !only.is_empty() && fam.name != only {
                    continue;
                }
                let total = if tier == Tier::Thorough { fam.thorough } else { fam.quick };
                let now = Instant::now();
                let slice_end = if now >= deadline {
                    now
                } else {
                    now + (deadline - now) / ((fams.len() - fi) as u32)
                };
                c.family_start(fam.name);
                let mut idx = if fi == start_fam && start_idx > 0 { start_idx } else { worker };
                let mut done = 0u64;
                while idx < total {
                    if let Some(p) = &progress {
                        let mut b = [0u8; 24];
                        b[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                        b[8..16].copy_from_slice(&idx.to_le_bytes());
                        b[16..].copy_from_slice(&done.to_le_bytes());
                        let _ = p.write_at(&b, 0);
                    }
                    let t = Instant::now();
                    let o = run_case(&mut c, &prop, fam, idx, seed, salt);
                    let el = t.elapsed();
                    let ms = el.as_millis() as u64;
                    if ms > slow.0 {
                        slow = (ms, format!("{}:{}", fam.name, idx));
                    }
                    match o {
                        Outcome::Held => (),
                        Outcome::Violated(m) => {
                            viols += 1;
                            println!(
                                "{{\"type\":\"violation\",\"family\":{},\"index\":{},\"detail\":{}}}",
                                json_str(fam.name), idx, json_str(&m)
                            );
                            let _ = std::io::stdout().flush();
                            if viols >= max_viol {
                                state = "violations";
                                break 'outer;
                            }
                        }
                        Outcome::Harness(m) => {
                            println!(
                                "{{\"type\":\"harness\",\"family\":{},\"index\":{},\"detail\":{}}}",
                                json_str(fam.name), idx, json_str(&m)
                            );
                            state = "harness";
                            break 'outer;
                        }
                    }
                    done += 1;
                    idx += workers;
                    if idx < total && (done % 16 == 0 || ms > 20) {
                        if rss_mb() > rss_limit {
                            famstats.push((fam.name.to_string(), done, 0));
                            state = "paused";
                            pos_f = fi;
                            pos_i = idx;
                            break 'outer;
                        }
                        if Instant::now() > slice_end {
                            famstats.push((fam.name.to_string(), done, 1));
                            continue 'outer;
                        }
                    }
                }
                famstats.push((fam.name.to_string(), done, 0));
                // between families, release leaked terms when there are many of them
                if fi + 1 < fams.len() && only.is_empty() && rss_mb() > rss_limit / 2 {
                    state = "paused";
                    pos_f = fi + 1;
                    pos_i = 0;
                    break 'outer;
                }
            }
            if !out.is_empty() {
                let mut b = Vec::with_capacity(c.hashes.len() * 8);
                c.hashes.sort_unstable();
                c.hashes.dedup();
                for h in &c.hashes {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
                f.write_all(&b).unwrap();
            }
            let stats = c
                .stats
                .iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(",");
            let samples = c.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
            let fs = famstats
                .iter()
                .map(|(n, d, t)| format!("[{},{},{}]", json_str(n), d, t))
                .collect::<Vec<_>>()
                .join(",");
            println!(
                "{{\"type\":\"end\",\"state\":\"{state}\",\"family\":{pos_f},\"index\":{pos_i},\"evals\":{},\"enumerated\":{},\"stats\":{{{stats}}},\"samples\":[{samples}],\"families\":[{fs}],\"slowest\":[{},{}],\"rss_mb\":{}}}",
                c.evals, c.enumerated, slow.0, json_str(&slow.1), rss_mb()
            );
            0
        }
        Some("merge") => {
            // count distinct hashes over files
            let mut v: Vec<u64> = vec![];
            for f in &pos[1..] {
                if let Ok(b) = std::fs::read(f) {
                    v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            0
        }
        _ => {
            eprintln!("usage: vmon run|one|families|merge ...");
            64
        }
    }
}
