//! Native witness / bounded stand-in driver.  Runs the REAL crates of /repo against
//! independent oracles written from the format specifications.
//!   zv search <PROP> --secs N --seed S --out DIR     (exit 0 none found, 1 witness written)
//!   zv replay <FILE>                                  (exit 1 if the witness still fails)
mod g;
#[cfg(feature = "core")] mod io;
#[cfg(feature = "qoi")] mod qoi;
#[cfg(feature = "farbfeld")] mod farbfeld;
#[cfg(feature = "ppm")] mod ppm;
#[cfg(feature = "png")] mod png;
#[cfg(feature = "inflate")] mod inflate;
#[cfg(any(feature = "jpeg", feature = "jpegs"))] mod jpeg;
#[cfg(feature = "bmp")] mod bmp;
#[cfg(feature = "psd")] mod psd;
#[cfg(feature = "hdr")] mod hdr;
#[cfg(feature = "jxl")] mod jxl;
#[cfg(feature = "image")] mod image;
#[cfg(feature = "procs")] mod procs;

use g::*;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::*;

pub type CaseFn = fn(&mut G) -> Result<(), String>;

#[allow(unused_variables)]
fn cases(p: &str) -> Vec<(&'static str, CaseFn)> {
    let mut v: Vec<(&'static str, CaseFn)> = vec![];
    #[cfg(feature = "core")] io::cases(p, &mut v);
    #[cfg(feature = "qoi")] qoi::cases(p, &mut v);
    #[cfg(feature = "farbfeld")] farbfeld::cases(p, &mut v);
    #[cfg(feature = "ppm")] ppm::cases(p, &mut v);
    #[cfg(feature = "png")] png::cases(p, &mut v);
    #[cfg(feature = "inflate")] inflate::cases(p, &mut v);
    #[cfg(any(feature = "jpeg", feature = "jpegs"))] jpeg::cases(p, &mut v);
    #[cfg(feature = "bmp")] bmp::cases(p, &mut v);
    #[cfg(feature = "psd")] psd::cases(p, &mut v);
    #[cfg(feature = "hdr")] hdr::cases(p, &mut v);
    #[cfg(feature = "jxl")] jxl::cases(p, &mut v);
    #[cfg(feature = "image")] image::cases(p, &mut v);
    #[cfg(feature = "procs")] procs::cases(p, &mut v);
    v
}

fn run_one(f: CaseFn, seed: u64, size: u32) -> (Result<(), String>, String, u64, bool) {
    let mut g = G::new(seed, size);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let loc = LAST_LOC.with(|l| l.borrow().clone());
            Err(format!("panic: {m} at {loc}"))
        }
    };
    (r, g.desc.clone(), g.hash, g.trivial)
}

thread_local! { static LAST_LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_LOC.try_with(|x| *x.borrow_mut() = l);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| -> String { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string()) };
    if a.len() < 3 { eprintln!("usage"); std::process::exit(2); }
    KNOWN.lock().unwrap().extend(opt("--known", "").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()));
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).expect("read replay");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.to_string())).unwrap_or_default();
        let (p, c) = (get("property"), get("case"));
        let (seed, size) = (get("seed").parse::<u64>().unwrap(), get("size").parse::<u32>().unwrap());
        for (n, f) in cases(&p) { if n == c {
            let done = std::sync::Arc::new(AtomicBool::new(false)); let d2 = done.clone();
            std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(60)); if !d2.load(Ordering::Relaxed) { println!("FAIL: did not terminate within 60 s"); std::process::exit(1) } });
            let (r, d, _, _) = run_one(f, seed, size); done.store(true, Ordering::Relaxed);
            println!("input: {d}");
            match r { Ok(()) => { println!("PASS"); std::process::exit(0) } Err(e) => { println!("FAIL: {e}"); std::process::exit(1) } }
        } }
        eprintln!("unknown case"); std::process::exit(2);
    }
    let prop = a[2].clone();
    let secs: f64 = opt("--secs", "10").parse().unwrap();
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let out = opt("--out", "/tmp");
    let only = opt("--case", "");
    let keep_going = a.iter().any(|x| x == "--all");
    let cs: Vec<_> = cases(&prop).into_iter().filter(|c| only.is_empty() || c.0 == only).collect();
    if cs.is_empty() { eprintln!("no cases for {prop}"); std::process::exit(2); }
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let hashes: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let fails: Mutex<Vec<(usize, u64, u32, String, String)>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let counts: Vec<AtomicU64> = cs.iter().map(|_| AtomicU64::new(0)).collect();
    let nt = 8usize;
    let journal = opt("--journal", "");
    let current: Vec<Mutex<Option<(Instant, usize, u64, u32)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let running = AtomicU64::new(nt as u64);
    let write_replay = |ci: usize, seed: u64, size: u32, msg: &str, desc: &str| -> String {
        let path = format!("{out}/{prop}-{}-{:x}.replay", cs[ci].0, seed);
        let _ = std::fs::create_dir_all(&out);
        std::fs::write(&path, format!("property: {prop}\ncase: {}\nseed: {}\nsize: {}\nfailure: {}\ninput: {}\nrerun: /verif/bin/replay.sh <this file>  (builds /verif/native against /repo and re-executes the case)\n", cs[ci].0, seed, size, msg.replace('\n', " "), desc.replace('\n', " "))).unwrap();
        path };
    std::thread::scope(|s| {
        { let (current, running, write_replay) = (&current, &running, &write_replay);
          s.spawn(move || { while running.load(Ordering::Relaxed) > 0 { std::thread::sleep(Duration::from_millis(50));
            for c in current { let c = *c.lock().unwrap(); if let Some((st, ci, sd, sz)) = c { if st.elapsed().as_secs() > 40 {
                println!("STATS {{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"per_case\": {{}}, \"samples\": [], \"wall_s\": 40}}");
                println!("WITNESS {}", write_replay(ci, sd, sz, "did not terminate within 40 s", "(see case and seed)")); println!("MSG did not terminate within 40 s"); std::process::exit(1) } } } } }); }
        for t in 0..nt {
            let (current, running, journal) = (&current, &running, &journal);
            let (cs, stop, evals, hashes, fails, samples, counts) = (&cs, &stop, &evals, &hashes, &fails, &samples, &counts);
            let prop = &prop;
            s.spawn(move || {
                let mut i = t as u64;
                let mut local: Vec<u64> = vec![];
                // every case runs at least 64 times even if the time budget is tiny
                while !stop.load(Ordering::Relaxed)
                    && (start.elapsed().as_secs_f64() < secs || i < 64 * cs.len() as u64) {
                    let ci = (i % cs.len() as u64) as usize;
                    let round = i / cs.len() as u64;
                    let size = 1 + (round % 40) as u32;
                    let cseed = mix(seed ^ mix(i ^ 0x9e37));
                    *current[t].lock().unwrap() = Some((Instant::now(), ci, cseed, size));
                    if !journal.is_empty() { let _ = std::fs::write(format!("{journal}.{t}"), format!("property: {prop}\ncase: {}\nseed: {cseed}\nsize: {size}\nfailure: process died\ninput: (see case and seed)\n", cs[ci].0)); }
                    let (r, d, h, triv) = run_one(cs[ci].1, cseed, size);
                    *current[t].lock().unwrap() = None;
                    evals.fetch_add(1, Ordering::Relaxed);
                    counts[ci].fetch_add(1, Ordering::Relaxed);
                    if !triv && local.len() < 200_000 { local.push(h); }
                    if round == 3 { samples.lock().unwrap().push(format!("{}: {}", cs[ci].0, d.chars().take(300).collect::<String>())); }
                    if let Err(e) = r {
                        let mut f = fails.lock().unwrap();
                        let key = |s: &str| s.chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>();
                        if !f.iter().any(|x| x.0 == ci && key(&x.3) == key(&e)) || !keep_going { f.push((ci, cseed, size, e, d)); }
                        if !keep_going { stop.store(true, Ordering::Relaxed); }
                    }
                    i += nt as u64;
                }
                hashes.lock().unwrap().extend(local);
                running.fetch_sub(1, Ordering::Relaxed);
            });
        }
    });
    let f = fails.into_inner().unwrap();
    let mut sm = samples.into_inner().unwrap(); sm.truncate(12);
    let per: Vec<String> = cs.iter().zip(&counts).map(|(c, n)| format!("\"{}\": {}", c.0, n.load(Ordering::Relaxed))).collect();
    println!("STATS {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"per_case\": {{{}}}, \"samples\": [{}], \"wall_s\": {:.2}}}",
        evals.load(Ordering::Relaxed), hashes.into_inner().unwrap().len(), per.join(", "),
        sm.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "), start.elapsed().as_secs_f64());
    for (t, (n, d)) in HITS.lock().unwrap().iter() { println!("KNOWN {t} {n} {}", d.replace('\n', " ")); }
    if f.is_empty() { return; }
    let mut best = f.clone();
    best.sort_by_key(|x| x.2);
    if keep_going { for b in &best { println!("FAIL case={} size={} msg={} input={}", cs[b.0].0, b.2, b.3, b.4.chars().take(400).collect::<String>()); } }
    // shrink: look for a failure of the same case at the smallest size
    let b = best[0].clone();
    let mut cur = b.clone();
    'o: for size in 1..b.2 {
        for k in 0..300u64 {
            let sd = mix(b.1 ^ k);
            let (r, d, _, _) = run_one(cs[b.0].1, sd, size);
            if let Err(e) = r { cur = (b.0, sd, size, e, d); break 'o; }
        }
    }
    let path = write_replay(cur.0, cur.1, cur.2, &cur.3, &cur.4);
    println!("WITNESS {path}");
    println!("MSG {}", cur.3.replace('\n', " "));
    std::process::exit(1);
}
