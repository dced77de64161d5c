#[macro_use]
mod util;
mod alloc;
mod build;
mod cx;
mod engine;
mod fs;
mod geom;
mod hk;
mod props;
mod rng;
mod valid;

use cx::Cx;
use rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Cx),
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub exhaustive: bool,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("CBMH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Verdict {
    viol: Option<String>,
    trace: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    sig: u64,
    nontrivial: bool,
    sample: Option<String>,
}

fn run_case(p: &'static Prop, idx: u64, seed: u64, thorough: bool, scratch: &Path) -> Verdict {
    let cs = mix(mix(seed, hash_bytes(p.id.as_bytes())), idx);
    let mut cx = Cx {
        prop: p.id,
        idx,
        rng: Rng::new(cs).varied(!["C06", "C07", "C09", "C11", "C13", "C21", "C22", "C23", "C24"].contains(&p.id)),
        thorough,
        trace: vec![],
        counters: BTreeMap::new(),
        viol: None,
        sig: 0,
        nontrivial: true,
        sample: None,
        scratch: scratch.to_path_buf(),
        asan: std::env::var("CBMH_ASAN").is_ok(),
    };
    hk::reset(20_000_000);
    PANIC.with(|x| x.borrow_mut().take());
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (p.case)(&mut cx)));
    hk::clear_hooks();
    if r.is_err() {
        let m = PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
        if cx.viol.is_none() {
            cx.viol = Some(format!("panic: {}", m));
        }
    }
    Verdict { viol: cx.viol, trace: cx.trace, counters: cx.counters, sig: cx.sig, nontrivial: cx.nontrivial, sample: cx.sample }
}

fn write_replay(p: &Prop, idx: u64, seed: u64, thorough: bool, msg: &str, trace: &[String]) -> PathBuf {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{}-{}.txt", p.id, idx));
    let mut s = format!(
        "property={}\nseed={}\nindex={}\ntier={}\nmessage={}\n# re-run this case: ./check.sh {} replay {}\n# operations of the case:\n",
        p.id,
        seed,
        idx,
        if thorough { "thorough" } else { "quick" },
        msg.replace('\n', " "),
        p.id,
        path.display()
    );
    for t in trace {
        s.push_str(t);
        s.push('\n');
    }
    let _ = std::fs::write(&path, s);
    path
}

fn thread_cpu(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    sigs: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    viols: Vec<(u64, String, Vec<String>)>,
    io: (u64, u64, u64),
}

fn worker(p: &'static Prop, thorough: bool, scratch: PathBuf) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let n = if let Ok(v) = std::env::var("CBMH_CASES") {
        v.parse().unwrap()
    } else if thorough {
        p.thorough
    } else {
        p.quick
    };
    let wall_limit = Duration::from_secs(if thorough { 3 * 3600 } else { 400 });
    let threads = 8usize;
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let current: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(u64::MAX)).collect());
    let tids: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let mut handles = vec![];
    for k in 0..threads {
        let (next, stop, agg, current, tids) = (next.clone(), stop.clone(), agg.clone(), current.clone(), tids.clone());
        let dir = scratch.join(format!("t{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        let prog = scratch.join(format!("progress{}", k));
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    hk::install();
                    if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                        tids.lock().unwrap()[k] = l.file_name().map(|x| x.to_string_lossy().into_owned());
                    }
                    use std::os::unix::fs::FileExt;
                    let pf = std::fs::File::create(&prog).unwrap();
                    let mut local = Agg::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > wall_limit {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        current[k].store(i, Ordering::Relaxed);
                        let _ = pf.write_at(format!("{:20}", i).as_bytes(), 0);
                        let v = run_case(p, i, seed, thorough, &dir);
                        current[k].store(u64::MAX, Ordering::Relaxed);
                        local.evaluations += 1;
                        if v.nontrivial {
                            local.sigs.insert(v.sig);
                        }
                        for (a, b) in v.counters {
                            *local.counters.entry(a).or_insert(0) += b;
                        }
                        if i < 3 {
                            let s = v.sample.unwrap_or_else(|| {
                                let t: Vec<&str> = v.trace.iter().take(12).map(|s| s.as_str()).collect();
                                format!("{} ({} steps in all)", t.join("; "), v.trace.len())
                            });
                            local.samples.push((i, s));
                        }
                        if let Some(m) = v.viol {
                            local.viols.push((i, m, v.trace));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    hk::reset(0);
                    local.io = hk::with(|s| s.total);
                    let _ = pf.write_at(format!("{:20}", "done").as_bytes(), 0);
                    let mut a = agg.lock().unwrap();
                    a.evaluations += local.evaluations;
                    a.sigs.extend(local.sigs);
                    for (x, y) in local.counters {
                        *a.counters.entry(x).or_insert(0) += y;
                    }
                    a.samples.extend(local.samples);
                    a.viols.extend(local.viols);
                    a.io.0 += local.io.0;
                    a.io.1 += local.io.1;
                    a.io.2 += local.io.2;
                })
                .unwrap(),
        );
    }
    // CPU-time watchdog: a case that burns this much CPU does not terminate.
    let cpu_limit: f64 = std::env::var("CBMH_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(90.0);
    let mut marks: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); threads];
    while !handles.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..threads {
            let c = current[k].load(Ordering::Relaxed);
            if c == u64::MAX {
                continue;
            }
            let tid = tids.lock().unwrap()[k].clone();
            let cpu = tid.and_then(|t| thread_cpu(&t)).unwrap_or(0.0);
            if marks[k].0 != c {
                marks[k] = (c, cpu);
            } else if cpu - marks[k].1 > cpu_limit {
                let msg = format!("case {} used more than {} s of CPU: an operation does not terminate", c, cpu_limit);
                let path = write_replay(p, c, seed, thorough, &msg, &[]);
                println!("{}", msg);
                write_evidence(p, seed, thorough, t0.elapsed(), &Agg::default(), 1, &msg);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                std::process::exit(1);
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut a = agg.lock().unwrap();
    for l in std::fs::read_to_string(scratch.join("seen")).unwrap_or_default().lines() {
        if let Some((k, v)) = l.split_once('=') {
            a.counters.insert(Box::leak(k.to_string().into_boxed_str()), v.parse().unwrap_or(0));
        }
    }
    a.samples.sort();
    a.viols.sort_by_key(|v| v.0);
    let nv = a.viols.len();
    write_evidence(p, seed, thorough, t0.elapsed(), &a, nv, "");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} block reads, {} block writes, {} flushes, {:.1} s",
        p.id, a.evaluations, a.sigs.len(), a.io.0, a.io.1, a.io.2, t0.elapsed().as_secs_f64()
    );
    for (x, y) in &a.counters {
        println!("  {} = {}", x, y);
    }
    if a.viols.is_empty() {
        return 0;
    }
    for (i, m, t) in a.viols.iter().take(3) {
        let path = write_replay(p, *i, seed, thorough, m, t);
        println!("case {}: {}", i, m);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    1
}

fn write_evidence(p: &Prop, seed: u64, thorough: bool, wall: Duration, a: &Agg, viols: usize, note: &str) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", esc(p.id)));
    s.push_str(&format!(" \"tier\": \"{}\",\n", if thorough { "thorough" } else { "quick" }));
    s.push_str(&format!(" \"seed\": {},\n \"level\": {},\n", seed, esc(p.level)));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", a.evaluations, a.sigs.len()));
    s.push_str(&format!("  \"rule\": {},\n", esc(p.rule)));
    s.push_str("  \"samples\": [");
    s.push_str(&a.samples.iter().map(|x| esc(&x.1)).collect::<Vec<_>>().join(", "));
    if a.samples.is_empty() {
        s.push_str(&esc(if note.is_empty() { "no case completed" } else { note }));
    }
    s.push_str("],\n  \"observed\": {");
    let mut o: Vec<String> = a.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    o.push(format!("\"block_reads\": {}", a.io.0));
    o.push(format!("\"block_writes\": {}", a.io.1));
    o.push(format!("\"flushes\": {}", a.io.2));
    s.push_str(&o.join(", "));
    s.push_str("}");
    if p.exhaustive {
        s.push_str(",\n  \"exhaustive\": true");
    }
    s.push_str("\n },\n \"assumptions\": [");
    s.push_str(&p.assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall.as_secs_f64(), viols));
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), s).unwrap();
}

fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && std::fs::write(format!("/dev/shm/.cbmh-probe-{}", std::process::id()), b"x").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/.cbmh-probe-{}", std::process::id()));
        PathBuf::from("/dev/shm")
    } else {
        PathBuf::from("/tmp")
    };
    let d = base.join(format!("cbmh-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn install_panic_hook() {
    panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{} at {}", msg, loc);
        if std::env::var("CBMH_BT").is_ok() {
            eprintln!("{}\n{}", m, std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|x| {
            let mut x = x.borrow_mut();
            if x.is_none() {
                *x = Some(m);
            }
        });
    }));
}

fn child(args: &[String]) -> std::process::ExitStatus {
    std::process::Command::new(std::env::current_exe().unwrap()).args(args).status().unwrap()
}

/// The crate under Miri, on images made by this program: 8 processes, each
/// stopping at the first undefined behaviour.  Returns the violations (shard,
/// message, trace) and what was observed.
fn miri(scratch: &Path, thorough: bool, only: Option<u64>) -> (Vec<(u64, String, Vec<String>)>, BTreeMap<&'static str, u64>) {
    use std::process::{Command, Stdio};
    let limit: u64 = if thorough { 2400 } else { 75 };
    let per_shard = if thorough { 400 } else { 16 };
    let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut viols = vec![];
    let run = |args: &[String]| {
        let mut c = Command::new("cargo");
        c.args(["miri", "run", "--offline", "--locked", "-q", "--manifest-path"])
            .arg(verif_dir().join("miri/Cargo.toml"))
            .arg("--target-dir")
            .arg(verif_dir().join("target/miri"))
            .arg("--")
            .args(args)
            .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
            .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks")
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null());
        c
    };
    // Build it, and see whether Miri works here at all.
    let log = scratch.join("miri-build");
    let f = std::fs::File::create(&log).unwrap();
    let ok = run(&[seed().to_string(), "1".into()]).stdout(Stdio::null()).stderr(Stdio::from(f)).status().map(|s| s.success()).unwrap_or(false);
    seen.insert("miri_available", ok as u64);
    if !ok {
        println!("Miri cannot run here: {}", std::fs::read_to_string(&log).unwrap_or_default().lines().filter(|l| l.starts_with("error")).next().unwrap_or("no message"));
        return (viols, seen);
    }
    let mut kids = vec![];
    for shard in 0..8u64 {
        if only.map_or(false, |o| o != shard) {
            continue;
        }
        let mut args = vec![(seed() * 8 + shard).to_string(), limit.to_string()];
        for (k, img) in props::images(seed(), shard, per_shard).into_iter().enumerate() {
            let p = scratch.join(format!("m{}-{}.img", shard, k));
            std::fs::write(&p, img).unwrap();
            args.push(p.display().to_string());
        }
        let (o, e) = (scratch.join(format!("m{}.out", shard)), scratch.join(format!("m{}.err", shard)));
        let kid = run(&args).stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap()).spawn();
        if let Ok(kid) = kid {
            kids.push((shard, kid, o, e));
        }
    }
    let t0 = Instant::now();
    for (shard, mut kid, o, e) in kids {
        let st = loop {
            match kid.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed().as_secs() > limit + 120 => {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(50)),
                Err(_) => break None,
            }
        };
        let out = std::fs::read_to_string(&o).unwrap_or_default();
        let err = std::fs::read_to_string(&e).unwrap_or_default();
        if let Some(l) = out.lines().rev().find(|l| l.starts_with("= ")) {
            let w: Vec<&str> = l.split(' ').collect();
            for (k, i) in [("miri_images", 2), ("miri_operations", 4), ("miri_files", 6), ("miri_bytes_read", 8)] {
                *seen.entry(k).or_insert(0) += w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
        if st.map_or(false, |s| !s.success()) && err.contains("Undefined Behavior") {
            let at = out.lines().rev().find(|l| l.starts_with("@ ")).unwrap_or("@ ?");
            let what = err.lines().find(|l| l.contains("Undefined Behavior")).unwrap_or("");
            let place = err.lines().skip_while(|l| !l.contains("Undefined Behavior")).find(|l| l.contains("-->")).unwrap_or("").trim();
            let mut trace: Vec<String> = out.lines().map(|l| l.to_string()).collect();
            trace.extend(err.lines().take(60).map(|l| l.to_string()));
            viols.push((shard, format!("Miri, in \"{}\": {} {}", &at[2..], what, place), trace));
        } else if st.map_or(true, |s| !s.success()) {
            *seen.entry("miri_runs_without_verdict").or_insert(0) += 1;
        } else {
            *seen.entry("miri_runs_clean").or_insert(0) += 1;
        }
    }
    (viols, seen)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| -> &'static Prop {
        props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&args[1]);
            let thorough = args[2] == "thorough";
            let t0 = Instant::now();
            let scratch = scratch_root();
            if p.id == "C21" && std::env::var("CBMH_NO_MIRI").is_err() {
                let (viols, seen) = miri(&scratch, thorough, None);
                if let Some((shard, msg, trace)) = viols.into_iter().next() {
                    let mut t = vec![format!("miri={}", shard)];
                    t.extend(trace);
                    let path = write_replay(p, 1_000_000 + shard, seed(), thorough, &msg, &t);
                    let a = Agg { counters: seen, ..Agg::default() };
                    write_evidence(p, seed(), thorough, t0.elapsed(), &a, 1, &msg);
                    println!("{}", msg);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    let _ = std::fs::remove_dir_all(&scratch);
                    std::process::exit(1);
                }
                let s: Vec<String> = seen.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
                std::fs::write(scratch.join("seen"), s.join("\n")).unwrap();
            }
            let st = child(&["worker".into(), args[1].clone(), args[2].clone(), scratch.display().to_string()]);
            let mut code = st.code().unwrap_or(-1);
            if code != 0 && code != 1 {
                // The worker died: find the case that kills it.
                let how = format!("{:?}", st.signal().map(|s| format!("signal {}", s)).unwrap_or_else(|| format!("exit {}", code)));
                let mut found = None;
                for k in 0..8 {
                    let c = std::fs::read_to_string(scratch.join(format!("progress{}", k))).unwrap_or_default();
                    if let Ok(i) = c.trim().parse::<u64>() {
                        let d = scratch.join(format!("r{}", k));
                        let _ = std::fs::create_dir_all(&d);
                        let s = child(&["one".into(), args[1].clone(), args[2].clone(), i.to_string(), d.display().to_string()]);
                        if !matches!(s.code(), Some(0) | Some(1)) {
                            found = Some(i);
                            break;
                        }
                    }
                }
                if let Some(i) = found {
                    let msg = format!("the process was killed ({}) while running case {}", how, i);
                    let path = write_replay(p, i, seed(), thorough, &msg, &[]);
                    write_evidence(p, seed(), thorough, t0.elapsed(), &Agg::default(), 1, &msg);
                    println!("{}", msg);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    code = 1;
                } else if matches!(st.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11)) {
                    // No single case does it alone: memory was damaged by an earlier one.
                    let msg = format!("the process was killed ({}) by the cases run so far", how);
                    let path = write_replay(p, 0, seed(), thorough, &msg, &[]);
                    write_evidence(p, seed(), thorough, t0.elapsed(), &Agg::default(), 1, &msg);
                    println!("{}", msg);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    code = 1;
                } else {
                    println!("worker ended abnormally ({}) and no single case reproduces it", how);
                    code = 2;
                }
            }
            let _ = std::fs::remove_dir_all(&scratch);
            std::process::exit(code);
        }
        Some("worker") => {
            install_panic_hook();
            let p = find(&args[1]);
            std::process::exit(worker(p, args[2] == "thorough", PathBuf::from(&args[3])));
        }
        Some("one") => {
            install_panic_hook();
            hk::install();
            let p = find(&args[1]);
            let v = run_case(p, args[3].parse().unwrap(), seed(), args[2] == "thorough", Path::new(&args[4]));
            if std::env::var("CBMH_TRACE").is_ok() {
                for t in &v.trace {
                    println!("{}", t);
                }
            }
            match v.viol {
                Some(m) => {
                    println!("{}", m);
                    std::process::exit(1);
                }
                None => {
                    println!("no violation");
                    std::process::exit(0);
                }
            }
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).unwrap();
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
            let d = scratch_root();
            std::env::set_var("VERIF_SEED", get("seed"));
            std::env::set_var("CBMH_TRACE", "1");
            if let Ok(shard) = get("miri").parse::<u64>() {
                let (viols, _) = miri(&d, get("tier") == "thorough", Some(shard));
                let _ = std::fs::remove_dir_all(&d);
                if let Some((_, m, _)) = viols.first() {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", get("property"), args[1]);
                    std::process::exit(1);
                }
                return;
            }
            let st = child(&["one".into(), get("property"), get("tier"), get("index"), d.display().to_string()]);
            let _ = std::fs::remove_dir_all(&d);
            if st.code() != Some(0) {
                println!("VIOLATION property={} replay={}", get("property"), args[1]);
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: cbmh check ID quick|thorough | replay FILE");
            std::process::exit(2);
        }
    }
}
