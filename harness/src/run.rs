//! The check driver: a supervisor process, a multi-threaded worker process,
//! and isolated re-runs of suspect cases.
use crate::engine::*;
use crate::mem;
use crate::props;
use crate::tape::Tape;
use serde_json::{Value, json};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Memory one case may allocate
const CASE_MEM: usize = 2 << 30;
/// CPU seconds one case may take; cases need milliseconds
const CASE_CPU: u64 = 30;
/// A case which has not come back after so many seconds, nearly without using
/// the CPU, waits for something that never happens
const CASE_WALL: u64 = 180;
const WALL_CPU: u64 = 2;
const EXIT_HANG: i32 = 98;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("GV_ROOT").unwrap_or_else(|_| ".".into()))
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn main() -> i32 {
    install_hook();
    crate::io::install_logger();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    match s(0) {
        "check" => check(s(1)),
        "worker" => worker(s(1), parse_tier(s(2)), s(3).parse().unwrap(), s(4), s(5)),
        "one" => one(s(1), parse_tier(s(2)), s(3).parse().unwrap(), s(4), s(5)),
        "replay" => replay(s(1)),
        "bytes" => bytes(s(1), s(2)),
        "seeds" => seeds(s(1), s(2)),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: gv check|replay|one|list ...");
            2
        }
    }
}

pub fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn cid_str(c: CaseId) -> (&'static str, u64) {
    match c {
        CaseId::Enum(n) => ("E", n),
        CaseId::Rand(n) => ("R", n),
    }
}

fn parse_cid(k: &str, n: &str) -> CaseId {
    let n = n.parse().unwrap();
    if k == "E" { CaseId::Enum(n) } else { CaseId::Rand(n) }
}

fn n_cases(p: &Prop, tier: Tier) -> u64 {
    let n = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    // for experiments only
    match std::env::var("GV_CASES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => n,
    }
}

// ---------------------------------------------------------------- worker

struct Slots {
    clock: Vec<AtomicI32>,
    start: Vec<AtomicU64>,
}

fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn failure_json(p: &Prop, tier: Tier, seed: u64, cid: CaseId, msg: &str, rec: &[u64], input: Option<&[u8]>) -> Value {
    let (k, n) = cid_str(cid);
    json!({
        "property": p.id, "tier": tier_name(tier), "seed": seed, "kind": k, "case": n,
        "message": msg, "tape": rec,
        "input_hex": input.filter(|b| b.len() <= 200_000).map(hex),
    })
}

fn write_atomic(path: &str, v: &Value) {
    let tmp = format!("{path}.tmp");
    fs::write(&tmp, serde_json::to_string(v).unwrap()).unwrap();
    fs::rename(&tmp, path).unwrap();
}

fn worker(id: &str, tier: Tier, seed: u64, out: &str, slot: &str) -> i32 {
    let p = find(id);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
    let n_enum = (p.enum_n)(tier);
    let n_rand = n_cases(&p, tier);
    let total = n_enum + n_rand;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let slots = Slots {
        clock: (0..threads).map(|_| AtomicI32::new(0)).collect(),
        start: (0..threads).map(|_| AtomicU64::new(0)).collect(),
    };
    let slot_file = fs::OpenOptions::new().create(true).truncate(true).write(true).open(slot).unwrap();
    slot_file.set_len(threads as u64 * 16).unwrap();
    let merged = Mutex::new(Stats::default());
    let fails: Mutex<Vec<(CaseId, String, Vec<u64>, Option<Vec<u8>>)>> = Mutex::new(vec![]);
    let running = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        for th in 0..threads {
            let (p, next, stop, slots, slot_file, merged, fails, running) =
                (&p, &next, &stop, &slots, &slot_file, &merged, &fails, &running);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut clock: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                    slots.clock[th].store(clock, SeqCst);
                    let mut st = Stats::default();
                    'outer: loop {
                        // small batches, handed out in order; enumerated cases
                        // may be large ones
                        let batch = if next.load(SeqCst) < n_enum { 1 } else { (total / 2000).clamp(1, 64) };
                        let b = next.fetch_add(batch, SeqCst);
                        if b >= total {
                            break;
                        }
                        for i in b..(b + batch).min(total) {
                            if stop.load(SeqCst) {
                                break 'outer;
                            }
                            let cid = if i < n_enum { CaseId::Enum(i) } else { CaseId::Rand(i - n_enum) };
                            let (k, n) = cid_str(cid);
                            let mut buf = [0u8; 16];
                            buf[0] = k.as_bytes()[0];
                            buf[8..].copy_from_slice(&n.to_le_bytes());
                            slot_file.write_all_at(&buf, th as u64 * 16).unwrap();
                            let began = cpu_ns(clock).max(1);
                            slots.start[th].store(began, SeqCst);
                            let mut tape = tape_for(p, seed, cid);
                            mem::set_cap(Some(CASE_MEM));
                            let (r, info) = run_case(p, cid, tier, &mut tape);
                            mem::set_cap(None);
                            slots.start[th].store(0, SeqCst);
                            st.slowest = st.slowest.max((cpu_ns(clock).saturating_sub(began), Some(cid)));
                            if let Err(m) = r {
                                fails.lock().unwrap().push((cid, m, tape.rec, info.input));
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                            st.add(cid, info);
                        }
                    }
                    slot_file.write_all_at(&[0u8; 16], th as u64 * 16).unwrap();
                    merged.lock().unwrap().merge(st);
                    running.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // watch CPU time per case, and cases which wait
        let mut since = vec![(0, Instant::now()); threads];
        while running.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(50));
            for th in 0..threads {
                let st = slots.start[th].load(SeqCst);
                if since[th].0 != st {
                    since[th] = (st, Instant::now());
                }
                if st != 0 {
                    let now = cpu_ns(slots.clock[th].load(SeqCst));
                    if now > st + CASE_CPU * 1_000_000_000 && slots.start[th].load(SeqCst) == st {
                        unsafe { libc::_exit(EXIT_HANG) }
                    }
                    if since[th].1.elapsed().as_secs() > CASE_WALL
                        && now < st + WALL_CPU * 1_000_000_000
                        && slots.start[th].load(SeqCst) == st
                    {
                        unsafe { libc::_exit(EXIT_HANG) }
                    }
                }
            }
        }
    });
    let st = merged.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let mut v = json!({
        "evaluations": st.evaluations,
        "execs": st.execs,
        "nontrivial": st.nontrivial,
        "distinct": st.keys.len(),
        "classes": st.classes,
        "known": st.known,
        "samples": st.samples.values().collect::<Vec<_>>(),
        "enumerated": n_enum,
        "slowest": json!({"cpu_s": st.slowest.0 as f64 / 1e9, "case": format!("{:?}", st.slowest.1)}),
    });
    if let Some((cid, msg, rec, input)) = fails.into_iter().next() {
        v["failure"] = failure_json(&p, tier, seed, cid, &msg, &rec, input.as_deref());
        write_atomic(out, &v);
        if let CaseId::Rand(_) = cid {
            // a shrink candidate may hang or eat memory: the unshrunk failure
            // is already on disk
            unsafe {
                let lim = libc::rlimit { rlim_cur: 200, rlim_max: 200 };
                let mut cur: libc::rusage = std::mem::zeroed();
                libc::getrusage(libc::RUSAGE_SELF, &mut cur);
                let used = (cur.ru_utime.tv_sec + cur.ru_stime.tv_sec) as u64;
                let lim = libc::rlimit { rlim_cur: used + lim.rlim_cur, rlim_max: used + lim.rlim_max };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
            }
            let (rec, msg) = shrink(&p, tier, rec, msg, Duration::from_secs(15));
            let mut t = Tape::values(rec.clone());
            let (_, info) = run_case(&p, CaseId::Rand(0), tier, &mut t);
            let mut f = failure_json(&p, tier, seed, cid, &msg, &rec, info.input.as_deref());
            f["shrunk"] = json!(true);
            v["failure"] = f;
        }
    }
    write_atomic(out, &v);
    0
}

/// Run one case alone; exit 0 if it holds, 1 if not
fn one(id: &str, tier: Tier, seed: u64, kind: &str, n: &str) -> i32 {
    let p = find(id);
    let cid = parse_cid(kind, n);
    let mut tape = tape_for(&p, seed, cid);
    alone(&p, cid, tier, &mut tape)
}

fn limit_cpu() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: CASE_CPU + 10, rlim_max: CASE_CPU + 15 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
    }
}

/// End the process if it waits for something that never happens
fn limit_wall() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(CASE_WALL));
        let cpu = cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
        unsafe { libc::_exit(if cpu < WALL_CPU * 1_000_000_000 { EXIT_HANG } else { 2 }) }
    });
}

fn alone(p: &Prop, cid: CaseId, tier: Tier, tape: &mut Tape) -> i32 {
    limit_cpu();
    limit_wall();
    mem::set_cap(Some(CASE_MEM));
    let (r, info) = run_case(p, cid, tier, tape);
    mem::set_cap(None);
    for k in &info.known {
        println!("known finding: {k}");
    }
    if let Some(s) = &info.sample {
        println!("case: {s}");
    }
    println!("classes: {:?}", info.classes);
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("FAILS: {m}");
            1
        }
    }
}

/// The tape for a fuzzer's input
fn fuzz_tape(id: &str, b: Vec<u8>) -> Tape {
    if id.ends_with("raw") { Tape::file(b) } else { Tape::bytes(b) }
}

/// Run a fuzzer's input through a property
fn bytes(id: &str, file: &str) -> i32 {
    let p = find(id.trim_end_matches("raw"));
    let b = fs::read(file).unwrap();
    alone(&p, CaseId::Rand(0), Tier::Thorough, &mut fuzz_tape(id, b))
}

/// Write inputs for a fuzzer to start from
fn seeds(id: &str, dir: &str) -> i32 {
    let p = find(id.trim_end_matches("raw"));
    for n in 0..200 {
        let cid = CaseId::Rand(n);
        let mut tape = tape_for(&p, 77, cid);
        let b = if id.ends_with("raw") {
            run_case(&p, cid, Tier::Quick, &mut tape).1.input.unwrap_or_default()
        } else {
            let len = tape.usize(10, 3000);
            (0..len).map(|_| tape.draw(255) as u8).collect()
        };
        if b.len() < 6000 {
            fs::write(Path::new(dir).join(format!("seed{n}")), b).unwrap();
        }
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let p = find(v["property"].as_str().unwrap());
    let tier = parse_tier(v["tier"].as_str().unwrap());
    let kind = v["kind"].as_str().unwrap();
    if kind == "F" {
        let h = v["input_hex"].as_str().unwrap();
        let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        return alone(&p, CaseId::Rand(0), tier, &mut fuzz_tape(v["case"].as_str().unwrap(), b));
    }
    let cid = parse_cid(kind, &v["case"].to_string());
    let rec: Vec<u64> = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    if kind == "R" && !rec.is_empty() {
        alone(&p, cid, tier, &mut Tape::values(rec))
    } else {
        let mut t = tape_for(&p, v["seed"].as_u64().unwrap(), cid);
        alone(&p, cid, tier, &mut t)
    }
}

// ------------------------------------------------------------ supervisor

fn known_lines(id: &str) -> Vec<String> {
    let s = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let pre = format!("KNOWN-FINDING: property={id} ");
    s.lines().filter(|l| l.starts_with(&pre)).map(str::to_string).collect()
}

fn save_replay(id: &str, seed: u64, v: &Value) -> PathBuf {
    let dir = root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{id}-{seed}.json"));
    fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
    path
}

fn scratch() -> PathBuf {
    let d = root().join("target").join("scratch").join(format!("{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

fn check(id: &str) -> i32 {
    let p = find(id);
    let tier = parse_tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    let dir = scratch();
    let r = supervise(&p, tier, seed, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn describe(st: std::process::ExitStatus) -> String {
    match (st.code(), st.signal()) {
        (Some(EXIT_HANG), _) => "does not come back".into(),
        (Some(c), _) if c == mem::EXIT_MEM => format!("allocated more than {CASE_MEM} bytes"),
        (Some(c), _) => format!("exit {c}"),
        (_, Some(libc::SIGXCPU)) | (_, Some(libc::SIGKILL)) => format!("still running after {CASE_CPU} s of CPU time"),
        (_, Some(s)) => format!("killed by signal {s}"),
        _ => "?".into(),
    }
}

/// Coverage-guided part of the thorough tier: independent libFuzzer processes,
/// each with its own corpus
fn fuzz(p: &Prop, seed: u64, dir: &Path, v: &mut Value) -> Result<(), String> {
    let Some(bin) = std::env::var_os("GV_FUZZ").filter(|s| !s.is_empty()) else {
        return Ok(());
    };
    let secs: u64 = std::env::var("GV_FUZZ_S").ok().and_then(|s| s.parse().ok()).unwrap_or(240);
    let exe = std::env::current_exe().unwrap();
    let procs = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
    let mut running = vec![];
    for k in 0..procs {
        let raw = k % 2 == 1 && (p.id == "C06" || p.id == "C09");
        let id = if raw { format!("{}raw", p.id) } else { p.id.to_string() };
        let d = dir.join(format!("fuzz{k}"));
        fs::create_dir_all(d.join("corpus")).map_err(|e| e.to_string())?;
        let st = Command::new(&exe).arg("seeds").arg(&id).arg(d.join("corpus")).status();
        if !st.is_ok_and(|s| s.success()) {
            return Err("cannot make seeds".into());
        }
        let log = fs::File::create(d.join("log")).map_err(|e| e.to_string())?;
        let c = Command::new(&bin)
            .arg(format!("-seed={}", 1 + (seed * 16 + k as u64) % 0x7FFF_FFFF))
            .arg(format!("-max_total_time={secs}"))
            .arg(format!("-artifact_prefix={}/", d.display()))
            .args(["-max_len=6000", "-len_control=0", "-timeout=60", "-rss_limit_mb=3500", "-print_final_stats=1"])
            .arg(d.join("corpus"))
            .env("GV_PROP", &id)
            .current_dir(&d)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .map_err(|e| format!("cannot start the fuzzer: {e}"))?;
        running.push((id, d, c));
    }
    let mut units = 0u64;
    let mut cov = 0u64;
    let mut bad = vec![];
    for (id, d, mut c) in running {
        let st = c.wait().map_err(|e| e.to_string())?;
        let log = String::from_utf8_lossy(&fs::read(d.join("log")).unwrap_or_default()).into_owned();
        for l in log.lines() {
            if let Some(n) = l.strip_prefix("stat::number_of_executed_units:") {
                units += n.trim().parse::<u64>().unwrap_or(0);
            }
            let mut w = l.split_whitespace();
            if w.any(|x| x == "cov:") {
                cov = cov.max(w.next().and_then(|x| x.parse().ok()).unwrap_or(0));
            }
        }
        if !st.success() {
            bad.push((id, d, log));
        }
    }
    v["fuzzer"] = json!({"processes": procs, "executions": units, "edges_covered": cov, "seconds": secs});
    for (id, d, log) in &bad {
        for e in fs::read_dir(d).map_err(|e| e.to_string())?.flatten() {
            if !e.path().is_file() || e.file_name() == "log" {
                continue;
            }
            let o = Command::new(&exe).arg("bytes").arg(id).arg(e.path()).stdin(Stdio::null()).output();
            let o = o.map_err(|e| e.to_string())?;
            if !o.status.success() {
                let b = fs::read(e.path()).unwrap_or_default();
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                v["failure"] = json!({"property": p.id, "tier": "thorough", "seed": seed, "kind": "F", "case": id,
                    "message": format!("{} {text}", describe(o.status)), "tape": [], "input_hex": hex(&b)});
                return Ok(());
            }
        }
        let tail: Vec<&str> = log.lines().rev().take(5).collect();
        return Err(format!("the fuzzer failed but no input confirms it: {tail:?}"));
    }
    Ok(())
}

fn supervise(p: &Prop, tier: Tier, seed: u64, dir: &Path, start: Instant) -> i32 {
    let out = dir.join("out.json");
    let slot = dir.join("slots");
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(&exe)
        .args(["worker", p.id, tier_name(tier), &seed.to_string()])
        .args([&out, &slot])
        .env("GV_SCRATCH", dir)
        .stdin(Stdio::null())
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return 2;
        }
    };
    let v: Option<Value> = fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok());
    let mut v = match v {
        Some(v) if st.success() || v["failure"].is_object() => v,
        _ => {
            // the worker died: find the case by running each suspect alone
            eprintln!("{}: worker ended early ({}), re-running the cases in flight", p.id, describe(st));
            let b = fs::read(&slot).unwrap_or_default();
            let mut fail = None;
            for c in b.chunks_exact(16).filter(|c| c[0] != 0) {
                let kind = if c[0] == b'E' { "E" } else { "R" };
                let n = u64::from_le_bytes(c[8..].try_into().unwrap());
                let o = Command::new(&exe)
                    .args(["one", p.id, tier_name(tier), &seed.to_string(), kind, &n.to_string()])
                    .env("GV_SCRATCH", dir)
                    .stdin(Stdio::null())
                    .output()
                    .unwrap();
                if o.status.code() == Some(2) {
                    eprintln!("{}: too slow to tell", p.id);
                } else if !o.status.success() {
                    let text = String::from_utf8_lossy(&o.stdout).to_string();
                    let msg = if o.status.code() == Some(1) { text } else { format!("{} {text}", describe(o.status)) };
                    let cid = parse_cid(kind, &n.to_string());
                    fail = Some(failure_json(p, tier, seed, cid, &msg, &[], None));
                    break;
                }
            }
            match fail {
                Some(f) => json!({"failure": f, "evaluations": 0, "distinct": 0, "classes": {}, "samples": [], "known": {}}),
                None => {
                    eprintln!("{}: no single case reproduces it", p.id);
                    return 2;
                }
            }
        }
    };
    if let Some(m) = v["failure"]["message"].as_str()
        && m.starts_with("HARNESS:")
    {
        eprintln!("{}: {m}", p.id);
        return 2;
    }
    if tier == Tier::Thorough && !v["failure"].is_object() {
        match fuzz(p, seed, dir, &mut v) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("{}: {e}", p.id);
                return 2;
            }
        }
    }
    let known = known_lines(p.id);
    let mut violation = v["failure"].is_object();
    let mut seen = vec![];
    if let Some(m) = v["known"].as_object().cloned() {
        for (k, n) in &m {
            match known.iter().find(|l| l.contains(&format!(" {k}:"))) {
                Some(l) => seen.push((l.clone(), n.clone())),
                None => {
                    // not listed: a violation like any other
                    v["failure"] = json!({"property": p.id, "message": format!("{k} (not listed as a known finding)"),
                        "tier": tier_name(tier), "seed": seed, "kind": "R", "case": 0, "tape": []});
                    violation = true;
                }
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let mut samples = v["samples"].clone();
    if samples.as_array().is_none_or(|a| a.is_empty()) {
        samples = json!([v["failure"]["message"]]);
    }
    let ev = json!({
        "property": p.id, "tier": tier_name(tier), "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": v["evaluations"],
            "distinct_nontrivial": v["distinct"],
            "rule": p.rule,
            "samples": samples,
            "nontrivial": v["nontrivial"],
            "inner_executions": v["execs"],
            "enumerated_cases": v["enumerated"],
            "classes": v["classes"],
            "known_findings_seen": v["known"],
            "slowest_case": v["slowest"],
            "fuzzer": v["fuzzer"],
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if violation { 1 } else { 0 },
    });
    let edir = root().join("evidence");
    fs::create_dir_all(&edir).unwrap();
    fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    for (l, n) in seen {
        println!("{l} [{n} cases this run]");
    }
    if violation {
        let path = save_replay(p.id, seed, &v["failure"]);
        println!("{}: {}", p.id, v["failure"]["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    println!(
        "{} holds: {} cases, {} distinct non-trivial, {} inner executions, {:.1} s",
        p.id, v["evaluations"], v["distinct"], v["execs"], wall
    );
    for m in p.must {
        if v["classes"][m].as_u64().unwrap_or(0) == 0 {
            eprintln!("{}: no case of class {m}: the generator does not reach it", p.id);
            return 2;
        }
    }
    0
}
