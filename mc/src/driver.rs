//! Process driver: worker child, crash attribution, replay files, evidence.
use crate::explore::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: String,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

pub fn tier() -> Tier {
    let a = std::env::args().nth(1).unwrap_or_default();
    let v = std::env::var("MC_TIER").or(std::env::var("VERIF_TIER")).unwrap_or_default();
    if a == "thorough" || (a != "quick" && v == "thorough") { Tier::Thorough } else { Tier::Quick }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub struct Known {
    pub key: String,
    pub desc: String,
}
pub fn known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, " | ");
                if it.next() == Some(&format!("property={}", id)) {
                    v.push(Known { key: it.next().unwrap_or("?").to_string(), desc: it.next().unwrap_or("").to_string() });
                }
            }
        }
    }
    v
}

fn slots(path: &str, n: usize, create: bool) -> *mut Slot {
    let len = n * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).unwrap();
    if create {
        f.set_len(len as u64).unwrap();
    }
    use std::os::fd::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut Slot
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16)
}

pub fn trace_str(t: &[Step]) -> String {
    t.iter().map(|(c, a)| format!("{}/{}", c, a)).collect::<Vec<_>>().join(",")
}
fn parse_trace(s: &str) -> Vec<Step> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| {
        let (a, b) = x.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    }).collect()
}

fn write_replay(meta: &Meta, sec: &str, t: &[Step], msg: &str, log: &[String]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.replay", dir, meta.id, std::process::id());
    let mut o = String::new();
    let _ = writeln!(o, "property={}\nbin={}\nsection={}\ntrace={}\nmessage={}", meta.id, bin_name(), sec, trace_str(t), msg.replace('\n', " "));
    for l in log {
        let _ = writeln!(o, "# {}", l);
    }
    std::fs::write(&path, o).unwrap();
    path
}
fn bin_name() -> String {
    std::env::current_exe().ok().and_then(|p| p.file_name().map(|x| x.to_string_lossy().into_owned())).unwrap_or_default()
}

#[derive(Default)]
pub struct Totals {
    pub execs: u64,
    pub ops: u64,
    pub states: u64,
    pub pruned: u64,
    pub deviated: u64,
    pub max_len: u64,
}

pub fn write_evidence(meta: &Meta, t: Tier, tot: &Totals, samples: &[String], secs: &[(String, SecStats)], capped: bool, viol: usize, wall: f64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let profile = if cfg!(debug_assertions) { "dbg (debug assertions and overflow checks on)" } else { "release (no debug assertions, wrapping arithmetic)" };
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n", esc(meta.id), esc(if t == Tier::Quick { "quick" } else { "thorough" }), seed, esc(meta.level));
    if meta.level == "fault_enumeration" {
        let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", tot.execs, tot.deviated, esc(meta.rule));
    } else {
        let _ = write!(o, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rule\": {},\n", tot.states, tot.ops, tot.execs, esc(meta.rule));
    }
    let _ = write!(o, "  \"executions\": {},\n  \"operations\": {},\n  \"distinct_states\": {},\n  \"merged_executions\": {},\n  \"executions_with_fault\": {},\n  \"longest_choice_trace\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"profile\": {},\n", tot.execs, tot.ops, tot.states, tot.pruned, tot.deviated, tot.max_len, !capped && viol == 0, esc(&meta.bounds), esc(profile));
    let _ = write!(o, "  \"sections\": [\n");
    for (i, (n, s)) in secs.iter().enumerate() {
        let _ = write!(o, "   {{\"name\": {}, \"executions\": {}, \"operations\": {}, \"merged\": {}, \"with_fault\": {}}}{}\n", esc(n), s.execs, s.ops, s.pruned, s.deviated, if i + 1 < secs.len() { "," } else { "" });
    }
    let _ = write!(o, "  ],\n  \"samples\": [\n");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(o, "   {}{}\n", esc(s), if i + 1 < samples.len() { "," } else { "" });
    }
    let _ = write!(o, "  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", meta.assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "), wall, viol);
    let dir = std::env::var("MC_EVIDENCE_DIR").unwrap_or_else(|_| format!("{}/evidence", verif_dir()));
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, meta.id), o).unwrap();
}

fn sample_of(sec: &Section, i: usize, prefix: &[Step]) -> String {
    let vis = Visited::new();
    let o = exec(sec, i, prefix, std::ptr::null_mut(), &vis, true);
    let mut s = format!("[{}] choices {}: ", sec.name, trace_str(&o.trace));
    s.push_str(&o.log.join("; "));
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) { k -= 1; }
        s.truncate(k);
        s.push_str(" ...");
    }
    s
}

/// Entry point of every threaded checker binary.
pub fn main(meta: Meta, secs: impl Fn(Tier) -> Vec<Section>) {
    let t = tier();
    let args: Vec<String> = std::env::args().collect();
    let n = nthreads();
    match std::env::var("MC_CHILD").as_deref() {
        Ok("run") => child_run(&meta, t, secs(t), n),
        Ok("replay") => {
            // section and trace through the environment
            install_hook();
            let name = std::env::var("MC_SECTION").unwrap();
            let tr = parse_trace(&std::env::var("MC_TRACE").unwrap());
            let mut all = secs(t);
            if !all.iter().any(|s| s.name == name) { all = secs(Tier::Thorough) }
            let sl = slots(&std::env::var("MC_SLOTS").unwrap(), 1, false);
            for (i, s) in all.iter().enumerate() {
                if s.name == name {
                    let vis = Visited::new();
                    let h = std::thread::Builder::new().stack_size(64 << 20);
                    let (viol, log) = std::thread::scope(|sc| {
                        let sl = sl as usize;
                        let (tr, vis) = (&tr, &vis);
                        h.spawn_scoped(sc, move || {
                            let o = exec(s, i, tr, sl as *mut Slot, vis, true);
                            (o.viol, o.log)
                        }).unwrap().join().unwrap()
                    });
                    for l in &log { println!("LOG {}", l.replace('\n', " ")); }
                    if let Some(v) = viol {
                        println!("MSG {}", v.replace('\n', " "));
                        std::process::exit(1);
                    }
                    std::process::exit(0);
                }
            }
            eprintln!("ENGINE ERROR: no section {}", name);
            std::process::exit(2);
        }
        _ => {}
    }
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let txt = std::fs::read_to_string(&args[2]).unwrap();
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        let r = replay(&get("section="), &get("trace="), 120);
        match r {
            Replay::Clean => { println!("replay: no violation"); std::process::exit(0) }
            Replay::Viol(m, log) => {
                for l in log { println!("  {}", l) }
                println!("{}", m);
                println!("VIOLATION property={} replay={}", meta.id, args[2]);
                std::process::exit(1)
            }
            Replay::Error(e) => { eprintln!("{}", e); std::process::exit(2) }
        }
    }
    // parent
    let start = Instant::now();
    let tmp = std::env::temp_dir().join(format!("mc-slots-{}-{}", meta.id, std::process::id()));
    let tmp = tmp.to_string_lossy().into_owned();
    let sl = slots(&tmp, n, true);
    let st = Command::new(std::env::current_exe().unwrap())
        .args(&args[1..]).env("MC_CHILD", "run").env("MC_SLOTS", &tmp).status();
    let cleanup = |code: i32| -> ! {
        let _ = std::fs::remove_file(&tmp);
        std::process::exit(code)
    };
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("ENGINE ERROR: {}", e); cleanup(2) } };
    use std::os::unix::process::ExitStatusExt;
    if let Some(c) = st.code() {
        if c == 0 || c == 1 || c == 2 {
            cleanup(c)
        }
    }
    if st.signal() == Some(9) {
        eprintln!("ENGINE ERROR: worker was killed (memory?)");
        cleanup(2)
    }
    // The worker crashed or hung inside some execution: find which, alone and from scratch.
    let all = secs(t);
    let what = match (st.signal(), st.code()) { (Some(s), _) => format!("crashed with signal {}", s), (_, Some(86)) => "does not terminate".into(), (_, c) => format!("worker ended with {:?}", c) };
    eprintln!("worker {} - replaying the executions in flight", what);
    let mut cands: Vec<(u64, usize, Vec<Step>, String)> = vec![];
    for i in 0..n {
        let s = unsafe { &*sl.add(i) };
        if s.active.load(SeqCst) == 1 {
            let len = (s.len.load(SeqCst) as usize).min(MAX_TRACE);
            let m = String::from_utf8_lossy(&s.msg[..(s.msg_len.load(SeqCst) as usize).min(1000)]).into_owned();
            cands.push((s.started_ms.load(SeqCst), s.section.load(SeqCst) as usize, s.trace[..len].to_vec(), m));
        }
    }
    cands.sort_by_key(|c| (c.3.is_empty(), c.0));
    let timeout = 60;
    for (_, si, tr, m) in &cands {
        let name = &all[*si].name;
        match replay(name, &trace_str(tr), timeout) {
            Replay::Viol(msg, log) => {
                let msg = if m.is_empty() { msg } else { format!("{} ({})", m, msg) };
                finish_violation(&meta, t, name, tr, &msg, &log, start);
                cleanup(1)
            }
            _ => {}
        }
    }
    // A recorded violation message is a verdict even if the crash does not repeat in isolation.
    for (_, si, tr, m) in &cands {
        if !m.is_empty() {
            finish_violation(&meta, t, &all[*si].name, tr, m, &[], start);
            cleanup(1)
        }
    }
    if st.code() != Some(86) && !cands.is_empty() {
        // A crash of the code under test that needs the heap history of the worker: re-run once to confirm.
        let st2 = Command::new(std::env::current_exe().unwrap())
            .args(&args[1..]).env("MC_CHILD", "run").env("MC_SLOTS", &tmp).status().unwrap();
        if st2.signal().is_some() && st2.signal() != Some(9) {
            let (_, si, tr, _) = &cands[0];
            finish_violation(&meta, t, &all[*si].name, tr, &format!("{} (repeatedly, but not in isolation)", what), &[], start);
            cleanup(1)
        }
        if let Some(c) = st2.code() { if c <= 1 { cleanup(c) } }
    }
    eprintln!("ENGINE ERROR: worker {} and no execution reproduces it", what);
    cleanup(2)
}

fn finish_violation(meta: &Meta, t: Tier, sec: &str, tr: &[Step], msg: &str, log: &[String], start: Instant) {
    let p = write_replay(meta, sec, tr, msg, log);
    println!("section {}: {}", sec, msg);
    for l in log { println!("  {}", l); }
    println!("VIOLATION property={} replay={}", meta.id, p);
    let tot = Totals { execs: 1, deviated: 1, ops: 1, states: 1, ..Default::default() };
    write_evidence(meta, t, &tot, &[format!("violation: [{}] {} : {}", sec, trace_str(tr), msg)], &[], true, 1, start.elapsed().as_secs_f64());
    std::io::stdout().flush().unwrap();
}

pub enum Replay {
    Clean,
    Viol(String, Vec<String>),
    Error(String),
}
pub fn replay(section: &str, trace: &str, timeout: u64) -> Replay {
    use std::os::unix::process::ExitStatusExt;
    let tmp = format!("{}/mc-slot1-{}", std::env::temp_dir().display(), std::process::id());
    slots(&tmp, 1, true);
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .env("MC_CHILD", "replay").env("MC_SLOTS", &tmp).env("MC_SECTION", section).env("MC_TRACE", trace)
        .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let start = Instant::now();
    let out = {
        let mut so = ch.stdout.take().unwrap();
        std::thread::spawn(move || { let mut s = String::new(); use std::io::Read; let mut b = vec![]; let _ = so.read_to_end(&mut b); s.push_str(&String::from_utf8_lossy(&b)); s })
    };
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() { break Some(s) }
        if start.elapsed() > Duration::from_secs(timeout) { let _ = ch.kill(); let _ = ch.wait(); break None }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = out.join().unwrap_or_default();
    let log: Vec<String> = out.lines().filter_map(|l| l.strip_prefix("LOG ")).map(|s| s.to_string()).collect();
    let msg = {
        let s = unsafe { &*slots(&tmp, 1, false) };
        String::from_utf8_lossy(&s.msg[..(s.msg_len.load(SeqCst) as usize).min(1000)]).into_owned()
    };
    let _ = std::fs::remove_file(&tmp);
    match st {
        None => Replay::Viol(format!("execution does not terminate within {} s", timeout), log),
        Some(s) if s.code() == Some(0) => Replay::Clean,
        Some(s) if s.code() == Some(1) => {
            let m = out.lines().find_map(|l| l.strip_prefix("MSG ")).unwrap_or("?").to_string();
            Replay::Viol(m, log)
        }
        Some(s) if s.signal() == Some(9) => Replay::Error("replay was killed".into()),
        Some(s) if s.signal().is_some() => Replay::Viol(format!("crashed with signal {} {}", s.signal().unwrap(), msg), log),
        Some(s) => Replay::Error(format!("replay ended with {:?}", s.code())),
    }
}

fn child_run(meta: &Meta, t: Tier, secs: Vec<Section>, n: usize) -> ! {
    install_hook();
    let start = Instant::now();
    let sl = slots(&std::env::var("MC_SLOTS").unwrap(), n, false);
    // watchdog for executions that never end
    {
        let a = sl as usize;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = now_ms();
            for i in 0..n {
                let s = unsafe { &*(a as *mut Slot).add(i) };
                let st = s.started_ms.load(Relaxed);
                if s.active.load(Acquire) == 1 && st != 0 && now > st + 60_000 {
                    std::process::exit(86);
                }
            }
        });
    }
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(t.pick(420, 7200));
    let _ = KNOWN.set(known(meta.id).into_iter().map(|k| (k.key, Default::default())).collect());
    let rep = run_threads(&secs, sl, n, start + Duration::from_secs(cap));
    if let Some(f) = rep.found {
        let sec = &secs[f.section];
        let name = sec.name.clone();
        let (msg, log) = match replay(&name, &trace_str(&f.trace), 60) {
            Replay::Viol(m, log) => (if m != f.msg { format!("{} / in isolation: {}", f.msg, m) } else { m }, log),
            _ => (format!("{} (not repeated in isolation)", f.msg), vec![]),
        };
        finish_violation(meta, t, &name, &f.trace, &msg, &log, start);
        std::process::exit(1);
    }
    for k in known(meta.id) {
        println!("KNOWN-FINDING: property={} {}", meta.id, k.desc);
    }
    let mut tot = Totals::default();
    let mut rows = vec![];
    for (s, st) in secs.iter().zip(&rep.stats) {
        tot.execs += st.execs;
        tot.ops += st.ops;
        tot.pruned += st.pruned;
        tot.deviated += st.deviated;
        tot.max_len = tot.max_len.max(st.max_len);
        rows.push((s.name.clone(), st.clone()));
    }
    tot.states = rep.states as u64;
    let mut samples = vec![];
    let step = (secs.len() / 4).max(1);
    for (i, s) in secs.iter().enumerate().step_by(step) {
        samples.push(sample_of(s, i, &[]));
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(meta, t, &tot, &samples, &rows, rep.capped, 0, wall);
    println!("{}: {} sections, {} executions, {} operations, {} distinct states, {} merged, {} with faults, longest trace {}, {:.1} s{}",
        meta.id, secs.len(), tot.execs, tot.ops, tot.states, tot.pruned, tot.deviated, tot.max_len, wall, if rep.capped { " CAPPED" } else { "" });
    if std::env::var_os("MC_SECTIONS").is_some() {
        for (n, s) in &rows { println!("  {:9} {:10} {}", s.execs, s.ops, n) }
    }
    if tot.execs == 0 {
        eprintln!("ENGINE ERROR: nothing explored");
        std::process::exit(2);
    }
    std::process::exit(0)
}
