//! C18: client programs. A bounded grammar of programs is enumerated from an explicit model of borrowing
//! (which programs must compile, which must not); rustc, with the freshly built library, gives the
//! implementation's verdict on every one of them.
use mc::driver::{self, Meta, Tier, Totals};
use mc::explore::SecStats;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

#[path = "c18/tables.rs"]
mod tables;
#[path = "c18/worlds.rs"]
mod worlds;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Verdict {
    Accept,
    Reject,
}
pub struct Prog {
    pub sec: String,
    pub text: String,
    pub want: Verdict,
}

/// Shared by all programs.
pub const PRELUDE: &str = include_str!("c18/prelude.rs");

fn programs(t: Tier) -> (Vec<Prog>, BTreeMap<String, (u64, u64)>) {
    let mut v = vec![];
    let mut st = BTreeMap::new();
    worlds::all(t, &mut v, &mut st);
    tables::all(t, &mut v);
    // a program may be reached along several routes
    let mut seen = HashMap::new();
    let mut out: Vec<Prog> = vec![];
    for p in v {
        match seen.get(&p.text) {
            Some(w) => assert!(*w == p.want, "the model gives two verdicts for {}", p.text),
            None => {
                seen.insert(p.text.clone(), p.want);
                out.push(p)
            }
        }
    }
    (out, st)
}

fn main() {
    let t = driver::tier();
    let start = std::time::Instant::now();
    let meta = Meta {
        id: "C18",
        level: "model_checking",
        rule: "breadth-first exploration of a borrow model of the public API: from every reachable model state every operation, \
               and after it every use of every handle and every (conflicting access, use) pair; plus complete product tables for header/tail \
               separation, controllers, length expressions, constructors, unsafe traits, variance and thread-safety. The compiler's verdict on \
               every program is compared with the model's",
        bounds: format!("up to {} handles at once besides the owners; 6 element types; tables complete over the listed constructs", t.pick(2, 3)),
        assumptions: &["rustc's borrow checker and trait solver are right", "programs outside the grammar behave like the ones in it"],
    };
    let args: Vec<String> = std::env::args().collect();
    let d = match mc::rustc::deps("c18") {
        Ok(d) => d,
        Err(e) => engine(&e),
    };
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let txt = std::fs::read_to_string(&args[2]).unwrap();
        let want = if txt.lines().any(|l| l == "expected=reject") { Verdict::Reject } else { Verdict::Accept };
        let text = txt.split_once("program:\n").map_or("", |x| x.1).trim_end().to_string();
        match mc::rustc::all_verdicts(&d, PRELUDE, &[text.clone()], 1) {
            Err(e) => engine(&e),
            Ok((m, _)) => {
                println!("{}\n  expected {:?}, compiler: {}", text, want, m.get(&0).map_or("accepted", |s| s.as_str()));
                if m.contains_key(&0) == (want == Verdict::Accept) {
                    println!("VIOLATION property=C18 replay={}", args[2]);
                    std::process::exit(1)
                }
                std::process::exit(0)
            }
        }
    }
    let (ps, states) = programs(t);
    if std::env::var_os("MC_LIST").is_some() {
        for p in &ps {
            println!("{:?} [{}] {}", p.want, p.sec, p.text);
        }
    }
    let texts: Vec<String> = ps.iter().map(|p| p.text.clone()).collect();
    let crates = (texts.len() / 1500).clamp(8, 400);
    let (rej, rounds) = match mc::rustc::all_verdicts(&d, PRELUDE, &texts, crates) {
        Ok(x) => x,
        Err(e) => engine(&e),
    };
    let mut rows: BTreeMap<String, SecStats> = BTreeMap::new();
    let mut tot = Totals::default();
    let mut bad = vec![];
    let known = driver::known("C18");
    let mut hit: HashSet<usize> = HashSet::new();
    for (i, p) in ps.iter().enumerate() {
        let r = rows.entry(p.sec.clone()).or_default();
        r.execs += 1;
        r.ops += p.text.matches(';').count() as u64;
        if p.want == Verdict::Reject {
            r.deviated += 1;
            tot.deviated += 1;
        }
        tot.execs += 1;
        let got = if rej.contains_key(&i) { Verdict::Reject } else { Verdict::Accept };
        if std::env::var_os("MC_DUMP").is_some() && rej.contains_key(&i) {
            println!("{:?} [{}] {} => {}", p.want, p.sec, p.text, rej[&i]);
        }
        if got != p.want {
            let msg = match got {
                Verdict::Accept => format!("[{}] a program that must be rejected compiles: {}", p.sec, p.text),
                Verdict::Reject => format!("[{}] a program that must compile is rejected ({}): {}", p.sec, rej[&i], p.text),
            };
            match known.iter().position(|k| msg.contains(&k.key)) {
                Some(k) => {
                    hit.insert(k);
                }
                None => bad.push((i, msg)),
            }
        }
    }
    for (n, (s, tr)) in &states {
        tot.states += s;
        tot.ops += tr;
        rows.entry(n.clone()).or_default().pruned += s;
    }
    tot.states += rows.iter().filter(|r| !states.contains_key(r.0)).map(|r| r.1.execs).sum::<u64>();
    tot.ops += rows.iter().filter(|r| !states.contains_key(r.0)).map(|r| r.1.execs).sum::<u64>();
    tot.max_len = ps.iter().map(|p| p.text.matches(';').count() as u64).max().unwrap_or(0);
    let mut samples = vec![];
    let mut seen = HashSet::new();
    for p in &ps {
        if seen.insert((p.sec.clone(), p.want)) && samples.len() < 40 {
            samples.push(format!("[{}] must {} : {}", p.sec, if p.want == Verdict::Accept { "compile" } else { "be rejected" }, p.text));
        }
    }
    let rows: Vec<(String, SecStats)> = rows.into_iter().collect();
    let wall = start.elapsed().as_secs_f64();
    bad.sort_by_key(|b| ps[b.0].text.len());
    if let Some((i, msg)) = bad.first() {
        let dir = format!("{}/replays", driver::verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/C18-{}.replay", dir, std::process::id());
        let mut o = String::new();
        let _ = write!(o, "property=C18\nexpected={}\nmessage={}\nprogram:\n{}\n", if ps[*i].want == Verdict::Reject { "reject" } else { "accept" }, msg.replace('\n', " "), ps[*i].text);
        std::fs::write(&path, o).unwrap();
        for (_, m) in bad.iter().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(12)) {
            println!("{}", m);
        }
        println!("{} programs with the wrong verdict", bad.len());
        println!("VIOLATION property=C18 replay={}", path);
        samples.insert(0, format!("violation: {}", msg));
        driver::write_evidence(&meta, t, &tot, &samples, &rows, false, 1, wall);
        std::process::exit(1);
    }
    for (k, f) in known.iter().enumerate() {
        let _ = hit.contains(&k);
        println!("KNOWN-FINDING: property=C18 {}", f.desc);
    }
    driver::write_evidence(&meta, t, &tot, &samples, &rows, false, 0, wall);
    println!("C18: {} programs ({} must be rejected), {} model states, {} transitions, {} rounds of {} crates, {:.1} s", tot.execs, tot.deviated, tot.states, tot.ops, rounds, crates, wall);
    if std::env::var_os("MC_SECTIONS").is_some() {
        for (n, s) in &rows {
            println!("  {:7} programs {:7} rejected  {}", s.execs, s.deviated, n);
        }
    }
    if tot.execs == 0 {
        engine("nothing explored");
    }
}
fn engine(e: &str) -> ! {
    eprintln!("ENGINE ERROR: {}", e);
    std::process::exit(2)
}
