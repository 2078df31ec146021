//! Many small programs, one verdict each from the compiler. Programs share a crate; a program is rejected if
//! an error points into it. Rejected programs are removed and the rest compiled again until nothing is
//! rejected, so no error of one program can hide the verdict of another.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::process::{Command, Stdio};

pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map_or(&J::Null, |x| &x.1),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> usize {
        match self {
            J::Num(n) => *n as usize,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i)?;
        Some(v)
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b'}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    }
                    b',' => *i += 1,
                    _ => {
                        let k = string(b, i)?;
                        ws(b, i);
                        if *b.get(*i)? != b':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, val(b, i)?));
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    b',' => *i += 1,
                    _ => v.push(val(b, i)?),
                }
            }
        }
        b'"' => Some(J::Str(string(b, i)?)),
        b't' => { *i += 4; Some(J::Bool(true)) }
        b'f' => { *i += 5; Some(J::Bool(false)) }
        b'n' => { *i += 4; Some(J::Null) }
        _ => {
            let s = *i;
            while *i < b.len() && !b",]} \n".contains(&b[*i]) {
                *i += 1;
            }
            std::str::from_utf8(&b[s..*i]).ok()?.parse().ok().map(J::Num)
        }
    }
}
fn string(b: &[u8], i: &mut usize) -> Option<String> {
    *i += 1;
    let mut o = vec![];
    loop {
        match *b.get(*i)? {
            b'"' => {
                *i += 1;
                return Some(String::from_utf8_lossy(&o).into_owned());
            }
            b'\\' => {
                *i += 1;
                match *b.get(*i)? {
                    b'n' => o.push(b'\n'),
                    b'u' => {
                        *i += 4;
                        o.push(b'?')
                    }
                    c => o.push(c),
                }
                *i += 1;
            }
            c => {
                o.push(c);
                *i += 1;
            }
        }
    }
}

pub struct Deps {
    pub args: Vec<String>,
    pub rustc: String,
}
/// The freshly built library, from the build of this very binary.
pub fn deps(bin: &str) -> Result<Deps, String> {
    let out = Command::new("cargo")
        .current_dir(env!("CARGO_MANIFEST_DIR"))
        .args(["build", "--offline", "--release", "--bin", bin, "--message-format=json"])
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let mut args = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Some(j) = J::parse(l) else { continue };
        if j.get("reason").str() != "compiler-artifact" {
            continue;
        }
        let n = j.get("target").get("name").str().to_string();
        if n != "varlen" && n != "bumpalo" {
            continue;
        }
        for f in j.get("filenames").arr() {
            if f.str().ends_with(".rlib") {
                let dir = std::path::Path::new(f.str()).parent().unwrap();
                let d = if dir.ends_with("deps") { dir.to_path_buf() } else { dir.join("deps") };
                args.push("-L".to_string());
                args.push(format!("dependency={}", d.display()));
                args.push("--extern".to_string());
                args.push(format!("{}={}", n, f.str()));
            }
        }
    }
    if args.len() != 8 {
        return Err(format!("did not find the built libraries: {:?}", args));
    }
    Ok(Deps { args, rustc: std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into()) })
}

/// Compiles a library that programs may use; gives the directory it is in.
pub fn library(d: &mut Deps, name: &str, src: &str) -> Result<String, String> {
    let dir = format!("{}/mc-lib-{}-{:p}", std::env::temp_dir().display(), std::process::id(), src);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("{}/{}.rs", dir, name);
    std::fs::write(&file, src).map_err(|e| e.to_string())?;
    let rmeta = format!("{}/lib{}.rmeta", dir, name);
    let out = Command::new(&d.rustc)
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "--cap-lints", "allow"])
        .args(&d.args)
        .arg("-o")
        .arg(&rmeta)
        .arg(&file)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        let _ = std::fs::remove_dir_all(&dir);
        return Err(format!("the library for the programs does not compile: {}", String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>()));
    }
    d.args.push("--extern".into());
    d.args.push(format!("{}={}", name, rmeta));
    Ok(dir)
}

/// error texts per rejected program; and how many times the crate was compiled
pub fn verdicts(d: &Deps, dir: &str, tag: &str, prelude: &str, progs: &[(usize, &str)]) -> Result<(BTreeMap<usize, String>, u32), String> {
    let mut rejected: BTreeMap<usize, String> = BTreeMap::new();
    let mut rounds = 0;
    let file = format!("{}/{}.rs", dir, tag);
    loop {
        rounds += 1;
        if rounds > 12 {
            return Err("the compiler's verdicts do not settle".into());
        }
        let mut src = String::from(prelude);
        src.push('\n');
        let mut line = src.matches('\n').count() + 1;
        let first = line;
        let mut at: Vec<usize> = vec![]; // program of each line from `first`
        for (id, p) in progs {
            if rejected.contains_key(id) {
                continue;
            }
            let n = p.matches('\n').count() + 1;
            let _ = writeln!(src, "{}", p);
            at.extend(std::iter::repeat(*id).take(n));
            line += n;
        }
        std::fs::write(&file, &src).map_err(|e| e.to_string())?;
        let out = Command::new(&d.rustc)
            .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", tag, "--emit=metadata", "--error-format=json", "--cap-lints", "allow"])
            .args(&d.args)
            .arg("-o")
            .arg(format!("{}/{}.rmeta", dir, tag))
            .arg(&file)
            .output()
            .map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut new = 0;
        let mut lost: Option<String> = None;
        for l in err.lines() {
            let Some(j) = J::parse(l) else { continue };
            if j.get("level").str() != "error" && !j.get("level").str().starts_with("error:") {
                continue;
            }
            let msg = j.get("message").str();
            if msg.starts_with("aborting due to") || msg.starts_with("could not compile") {
                continue;
            }
            let mut found = None;
            let mut prim: Vec<&J> = vec![];
            let mut rest: Vec<&J> = vec![];
            spans(&j, &mut prim, &mut rest);
            for s in prim.iter().chain(&rest) {
                if s.get("file_name").str() == file {
                    let ln = s.get("line_start").num();
                    if ln >= first && ln < first + at.len() {
                        found = Some(at[ln - first]);
                        break;
                    }
                }
            }
            match found {
                Some(id) => {
                    if !rejected.contains_key(&id) {
                        new += 1;
                    }
                    rejected.entry(id).or_insert_with(|| format!("{} {}", j.get("code").get("code").str(), msg));
                }
                None => lost = Some(format!("{} {}", msg, j.get("rendered").str())),
            }
        }
        if out.status.success() {
            if let Some(l) = lost {
                return Err(format!("error without a program: {}", l));
            }
            let _ = std::fs::remove_file(&file);
            let _ = std::fs::remove_file(format!("{}/{}.rmeta", dir, tag));
            return Ok((rejected, rounds));
        }
        if new == 0 {
            return Err(format!("the compiler failed without pointing at a program: {} {}", lost.unwrap_or_default(), err.chars().take(2000).collect::<String>()));
        }
    }
}
fn spans<'a>(j: &'a J, prim: &mut Vec<&'a J>, rest: &mut Vec<&'a J>) {
    for s in j.get("spans").arr() {
        let mut s = s;
        loop {
            if matches!(s.get("is_primary"), J::Bool(true)) { prim.push(s) } else { rest.push(s) }
            s = s.get("expansion").get("span");
            if let J::Null = s {
                break;
            }
        }
    }
    for c in j.get("children").arr() {
        let mut p = vec![];
        spans(c, &mut p, rest);
        rest.append(&mut p);
    }
}

/// All programs, several crates at a time.
pub fn all_verdicts(d: &Deps, prelude: &str, progs: &[String], crates: usize) -> Result<(HashMap<usize, String>, u32), String> {
    static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let run = RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = format!("{}/mc-prog-{}-{}", std::env::temp_dir().display(), std::process::id(), run);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let n = crate::driver::nthreads().min(8);
    let chunks: Vec<Vec<(usize, &str)>> = (0..crates).map(|k| progs.iter().enumerate().filter(|(i, _)| i % crates == k).map(|(i, p)| (i, p.as_str())).collect()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new((HashMap::new(), 0u32, None::<String>));
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= crates {
                    break;
                }
                match verdicts(d, &dir, &format!("p{}", k), prelude, &chunks[k]) {
                    Ok((r, c)) => {
                        let mut g = res.lock().unwrap();
                        g.0.extend(r);
                        g.1 = g.1.max(c);
                    }
                    Err(e) => res.lock().unwrap().2 = Some(e),
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let (m, c, e) = res.into_inner().unwrap();
    match e {
        Some(e) => Err(e),
        None => Ok((m, c)),
    }
}
