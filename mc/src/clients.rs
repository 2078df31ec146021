//! Client programs as a section: every execution is one program, the compiler's verdict on it is compared
//! with the verdict the property demands. All programs of a section are compiled together, on first use.
use crate::explore::*;
use crate::alloc::host;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Client {
    pub accept: bool,
    pub text: String,
}
/// `bin`: the cargo binary whose build has the library.
pub fn section(name: &str, bin: &'static str, prelude: String, progs: Vec<Client>) -> Section {
    section_using(name, bin, prelude, None, progs)
}
/// `decl`: the source of another crate, `decl`, that the programs may use.
pub fn section_using(name: &str, bin: &'static str, prelude: String, decl: Option<String>, progs: Vec<Client>) -> Section {
    let got: OnceLock<HashMap<usize, String>> = OnceLock::new();
    Section {
        name: name.into(),
        dev: 0,
        body: Box::new(move || {
            let i = choose(progs.len());
            let p = &progs[i];
            op();
            log(|| format!("must {}: {}", if p.accept { "compile" } else { "be rejected" }, p.text));
            host(|| {
                let rej = got.get_or_init(|| {
                    let texts: Vec<String> = progs.iter().map(|p| p.text.clone()).collect();
                    let mut d = crate::rustc::deps(bin).unwrap_or_else(|e| engine(&e));
                    let n = (texts.len() / 100).clamp(1, 64);
                    let dir = decl.as_ref().map(|src| match crate::rustc::library(&mut d, "decl", src) {
                        Ok(dir) => dir,
                        Err(e) => engine(&e),
                    });
                    let got = crate::rustc::all_verdicts(&d, &prelude, &texts, n).unwrap_or_else(|e| engine(&e)).0;
                    if let Some(d) = dir {
                        let _ = std::fs::remove_dir_all(d);
                    }
                    got
                });
                match (p.accept, rej.get(&i)) {
                    (true, Some(e)) => crate::fail!("a program that must compile is rejected ({}): {}", e, p.text),
                    (false, None) => crate::fail!("a program that must be rejected compiles: {}", p.text),
                    _ => {}
                }
            });
            state(i as u64 + 1, 0);
        }),
    }
}
fn engine(e: &str) -> ! {
    eprintln!("ENGINE ERROR: {}", e);
    std::process::exit(2)
}
