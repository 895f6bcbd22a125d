//! Supervisor: runs the workers, aggregates what they observed, writes evidence and replays.
use crate::eng::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn root() -> String { std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into()) }

/// How much slower the build is than usual (sanitizers); limits of CPU time and stack are raised by it.
pub fn slow() -> u64 { std::env::var("VMON_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known { pub findings: Vec<(String, String)> }
/// Lines `finding: property=ID input="ESCAPED" what=...` of known_findings.txt.
pub fn known(id: &str) -> Known {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut findings = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={id} input=\"")) else { continue };
        let Some(e) = r.find("\" what=") else { continue };
        findings.push((unesc(&r[..e]), r[e + 7..].to_string()));
    }
    Known { findings }
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue }
        match it.next() {
            Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'), Some('0') => o.push('\0'),
            Some('u') => { it.next(); let h: String = it.by_ref().take_while(|c| *c != '}').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { o.push(c) } }
            Some(c) => o.push(c), None => {}
        }
    }
    o
}

struct W { dir: String, child: Child, done: bool }

pub fn run(p: &'static Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    no_core();
    let secs = std::env::var("VMON_SECS").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough_secs } else { p.quick_secs });
    let slow: u64 = slow();
    let base = format!("{}/target/run/{}-{}", root(), p.id, std::process::id());
    let _ = std::fs::remove_dir_all(&base);
    let me = std::env::current_exe().expect("exe");
    let workers = std::env::var("VMON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.workers);
    let mut ws: Vec<W> = (0..workers).map(|i| {
        let dir = format!("{base}/{i}");
        std::fs::create_dir_all(&dir).expect("scratch");
        let child = Command::new(&me).args(["worker", p.id, &seed.to_string(), &i.to_string(), &secs.to_string(), if thorough { "thorough" } else { "quick" }, &dir])
            .stdin(Stdio::null()).spawn().expect("spawn worker");
        W { dir, child, done: false }
    }).collect();
    let mut viols: Vec<Viol> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut grace: Option<Instant> = None;
    let hard = Instant::now() + Duration::from_secs(secs + 120 * slow.min(4));
    while ws.iter().any(|w| !w.done) {
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done { continue }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    let vf = std::fs::read_to_string(format!("{}/viol", w.dir)).ok();
                    if let Some(v) = vf { viols.push(unescape_viol(Viol::parse(&v))); grace.get_or_insert(Instant::now() + Duration::from_secs(3)); }
                    else if st.code() == Some(0) {}
                    else if let Some(sig) = st.signal().filter(|s| [4, 6, 7, 8, 11].contains(s)) {
                        let (choices, input) = read_slot(&w.dir);
                        viols.push(Viol { property: p.id.into(), kind: "choices".into(), choices, input,
                            message: format!("the process died of signal {sig} ({})", if sig == 6 { "abort: stack overflow, out of memory or double panic" } else { "fault" }) });
                        grace.get_or_insert(Instant::now() + Duration::from_secs(1));
                    } else { broken.push(format!("worker {i} ended with {st}")) }
                }
                Ok(None) => {}
                Err(e) => { broken.push(format!("worker {i}: {e}")); w.done = true }
            }
        }
        let now = Instant::now();
        if now > hard || grace.map_or(false, |g| now > g) {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                if let Ok(v) = std::fs::read_to_string(format!("{}/viol", w.dir)) { viols.push(unescape_viol(Viol::parse(&v))) }
                else if now > hard { broken.push("a worker outlived its time".into()) }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // aggregate
    let (mut evals, mut corpus, mut total) = (0u64, 0u64, 0u64);
    let mut evs: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut cov: Vec<u8> = vec![];
    for w in &ws {
        for l in std::fs::read_to_string(format!("{}/out", w.dir)).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("evals ") { evals += r.parse::<u64>().unwrap_or(0) }
            else if let Some(r) = l.strip_prefix("corpus ") { corpus += r.parse::<u64>().unwrap_or(0) }
            else if let Some(r) = l.strip_prefix("edges ") { total = r.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0) }
            else if let Some(r) = l.strip_prefix("ev ") { let (n, k) = r.split_once(' ').unwrap(); *evs.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0) }
            else if let Some(r) = l.strip_prefix("sample ") { if samples.len() < 12 { samples.push(unesc(r)) } }
        }
        for c in std::fs::read(format!("{}/hash", w.dir)).unwrap_or_default().chunks_exact(8) { hashes.insert(u64::from_le_bytes(c.try_into().unwrap())); }
        let m = std::fs::read(format!("{}/cov", w.dir)).unwrap_or_default();
        if cov.len() < m.len() { cov.resize(m.len(), 0) }
        for (a, b) in cov.iter_mut().zip(m) { *a |= b }
    }
    // what the runs under sanitizers observed before this one
    for x in std::env::var("VMON_EXTRA").unwrap_or_default().split(',') {
        let Some((label, file)) = x.split_once('=') else { continue };
        let t = std::fs::read_to_string(file).unwrap_or_default();
        let n = t.split("\"evaluations\": ").nth(1).and_then(|r| r.split(|c: char| !c.is_ascii_digit()).next()).and_then(|n| n.parse().ok()).unwrap_or(0);
        evs.insert(format!("cases under {label}"), n);
    }
    let edges = cov.iter().filter(|x| **x != 0).count();
    viols.sort_by_key(|v| (v.input.len(), v.choices.len()));
    viols.dedup_by(|a, b| a.message == b.message && a.input == b.input);
    let mut code = 0;
    let rdir = format!("{}/replays", root());
    for (i, v) in viols.iter().enumerate().take(3) {
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{}-{}-{}.txt", p.id, seed, i);
        std::fs::write(&path, v.text()).expect("write replay");
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  {}", v.message.chars().take(3000).collect::<String>());
        println!("  input: {:?}", v.input.chars().take(600).collect::<String>());
        code = 1;
    }
    if samples.is_empty() { samples = viols.iter().map(|v| v.input.clone()).collect() }
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", jesc(p.id), jesc(if thorough { "thorough" } else { "quick" }), seed);
    j += " \"coverage\": {\n";
    j += &format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", hashes.len(), jesc(p.rule));
    j += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| jesc(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",\n   "));
    j += &format!("  \"workers\": {}, \"corpus_entries\": {corpus},\n  \"code_edges_hit\": {edges}, \"code_edges_total\": {total},\n", workers);
    j += &format!("  \"observed\": {{{}}}\n }},\n", evs.iter().map(|(k, v)| format!("{}: {v}", jesc(k))).collect::<Vec<_>>().join(", "));
    j += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n", viols.len());
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(std::env::var("VMON_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root(), p.id)), j).expect("write evidence");
    for (i, w) in known(p.id).findings.iter() { println!("KNOWN-FINDING: property={} {} (input {:?})", p.id, w, i) }
    println!("{}: {} cases, {} distinct non-trivial, {}/{} edges, {} violations, {:.1} s", p.id, evals, hashes.len(), edges, total, viols.len(), wall);
    for (k, v) in &evs { println!("   {v:>10} {k}") }
    for b in &broken { println!("BROKEN: {b}") }
    let _ = std::fs::remove_dir_all(&base);
    if code == 0 && (!broken.is_empty() && evals == 0) { code = 2 }
    code
}
fn unescape_viol(mut v: Viol) -> Viol { v.message = unesc(&v.message); v.input = unesc(&v.input); v }
