//! Case runner: generation, coverage feedback, panic and hang monitors, shrinking.
use crate::cov::Cov;
use crate::src::{Dict, Rng, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
pub type Fixed = (&'static str, Box<dyn Fn(&mut Ctx) -> Res>);

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Src, &mut Ctx) -> Res,
    pub fixed: fn() -> Vec<Fixed>,
    /// stack of the thread that runs the cases
    pub stack_mb: usize,
    /// CPU seconds one case may take
    pub cpu_limit: u64,
    /// worker processes
    pub workers: usize,
    pub quick_secs: u64,
    pub thorough_secs: u64,
}

pub struct Ctx {
    pub thorough: bool,
    pub dir: String,
    pub evs: BTreeMap<String, u64>,
    pub input: String,
    pub nontrivial: bool,
    pub samples: Vec<String>,
    pub seed: u64,
    pub case_no: u64,
    pub quiet: bool,
    slot: *mut u8,
    choices: Vec<u32>,
}
const SLOT: usize = 8 << 20;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static CASE_CPU: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(Vec<u32>, String)> = Mutex::new((Vec::new(), String::new()));

extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}
fn clock(id: i32) -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(id, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
pub fn cpu_ns() -> u64 { clock(2) }
pub fn thread_cpu_ns() -> u64 { clock(3) }
pub fn no_core() { unsafe { setrlimit(4, &[0, 0]) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VMON_BT").is_some() { eprintln!("panic: {m}{l}\n{}", std::backtrace::Backtrace::force_capture()); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

impl Ctx {
    pub fn new(dir: &str, seed: u64, thorough: bool) -> Self {
        let slot = if dir.is_empty() { std::ptr::null_mut() } else { unsafe {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true)
                .open(format!("{dir}/slot")).expect("slot");
            f.set_len(SLOT as u64).expect("slot size");
            mmap(std::ptr::null_mut(), SLOT, 3, 1, f.as_raw_fd(), 0)
        } };
        Ctx { thorough, dir: dir.into(), evs: BTreeMap::new(), input: String::new(), nontrivial: false, samples: vec![],
            seed, case_no: 0, quiet: false, slot, choices: vec![] }
    }
    pub fn ev(&mut self, k: &str) { self.evn(k, 1) }
    pub fn evn(&mut self, k: &str, n: u64) {
        if n == 0 { return }
        if let Some(v) = self.evs.get_mut(k) { *v += n } else { self.evs.insert(k.to_string(), n); }
    }
    /// Declares the input about to be given to the code under test.
    pub fn announce(&mut self, s: &Src, input: String) {
        self.choices = s.rec.clone();
        self.announce_fixed(input);
    }
    pub fn announce_fixed(&mut self, input: String) {
        self.input = input;
        if !self.slot.is_null() {
            let n = self.choices.len().min(SLOT / 16);
            let t = self.input.as_bytes();
            let tn = t.len().min(SLOT / 2);
            unsafe {
                std::ptr::copy_nonoverlapping(&(n as u32) as *const u32 as *const u8, self.slot, 4);
                std::ptr::copy_nonoverlapping(&(tn as u32) as *const u32 as *const u8, self.slot.add(4), 4);
                std::ptr::copy_nonoverlapping(self.choices.as_ptr() as *const u8, self.slot.add(8), 4 * n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), self.slot.add(8 + 4 * n), tn);
            }
        }
        if let Ok(mut c) = CUR.lock() { c.0.clone_from(&self.choices); c.1.clone_from(&self.input); }
    }
    /// Runs code under test; a panic becomes an Err.
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
            format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))
        })
    }
}

pub fn read_slot(dir: &str) -> (Vec<u32>, String) {
    let Ok(b) = std::fs::read(format!("{dir}/slot")) else { return (vec![], String::new()) };
    if b.len() < 8 { return (vec![], String::new()) }
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let (n, t) = (u(0) as usize, u(4) as usize);
    ((0..n).map(|i| u(8 + 4 * i)).collect(), String::from_utf8_lossy(&b[8 + 4 * n..8 + 4 * n + t]).into_owned())
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}

pub fn run_once(p: &Prop, src: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = false;
    cx.input.clear();
    cx.choices.clear();
    cx.case_no += 1;
    CASE_CPU.store(cpu_ns(), Relaxed);
    CASE.fetch_add(1, Relaxed);
    match catch_unwind(AssertUnwindSafe(|| (p.case)(src, cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("harness or code panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub struct Viol { pub property: String, pub kind: String, pub choices: Vec<u32>, pub message: String, pub input: String }
impl Viol {
    pub fn text(&self) -> String {
        format!("property {}\nkind {}\nmessage {}\ninput {}\nchoices {}\n", self.property, self.kind, self.message.escape_debug(),
            self.input.escape_debug(), self.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
    pub fn parse(t: &str) -> Viol {
        let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim_start().to_string();
        Viol { property: g("property"), kind: g("kind"), message: g("message"), input: g("input"),
            choices: g("choices").split(',').filter_map(|x| x.parse().ok()).collect() }
    }
}

pub fn shrink(p: &Prop, dict: &Dict, cx: &mut Ctx, best: Vec<u32>, msg: String, input: String, secs: u64) -> (Vec<u32>, String, String) {
    let end = Instant::now() + Duration::from_secs(secs);
    let (mut best, mut msg, mut input) = (best, msg, input);
    cx.quiet = true;
    let attempt = |c: Vec<u32>, best: &mut Vec<u32>, msg: &mut String, input: &mut String, cx: &mut Ctx| -> bool {
        let mut s = Src::new(dict, 0, c, false);
        let r = run_once(p, &mut s, cx);
        let mut rec = s.rec;
        while rec.last() == Some(&0) { rec.pop(); }
        if let Err(m) = r {
            let key = |v: &Vec<u32>| (v.len(), v.iter().map(|x| *x as u64).sum::<u64>());
            if key(&rec) < key(best) {
                *best = rec; *msg = m; *input = cx.input.clone();
                return true;
            }
        }
        false
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < end {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if attempt(c, &mut best, &mut msg, &mut input, cx) { progress = true; continue }
                if best[i..(i + size).min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    let e = (i + size).min(c.len());
                    for x in &mut c[i..e] { *x = 0 }
                    if attempt(c, &mut best, &mut msg, &mut input, cx) { progress = true; continue }
                }
                i += size;
            }
            if size == 1 || Instant::now() >= end { break }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v {
                    let mut c = best.clone();
                    c[i] = nv;
                    if attempt(c, &mut best, &mut msg, &mut input, cx) { progress = true; break }
                }
            }
            i += 1;
        }
    }
    (best, msg, input)
}

fn mutate(r: &mut Rng, corpus: &[Vec<u32>]) -> Vec<u32> {
    let mut c = corpus[r.below(corpus.len() as u64) as usize].clone();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { return c }
        let i = r.below(c.len() as u64) as usize;
        match r.below(6) {
            0 | 1 => c[i] = r.next() as u32,
            2 => { c.truncate(i); }
            3 => { let o = &corpus[r.below(corpus.len() as u64) as usize];
                if !o.is_empty() { let j = r.below(o.len() as u64) as usize; c.truncate(i); c.extend_from_slice(&o[j..]); } }
            4 => { let n = (1 + r.below(8) as usize).min(c.len() - i); c.drain(i..i + n); }
            _ => { let n = (1 + r.below(16) as usize).min(c.len() - i); let x: Vec<u32> = c[i..i + n].to_vec();
                let at = r.below(c.len() as u64 + 1) as usize; c.splice(at..at, x); }
        }
    }
    c
}

fn viol_exit(dir: &str, v: &Viol) -> ! {
    let _ = std::fs::write(format!("{dir}/viol"), v.text());
    std::process::exit(3)
}

fn write_stats(dir: &str, cx: &Ctx, cov: &Cov, evals: u64, corpus: usize, hashes: &HashSet<u64>) {
    let mut o = String::new();
    o += &format!("evals {evals}\ncorpus {corpus}\nedges {} {}\n", cov.edges, cov.total);
    for (k, v) in &cx.evs { o += &format!("ev {v} {k}\n") }
    for s in &cx.samples { o += &format!("sample {}\n", s.escape_debug()) }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes { hb.extend_from_slice(&h.to_le_bytes()) }
    std::fs::File::create(format!("{dir}/hash")).and_then(|mut f| f.write_all(&hb)).expect("write hashes");
    std::fs::write(format!("{dir}/cov"), cov.map()).expect("write cov");
    std::fs::write(format!("{dir}/out"), o).expect("write out");
}

pub fn worker(p: &'static Prop, dict: &'static Dict, known: &HashSet<String>, seed: u64, shard: u64, secs: u64, thorough: bool, dir: &str) {
    install_hook();
    no_core();
    let d = dir.to_string();
    let lim = p.cpu_limit * crate::sup::slow();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (c, st) = (CASE.load(Relaxed), CASE_CPU.load(Relaxed));
        let spent = cpu_ns().saturating_sub(st);
        if c > 0 && c == CASE.load(Relaxed) && st == CASE_CPU.load(Relaxed) && spent > lim * 1_000_000_000 {
            let cur = CUR.lock().map(|c| c.clone()).unwrap_or_default();
            viol_exit(&d, &Viol { property: p.id.into(), kind: "choices".into(), choices: cur.0,
                message: format!("one case used more than {lim} s of CPU time"), input: cur.1 });
        }
    });
    let known = known.clone();
    let dir2 = dir.to_string();
    std::thread::Builder::new().stack_size((p.stack_mb << 20) * crate::sup::slow() as usize).spawn(move || {
        let dir = dir2.as_str();
        let mut cx = Ctx::new(dir, seed.wrapping_mul(1_000_003).wrapping_add(shard), thorough);
        let mut cov = Cov::new();
        let mut evals = 0u64;
        if shard == 0 {
            for (name, f) in (p.fixed)() {
                evals += 1;
                cx.choices.clear();
                cx.nontrivial = true;
                CASE_CPU.store(cpu_ns(), Relaxed);
                CASE.fetch_add(1, Relaxed);
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)))
                    .unwrap_or_else(|_| Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))));
                cx.ev("fixed cases run");
                if let Err(m) = r {
                    if known.contains(&cx.input) { cx.ev("known findings met"); continue }
                    cov.harvest();
                    write_stats(dir, &cx, &cov, evals, 0, &HashSet::from([fnv(cx.input.as_bytes())]));
                    viol_exit(dir, &Viol { property: p.id.into(), kind: format!("fixed {name}"), choices: vec![], message: m, input: cx.input.clone() });
                }
            }
        }
        cov.harvest();
        let mut corpus: Vec<Vec<u32>> = vec![];
        let mut rng = Rng::new(cx.seed);
        let mut hashes: HashSet<u64> = HashSet::new();
        let end = Instant::now() + Duration::from_secs(secs);
        while Instant::now() < end {
            let rep = if corpus.len() > 3 && rng.below(3) > 0 { mutate(&mut rng, &corpus) } else { vec![] };
            let mut s = Src::new(dict, rng.next(), rep, true);
            let r = run_once(p, &mut s, &mut cx);
            evals += 1;
            if let Err(m) = r {
                if known.contains(&cx.input) { cx.ev("known findings met"); cov.harvest(); continue }
                let (input, rec) = (cx.input.clone(), s.rec.clone());
                // first record it as found, then try to make it smaller
                let v = Viol { property: p.id.into(), kind: "choices".into(), choices: rec.clone(), message: m.clone(), input: input.clone() };
                let _ = std::fs::write(format!("{dir}/viol"), v.text());
                cov.harvest();
                hashes.insert(fnv(input.as_bytes()));
                write_stats(dir, &cx, &cov, evals, corpus.len(), &hashes);
                let (choices, message, input) = shrink(p, dict, &mut cx, rec, m, input, 8);
                viol_exit(dir, &Viol { property: p.id.into(), kind: "choices".into(), choices, message, input });
            }
            if cov.harvest() && s.rec.len() < 20_000 && corpus.len() < 4000 { corpus.push(std::mem::take(&mut s.rec)) }
            if cx.nontrivial {
                if hashes.len() < 1_500_000 { hashes.insert(fnv(cx.input.as_bytes())); }
                if cx.samples.len() < 4 && evals.is_power_of_two() && cx.input.len() < 2000 { let t = cx.input.clone(); cx.samples.push(t) }
            }
        }
        write_stats(dir, &cx, &cov, evals, corpus.len(), &hashes);
        std::process::exit(0);
    }).expect("spawn").join().ok();
    std::process::exit(4);
}

pub fn replay(p: &'static Prop, dict: &'static Dict, v: &Viol, dir: &str) -> Res {
    install_hook();
    let (kind, choices, dir) = (v.kind.clone(), v.choices.clone(), dir.to_string());
    std::thread::Builder::new().stack_size((p.stack_mb << 20) * crate::sup::slow() as usize).spawn(move || {
        let mut cx = Ctx::new(&dir, 1, false);
        let r = if let Some(name) = kind.strip_prefix("fixed ") {
            let f = (p.fixed)().into_iter().find(|x| x.0 == name);
            match f { Some(f) => catch_unwind(AssertUnwindSafe(|| (f.1)(&mut cx))).unwrap_or_else(|_| Err("panicked".into())),
                None => Err(format!("no fixed case {name}")) }
        } else {
            let mut s = Src::new(dict, 0, choices, false);
            run_once(p, &mut s, &mut cx)
        };
        println!("input: {}", cx.input);
        r
    }).unwrap().join().unwrap()
}
