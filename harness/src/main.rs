#![allow(dead_code)]
mod cov;
mod dict;
mod eng;
mod jsgen;
mod node;
mod p_css;
mod p_html;
mod p_js;
mod p_tok;
mod p_agg;
mod p_any;
mod p_cli;
mod p_cost;
mod p_json;
mod props;
mod real;
mod src;
mod sup;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Counts heap use; a process that wants more than CAP bytes at once is ended.
pub struct Counting;
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicU64 = AtomicU64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
const CAP: u64 = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size() as u64;
        let live = LIVE.fetch_add(n, Relaxed) + n;
        TOTAL.fetch_add(n, Relaxed);
        if live > PEAK.load(Relaxed) { PEAK.store(live, Relaxed) }
        if live > CAP { LIVE.fetch_sub(n, Relaxed); return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

const SRC: &str = "/repo/src";

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {id}"); std::process::exit(2) });
    match arg(1) {
        "work" => {
            let t = std::fs::read_to_string(arg(3)).expect("file");
            println!("{}", p_cost::work(p_cost::Job::of(arg(2)), &t))
        }
        "calc" => p_any::calc(),
        "dict" => dict::print(SRC),
        "try" => {
            let t = std::io::read_to_string(std::io::stdin()).unwrap();
            println!("{:?}", match arg(2) { "js" => sutapi::js(&t), "css" => sutapi::css(&t), "json" => Ok(sutapi::json(&t)), "html" => Ok(sutapi::html(&t)), _ => sutapi::js_tokens(&t).map(|x| format!("{:?}", x.0)) })
        }
        "texts" => { // small texts for Miri
            let d = Box::leak(Box::new(dict::load(SRC)));
            let (seed, n): (u64, usize) = (arg(2).parse().unwrap(), arg(3).parse().unwrap());
            let mut made = 0;
            let mut rng = src::Rng::new(seed);
            while made < n {
                let mut s = src::Src::new(d, rng.next(), vec![], true);
                let l = [p_any::Lang::Js, p_any::Lang::Js, p_any::Lang::Css, p_any::Lang::Json][s.below(4)];
                let t = p_any::hostile(&mut s, l);
                if t.is_empty() || t.len() > 400 || t.contains(['\u{1}', '\u{2}']) { continue }
                print!("{l:?}\u{1}{t}\u{2}");
                made += 1;
            }
        }
        "corpus" => real::sort(arg(2)),
        "list" => for p in props::PROPS { println!("{}", p.id) },
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_default();
            let thorough = arg(3) == "thorough" || (arg(3).is_empty() && tier == "thorough");
            std::process::exit(sup::run(find(arg(2)), seed, thorough))
        }
        "worker" => {
            let p = find(arg(2));
            let d = Box::leak(Box::new(dict::load(SRC)));
            let known = sup::known(p.id).findings.into_iter().map(|x| x.0).collect();
            eng::worker(p, d, &known, arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6) == "thorough", arg(7))
        }
        "replay" => {
            let t = std::fs::read_to_string(arg(2)).expect("replay file");
            let v = eng::Viol::parse(&t);
            let p = find(&v.property);
            let d = Box::leak(Box::new(dict::load(SRC)));
            let dir = format!("{}/target/run/replay-{}", sup::root(), std::process::id());
            std::fs::create_dir_all(&dir).expect("scratch");
            let r = eng::replay(p, d, &v, &dir);
            let _ = std::fs::remove_dir_all(&dir);
            match r {
                Ok(()) => println!("the property holds on this input"),
                Err(m) => { println!("violated: {m}"); std::process::exit(1) }
            }
        }
        _ => { eprintln!("usage: vmon run ID [quick|thorough] | replay FILE | list | dict"); std::process::exit(2) }
    }
}
