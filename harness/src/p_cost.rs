//! C02: the cost of minification grows linearly.
use crate::eng::*;
use crate::p_any::{bit, valid, Lang};
use crate::src::Src;
use crate::{LIVE, PEAK, TOTAL};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

/// A text of any size: prefix, units (with a number in place of each \u{1}), a middle, other units, suffix.
#[derive(Clone, Debug)]
pub struct Family { pub pre: String, pub unit: String, pub mid: String, pub other: String, pub suf: String }
impl Family {
    pub fn text(&self, size: usize) -> String {
        let mut o = String::with_capacity(size + 100);
        o.push_str(&self.pre);
        let n = self.unit.len() + self.other.len();
        let k = size.saturating_sub(o.len() + self.mid.len() + self.suf.len()) / n.max(1);
        let put = |o: &mut String, u: &str, k: usize| for i in 0..k { for (j, p) in u.split('\u{1}').enumerate() { if j > 0 { o.push_str(&format!("{:04x}", i % 65536)) } o.push_str(p) } };
        if !self.unit.is_empty() { put(&mut o, &self.unit, k) }
        o.push_str(&self.mid);
        if !self.other.is_empty() { put(&mut o, &self.other, k) }
        o.push_str(&self.suf);
        o
    }
}
/// What is done with a text.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Job { Js, Css, Json, Html, Vars, Array, ArrayOld, Filters }
impl Job {
    pub fn of(s: &str) -> Job { *[Job::Js, Job::Css, Job::Json, Job::Html, Job::Vars, Job::Array, Job::ArrayOld, Job::Filters].iter().find(|j| format!("{j:?}") == s).expect("a job") }
    fn lang(self) -> Lang { match self { Job::Css => Lang::Css, Job::Json => Lang::Json, Job::Html => Lang::Html, _ => Lang::Js } }
}
pub fn work(l: Job, t: &str) -> usize {
    let js = |f: &dyn for<'a> Fn(minifier::js::Tokens<'a>) -> minifier::js::Tokens<'a>| sutapi::js_tokens(t).map_or(0, |t| f(t).to_string().len());
    match l {
        Job::Js => sutapi::js(t).map_or(0, |s| s.len()),
        Job::Css => sutapi::css(t).map_or(0, |s| s.len()),
        Job::Json => sutapi::json(t).len(),
        Job::Html => sutapi::html(t).len(),
        Job::Vars => js(&|t| sutapi::clean(sutapi::agg(t))),
        Job::Array => js(&|t| sutapi::clean(sutapi::arr(t, "R"))),
        // the program holds the array already: `var R=[` ... `]`
        Job::ArrayOld => js(&|t| sutapi::arr(sutapi::clean(t), "old")),
        Job::Filters => js(&|t| sutapi::replace_all(sutapi::clean_except(t, &|x| x.is_comment()), &|_| None)),
    }
}
struct Cost { ns: u64, peak: u64, total: u64 }
fn cost(l: Job, t: &str, times: usize) -> Cost {
    let mut c = Cost { ns: u64::MAX, peak: u64::MAX, total: u64::MAX };
    for _ in 0..times {
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        let total = TOTAL.load(Relaxed);
        let t0 = thread_cpu_ns();
        std::hint::black_box(work(l, t));
        c.ns = c.ns.min(thread_cpu_ns() - t0);
        c.peak = c.peak.min(PEAK.load(Relaxed) - live);
        c.total = c.total.min(TOTAL.load(Relaxed) - total);
    }
    c
}
/// Instructions executed for a text, counted by valgrind; None if it took too long.
fn instructions(l: Job, t: &str, dir: &str, secs: u64) -> Result<Option<u64>, String> {
    let f = format!("{dir}/work.txt");
    let log = format!("{dir}/work.log");
    std::fs::write(&f, t).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&log);
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new("valgrind").args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", &format!("--log-file={log}")])
        .arg(me).args(["work", &format!("{l:?}"), &f]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if Instant::now() > end => { let _ = c.kill(); let _ = c.wait(); return Ok(None) }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(e) => return Err(e.to_string()),
        }
    }
    let log = std::fs::read_to_string(&log).map_err(|e| e.to_string())?;
    let n = log.lines().find_map(|l| l.split_once("I refs:").or(l.split_once("I refs")).map(|x| x.1.chars().filter(|c| c.is_ascii_digit()).collect::<String>()));
    n.and_then(|n| n.parse().ok()).map(Some).ok_or_else(|| "no count".into())
}
/// The growth factor allowed when the size grows by `step`: far above linear, far below quadratic.
fn allowed(step: u64) -> u64 { if step == 4 { 9 } else { 44 } }

pub fn check_c02(cx: &mut Ctx, l: Job, f: &Family) -> Res {
    let sizes: &[usize] = if cx.thorough && cx.case_no % 8 == 0 { &[8 << 10, 32 << 10, 128 << 10] } else { &[4 << 10, 16 << 10, 64 << 10] };
    let texts: Vec<String> = sizes.iter().map(|n| f.text(*n)).collect();
    // a family whose text does not grow by the step shows nothing
    if texts[2].len() < sizes[2] * 3 / 4 || texts[0].len() < sizes[0] * 3 / 4 || texts[0].len() > sizes[0] * 5 / 4 { cx.ev("families that do not scale"); return Ok(()) }
    cx.ev(&format!("{l:?} families"));
    // an odd number of quotes may mean an early error where an even one does not: the most of a few
    let some = |n: usize, times: usize| -> Cost {
        let mut c = cost(l, &f.text(n), times);
        for d in 1..4 { let x = cost(l, &f.text(n + d * (f.unit.len() + f.other.len())), times); c = Cost { ns: c.ns.max(x.ns), peak: c.peak.max(x.peak), total: c.total.max(x.total) } }
        c
    };
    let small = cx.guard("minify", || some(sizes[0], 2))?;
    let mid = cx.guard("minify", || some(sizes[1], 1))?;
    let mut big = None;
    // do not start what would take for ever
    if mid.ns < 300_000_000 { big = Some(cx.guard("minify", || cost(l, &texts[2], 2))?) }
    cx.evn("texts measured", 8 + big.is_some() as u64);
    let (b, step) = if big.is_some() { (2, 16u64) } else { (1, 4) };
    let (ca, cb, a) = (&small, big.as_ref().unwrap_or(&mid), 0);
    // both steps must grow, else it is one early error less
    let steady = |x: u64, m: u64, y: u64| step == 4 || (m * 2 > x * 11 && y * 2 > m * 11);
    for (what, x, m, y) in [("peak memory", ca.peak, mid.peak, cb.peak), ("memory allocated in total", ca.total, mid.total, cb.total)] {
        if y > 256 * texts[b].len() as u64 && y > x * if step == 4 { 12 } else { 64 } && steady(x, m, y) {
            return Err(format!("{what}: {x} bytes for a text of {} bytes, {m} bytes for one of {}, {y} bytes for one of {} bytes", texts[0].len(), texts[1].len(), texts[b].len()));
        }
    }
    let ratio = |x: u64, y: u64| y / x.max(1);
    if ratio(ca.ns, cb.ns) > allowed(step) && cb.ns > 1_500_000 && steady(ca.ns, mid.ns, cb.ns) {
        cx.ev("suspicious times");
        let ca2 = some(sizes[0], 6).ns.min(ca.ns);
        let cb2 = cost(l, &texts[b], if cb.ns > 200_000_000 { 1 } else { 5 }).ns.min(cb.ns);
        if ratio(ca2, cb2) > allowed(step) {
            let msg = format!("time: {} us for a text of {} bytes, {} us for one of {} bytes", ca2 / 1000, texts[a].len(), cb2 / 1000, texts[b].len());
            if cx.quiet { return Err(msg) }
            // the verdict is by counted instructions
            cx.ev("counted with valgrind");
            let dir = cx.dir.clone();
            let zero = instructions(l, "", &dir, 60)?.ok_or("valgrind hangs")?;
            let Some(ia) = instructions(l, &texts[a], &dir, 60)? else { return Err(format!("{msg}; too slow to count")) };
            let r = instructions(l, &texts[b], &dir, 60)?;
            let ia = ia.saturating_sub(zero).max(200 * texts[a].len() as u64 / 10);
            match r {
                None => return Err(format!("{msg}; {ia} instructions for the first, too many to count for the second")),
                Some(ib) => {
                    let ib = ib.saturating_sub(zero);
                    if ib / ia > step * 2 { return Err(format!("{msg}; {ia} and {ib} instructions")) }
                    cx.ev("times not confirmed by instruction counts");
                }
            }
        }
    }
    Ok(())
}
const HTML: &[&str] = &["a ", "<p>x</p>", "<b class='y'>", "</b>", "<br>", "<!-- z \u{1} -->", "<!--[if IE]> z <![endif]-->", "<script>let \u{1} = 1;</script>", "<style>a { b : c }</style>", "<p title=\"a  > b\">", "\n\n", "  ", "<li></li>", "<img width=\"\u{1}\">", "<body>", "é", "&amp;", "<script type=\"text/javascript\" src='x'></script>", "</div>", "<div \n a = b  c>", "it's", "\""];
fn family(s: &mut Src, j: Job) -> Family {
    let l = j.lang();
    let mut unit = |s: &mut Src| -> String {
        if l == Lang::Html { // only what is well-formed
            return match s.below(3) { 0 => { let t = valid(s, l); if t.len() > 1500 { "<p>a</p>".into() } else { t } } _ => { let mut o = String::new(); for _ in 0..1 + s.below(3) { o.push_str(s.pick(HTML)) } o } };
        }
        match s.below(8) {
            0 => { let t = valid(s, l); if t.len() > 1500 { "a".into() } else { t } }
            1 => { let t = valid(s, l); let k = s.below(t.len() + 1); let k = (0..=k).rev().find(|k| t.is_char_boundary(*k)).unwrap(); let t = &t[k..]; if t.len() > 1500 { "a".into() } else { t.into() } }
            2 => s.pick(&["a\u{1}", "'\u{1}'", "\u{1} ", "/*\u{1}*/", ".\u{1}", "{\u{1}}", "\"\u{1}\",", "\u{1}\n", "var v\u{1}='\u{1}';", "p('s\u{1}','s\u{1}','s\u{1}');", "'string \u{1}',", ".c\u{1}{}", "/\u{1}/"]).into(),
            _ => { let mut u = bit(s, l); for _ in 0..s.below(4) { u += &bit(s, l) } u }
        }
    };
    let mut f = Family { pre: String::new(), unit: unit(s), mid: String::new(), other: String::new(), suf: String::new() };
    if s.chance(1, 3) { f.other = unit(s) }
    for x in [0, 1, 2] { if s.chance(1, 3) { let u = if l == Lang::Html { s.pick(HTML).into() } else { bit(s, l) }; match x { 0 => f.pre = u, 1 => f.mid = u, _ => f.suf = u } } }
    if s.chance(1, 8) { f.pre = "a".repeat(s.below(1000)) }
    if f.unit.is_empty() { f.unit = "a".into() }
    f
}
pub fn c02(s: &mut Src, cx: &mut Ctx) -> Res {
    let l = s.pick(&[Job::Js, Job::Js, Job::Js, Job::Css, Job::Css, Job::Css, Job::Json, Job::Json, Job::Html, Job::Vars, Job::Array, Job::ArrayOld, Job::Filters]);
    let f = family(s, l);
    cx.announce(s, format!("{l:?} {f:?}"));
    cx.nontrivial = true;
    check_c02(cx, l, &f)
}
const CASES: &[(Job, &str, &str, &str, &str, &str)] = &[
    (Job::Js, "", "/", "", "", ""), (Job::Js, "", "a/", "", "", ""), (Job::Js, "", "=/", "", "", ""), (Job::Js, "", "=/[", "", "", ""), (Job::Js, "", "(/]", "", "", ""), (Job::Js, "", "'", "", "", ""), (Job::Js, "", "=/a", "\n", "", ""), (Job::Js, "", "`${", "", "", ""), (Job::Js, "", "`${", "", "}`", ""), (Job::Js, "", "`", "", "", ""), (Job::Js, "`", "${a}", "", "", ""), (Job::Js, "`", "${a}", "", "", "`"), (Job::Js, "", "`${'", "", "", ""), (Job::Js, "", "`a${`", "", "", ""),
    (Job::Js, "", "\\", "", "", ""), (Job::Js, "'", "\\", "", "", ""), (Job::Js, "", "(", "", ")", ""), (Job::Js, "", "{", "", "}", ""), (Job::Js, "", "[", "", "", ""), (Job::Js, "", "<!--", "", "", ""), (Job::Js, "", "/*!", "", "", ""), (Job::Js, "", "/*", "", "", ""), (Job::Js, "", "//", "", "", ""), (Job::Js, "", ";", "", "", ""), (Job::Js, "", "\n", "", "", ""), (Job::Js, "a", " ", "", "", "b"), (Job::Js, "", "9", "", "", ""), (Job::Js, "", ".", "", "", ""), (Job::Js, "", "1.", "", "", ""), (Job::Js, "", "a", "", "", ""), (Job::Js, "", "é", "", "", ""), (Job::Js, "", "in ", "", "", ""), (Job::Js, "", "if(a)/b/g;", "", "", ""), (Job::Js, "", "}/", "", "", ""), (Job::Js, "", ")/", "", "", ""), (Job::Js, "", "//a\n", "", "", ""), (Job::Js, "", "/*a*/", "", "", ""), (Job::Js, "", "/*!a*/", "", "", ""), (Job::Js, "", "var a\u{1}='abcdef';", "", "", ""), (Job::Js, "", "'s\u{1}',", "", "'s\u{1}',", ""), (Job::Js, "", ";}", "", "", ""), (Job::Js, "", "\r", "", "", ""), (Job::Js, "", "!", "", "", ""), (Job::Js, "", "a:", "", "", ""),
    (Job::Js, "", "(a", "", ")/b/", ""), (Job::Js, "", "{a", "", "}/b/", ""), (Job::Js, "", "a ", "", "", ""), (Job::Js, "", "a\n", "", "/", ""),
    (Job::Vars, "", "p('s\u{1} string','s\u{1} string');", "", "", ""), (Job::Array, "", "p('s\u{1} string','s\u{1} string');", "", "", ""), (Job::Vars, "", "'a long string s\u{1}',", "", "'a long string s\u{1}',", ""), (Job::Array, "", "'a long string s\u{1}',", "", "'a long string s\u{1}',", ""),
    (Job::ArrayOld, "var old=[];", "p('s\u{1} string','s\u{1} string');", "", "", ""), (Job::ArrayOld, "var old=[", "'s\u{1} string',", "];", "p('s\u{1} string');", ""), (Job::ArrayOld, "var old=[", "[", "", "]", "]"), (Job::ArrayOld, "", "var old=", "", "", ""), (Job::ArrayOld, "", "var old=[", "", "", ""),
    (Job::Vars, "", "var r_\u{1}='a string \u{1}';", "", "p('a string \u{1}');", ""), (Job::Vars, "var a", ",b\u{1}", "", "", ";"), (Job::Vars, "var a", "\n", "=", "\n", "'b';"), (Job::Vars, "", "var\n", "", "", ""), (Job::Vars, "", "var ", "a", " ", ""), (Job::Vars, "", "r_a\u{1};p('s','s','s','s');", "", "", ""), (Job::Vars, "", "r_\u{1} ", "", "'a string \u{1}' 'a string \u{1}' ", ""), (Job::Vars, "", "a ", "", "/**/", "b"), (Job::Vars, "", ",a /**/", "", "", ""), (Job::Filters, "", "/**/", "", "a ", ""), (Job::Filters, "", "\n", "", ";", ""),
    (Job::Css, "", "[", "", "", ""), (Job::Css, "", "(", "", ")", ""), (Job::Css, "", "(", "", "", ""), (Job::Css, "", "{", "", "}", ""), (Job::Css, "", "a{", "", "", ""), (Job::Css, "", "}", "", "", ""), (Job::Css, "", "/*", "", "", ""), (Job::Css, "", "/*a*/", "", "", ""), (Job::Css, "", "/*!a*/", "", "", ""), (Job::Css, "", "\"", "", "", ""), (Job::Css, "", "\\", "", "", ""), (Job::Css, "", "url(", "", "", ""), (Job::Css, "", "url(a)", "", "", ""), (Job::Css, "", "calc(", "", ")", ""), (Job::Css, "a{b:calc(", "1px + ", "", "", ")}"), (Job::Css, "", "@media ", "", "", ""), (Job::Css, "", "@media a{", "", "}", ""), (Job::Css, "", "a:", "", "", ""), (Job::Css, "", ":", "", "", ""), (Job::Css, "a{", "a:b;", "", "", "}"), (Job::Css, "", ".c\u{1} .d,", "", "", ""), (Job::Css, "a{--x:", "a ", "", "", "}"), (Job::Css, "", " ", "", "", ""), (Job::Css, "", "\\31 ", "", "", ""), (Job::Css, "", "a", "", "", ""), (Job::Css, "", "#", "", "", ""), (Job::Css, "", "a>", "", "", ""), (Job::Css, "", "a ", "", "{", ""), (Job::Css, "", "@", "", "", ""), (Job::Css, "", ";", "", "", ""), (Job::Css, "", "+ ", "", "", ""), (Job::Css, "", "*", "", "", ""), (Job::Css, "", "a[b]", "", "", ""), (Job::Css, "", "!", "", "", ""), (Job::Css, "", "@import url(a);", "", "", ""), (Job::Css, "", "a:b ", "", "", ""), (Job::Css, "", "a:b", "", "{}", ""),
    (Job::Json, "", "[", "", "]", ""), (Job::Json, "", "{\"a\":", "", "}", ""), (Job::Json, "\"", "\\", "", "", ""), (Job::Json, "", "\"", "", "", ""), (Job::Json, "", " ", "", "", ""), (Job::Json, "", "\"\\\\\"", "", "", ""), (Job::Json, "", "é", "", "", ""), (Job::Json, "[", "1,", "", "", "1]"), (Job::Json, "", "\"\u{1}\" : 1 ,", "", "", ""), (Job::Json, "\"", " ", "", "", "\""),
    (Job::Html, "", "a ", "", "", ""), (Job::Html, "", "<p>x</p>", "", "", ""), (Job::Html, "", "<br>", "", "", ""), (Job::Html, "", "<!-- z -->", "", "", ""), (Job::Html, "", "<!--[if IE]> z <![endif]-->", "", "", ""), (Job::Html, "", "<script>let a = 1;</script>", "", "", ""), (Job::Html, "", "<style>a { b : c }</style>", "", "", ""), (Job::Html, "", "<p title='a  > b'>", "", "", ""), (Job::Html, "", "<pre> a </pre>", "", "", ""), (Job::Html, "", "<textarea> a </textarea>", "", "", ""), (Job::Html, "", "  ", "", "", ""), (Job::Html, "", "<li></li>", "", "", ""), (Job::Html, "", "<body>", "", "", ""), (Job::Html, "", "é", "", "", ""), (Job::Html, "", "&amp;", "", "", ""),
    (Job::Html, "", "<div>", "", "</div>", ""), (Job::Html, "<p title=\"", "a  >", "", "", "\"></p>"), (Job::Html, "<!--", "a  >", "", "", "--><b>"), (Job::Html, "<script>", "a  <", "", "", "</script>"),
];
pub fn fixed_c02() -> Vec<Fixed> {
    CASES.iter().map(|(l, a, b, c, d, e)| {
        let f = Family { pre: a.to_string(), unit: b.to_string(), mid: c.to_string(), other: d.to_string(), suf: e.to_string() };
        let name: &'static str = Box::leak(format!("{l:?} {a:?} {b:?} {c:?} {d:?} {e:?}").into_boxed_str());
        (name, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(format!("{l:?} {f:?}")); check_c02(cx, *l, &f) }) as Box<dyn Fn(&mut Ctx) -> Res>)
    }).collect()
}
