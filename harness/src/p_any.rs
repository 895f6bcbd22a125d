//! Any text: C01 (nothing crashes), C23 (writing), C24 (determinism).
use crate::eng::*;
use crate::jsgen::*;
use crate::p_json::{any_char, gen_doc};
use crate::src::Src;
use minifier::js::{ReservedChar, Token, Tokens};
use std::cell::RefCell;
use std::io::{self, Cursor, ErrorKind, Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang { Js, Css, Json, Html }
const LANGS: &[Lang] = &[Lang::Js, Lang::Js, Lang::Css, Lang::Json, Lang::Html];

const JS_BITS: &[&str] = &["/", "//", "/*", "*/", "/*!", "/**", "`", "${", "}", "{", "\"", "'", "\\", "\\\"", "/[", "]/", "/g", "(", ")", "[", "]", ";", ",", ".", "...", "=", "==", "===", "=>", "!", "!=", "!==",
    "<!--", "-->", "<", "<=", "<<", ">", ">=", ">>>", "+", "++", "+=", "-", "--", "-=", "*", "**", "%", "&", "&&", "|", "||", "^", "~", "?", "?.", "??", ":", "@", "#", "#!", "#x", "in", "instanceof", "return", "typeof", "var", "let", "const", "var a=", "let a='",
    "0", "0x", "0b1", "1e", "1e+", "1.", ".5", "1_0", "5n", "99999999999999999999", "18446744073709551616", "4294967296", "\n", "\r", "\r\n", "\u{2028}", "\t", " ", "\u{feff}", "\u{a0}", "'a'", "\"a\"", "'abcdef'", "r_aa", "return/", ")/", "if(a)/", "}/", "/a/gimsuy", "é", "𝒳", "\u{0}", "\u{7f}", "\\u{61}", "var a,b=1", "get in"];
const CSS_BITS: &[&str] = &["\"", "'", "/*", "*/", "/*!", "/**", "{", "}", "[", "]", "\\", "(", ")", "url(", "url( '", "calc(", "clamp(", ":", ";", "!", ",", "@media ", "@import", "@supports not", "@charset", "--x:", ">", "+", "~", "*", "|", "||", "/", "%", "#", ".", "!important", "\\31 ", "\\", "\n", "\r", "\x0c", "\t", " ",
    "and", "or", "not", "a", "é", "-", "- ", " +", "1e+", "<!--", "-->", "\u{0}", "URL(", "=", "~=", "^=", "$=", "&", "$", "^", "|="];
const HTML_BITS: &[&str] = &["<", ">", "</", "/>", "<!--", "-->", "--!>", "<!-->", "<![endif]", "<!--[if IE]>", "<!--<![endif]-->", "<!", "<!DOCTYPE", "<?", "<script", "<script>", "</script>", "</script", "<style>", "</style>", "<style", "<pre>", "</pre>", "<textarea>", "</textarea", "<title>", "</title>",
    "<p>", "</p>", "<li>", "</li>", "</body>", "</html>", "</head>", "<body>", "<head>", "<html>", "<a ", "=\"", "='", "=", "\"", "'", " width=\"5\"", " height='1'", " type=\"text/javascript\"", " type='text/css'", " type", "\n", "\t", " ", "  ", "\r", "\u{a0}", "&amp;", "&", "é", "\u{0}", "]]>", "<![CDATA[", "<SCRIPT>", "</SCRIPT>", "İ", "ſ", "K"];
const JSON_BITS: &[&str] = &["{", "}", "[", "]", ":", ",", "\"", "\\", "\\\"", "\\u12", "\\\\", "\"a\"", "null", "true", "1e5", "-0", " ", "\n", "\t", "\r", "\u{0}", "é", "𝒳", "\u{feff}", "\u{2028}", "'", "//", "/*"];
fn bits(l: Lang) -> &'static [&'static str] { match l { Lang::Js => JS_BITS, Lang::Css => CSS_BITS, Lang::Json => JSON_BITS, Lang::Html => HTML_BITS } }
fn cap(l: Lang) -> usize { if l == Lang::Html { 6_000 } else { 200_000 } }

pub fn bit(s: &mut Src, l: Lang) -> String {
    match s.below(8) {
        0..=4 => s.pick(bits(l)).into(),
        5 => s.word().into(),
        6 => any_char(s).to_string(),
        _ => { let o = s.pick(LANGS); s.pick(bits(o)).into() }
    }
}
/// A well-formed text of the language.
pub fn valid(s: &mut Src, l: Lang) -> String {
    if s.chance(1, 100) {
        if let Some(t) = crate::real::text(s, match l { Lang::Js => "js", Lang::Css => "css", Lang::Json => "json", Lang::Html => "html" }).filter(|t| t.len() < cap(l)) { return t }
    }
    match l {
        Lang::Js => { let r = s.chance(1, 2); program(s, Opts { stmts: 3, r_names: r, lit_weight: 3, ..Opts::default() }).text }
        Lang::Css => crate::p_css::sheet(s, 2).text,
        Lang::Json => gen_doc(s).text,
        Lang::Html => crate::p_html::doc(s).text,
    }
}
fn at(s: &mut Src, o: &str) -> usize { let k = match s.below(4) { 0 => 0, 1 => o.len(), _ => s.below(o.len() + 1) }; (0..=k).rev().find(|k| o.is_char_boundary(*k)).unwrap() }
/// Any text, made with the language in mind.
pub fn hostile(s: &mut Src, l: Lang) -> String {
    let lim = cap(l);
    let mut o = match s.below(6) { 0 | 1 => String::new(), 2 => { let k = s.pick(LANGS); valid(s, k) }, _ => valid(s, l) };
    if o.len() > lim { o = String::new() }
    let n = s.size(8, 120);
    for _ in 0..n {
        if o.len() > lim { break }
        match s.below(10) {
            0..=4 => { let b = bit(s, l); let k = at(s, &o); o.insert_str(k, &b) }
            5 => { let (a, b) = (at(s, &o), at(s, &o)); let (a, b) = (a.min(b), a.max(b)); if b - a < 40 || s.chance(1, 4) { o.replace_range(a..b, "") } }
            6 => { let k = at(s, &o); if s.chance(1, 2) { o.truncate(k) } else { o = o[k..].into() } }
            7 => { let (a, b) = (at(s, &o), at(s, &o)); let t = o[a.min(b)..a.max(b)].to_string(); let k = at(s, &o); if t.len() + o.len() <= lim { o.insert_str(k, &t) } }
            8 => { // a run
                let mut u = bit(s, l);
                for _ in 0..s.below(3) { u += &bit(s, l) }
                let room = (lim - o.len()) / u.len().max(1);
                let m = if s.chance(1, 4) { s.hot(room) } else { s.below(20.min(room + 1)) };
                let k = at(s, &o);
                o.insert_str(k, &u.repeat(m));
            }
            _ => { // nesting
                let a = bit(s, l);
                let b = bit(s, l);
                let room = (lim - o.len()) / (a.len() + b.len()).max(1);
                let m = if s.chance(1, 4) { s.hot(room) } else { s.below(10.min(room + 1)) };
                let (k, m) = (at(s, &o), m);
                o.insert_str(k, &(a.repeat(m) + &b.repeat(m)));
            }
        }
    }
    o
}

// ---- C01 -------------------------------------------------------------------------------

fn utf8(what: &str, v: Vec<u8>) -> Res { String::from_utf8(v).map(|_| ()).map_err(|e| format!("{what}: what is written is not UTF-8: {e}")) }
fn tokens_all(cx: &mut Ctx, what: &str, t: &dyn Fn() -> Tokens<'static>, salt: u32, name: &str) -> Res {
    let h = move |t: &Token| fnv(format!("{t:?}{salt}").as_bytes()) >> 7;
    let n = t().0.len();
    let mut go = |op: &str, f: &dyn Fn() -> Tokens<'static>| -> Res {
        let r = cx.guard(&format!("{op} on {what}"), || f().to_string())?;
        cx.ev("token lists rendered");
        cx.evn("bytes rendered", r.len() as u64);
        Ok(())
    };
    go("nothing", t)?;
    go("clean_tokens", &|| sutapi::clean(t()))?;
    go("clean_tokens_except", &|| sutapi::clean_except(t(), &|t| h(t) % 8 != 0))?;
    go("replace_tokens_with", &|| sutapi::replace_all(t(), &|t| match h(t) % 6 { 0 => Some(Token::String("'new'")), 1 => Some(Token::Char(ReservedChar::Space)), 2 => Some(Token::Other("é")), _ => None }))?;
    go("aggregate_strings", &|| sutapi::agg(t()))?;
    go("aggregate_strings_with_separation", &|| sutapi::agg_sep(t(), Token::Char(ReservedChar::Backline)))?;
    go("aggregate_strings_into_array", &|| sutapi::arr(t(), name))?;
    go("aggregate_strings_into_array_filter", &|| sutapi::arr_filter(t(), name, &|_, p| (p as u64).wrapping_mul(salt as u64 | 1) % 4 != 0))?;
    go("aggregate_strings_into_array_with_separation", &|| sutapi::arr_sep(t(), name, Token::Char(ReservedChar::Backline)))?;
    go("aggregate_strings_into_array_with_separation_filter", &|| sutapi::arr_sep_filter(t(), name, Token::License("é"), &|_, p| p % 3 != 1))?;
    go("cleaning after aggregation", &|| sutapi::clean(sutapi::agg(t())))?;
    go("cleaning after aggregation into an array", &|| sutapi::clean(sutapi::arr(t(), name)))?;
    go("aggregation twice", &|| sutapi::agg(sutapi::arr(sutapi::agg(t()), name)))?;
    let list = t();
    let mut pos: Vec<usize> = (0..n.min(150)).collect();
    pos.extend(n.saturating_sub(50)..n + 3);
    pos.extend([n * 2, usize::MAX, usize::MAX - 1, usize::MAX / 2]);
    for p in pos {
        let r = cx.guard(&format!("get_variable_name_and_value_positions at {p} of {n} on {what}"), || sutapi::var_positions(&list, p))?;
        cx.ev("positions asked");
        if let Some((a, b)) = r { if a >= n || b.is_some_and(|b| b >= n) { return Err(format!("positions {a} {b:?} beyond the list of {n} tokens")) } }
    }
    Ok(())
}
pub fn check_c01(cx: &mut Ctx, l: Lang, t: &str, salt: u32, name: &str) -> Res {
    cx.ev(&format!("{l:?} texts"));
    cx.evn("bytes given", t.len() as u64);
    match l {
        Lang::Json => {
            let o = cx.guard("json::minify", || sutapi::json(t))?;
            let mut v = vec![];
            cx.guard("json write", || sutapi::json_write(t, &mut v))?.map_err(|e| format!("writing JSON to a Vec fails: {e}"))?;
            utf8("json", v)?;
            cx.evn("bytes rendered", o.len() as u64);
            // the reader, on the bytes with some of them spoilt
            let mut b = t.as_bytes().to_vec();
            for i in 0..salt as usize % 4 { if !b.is_empty() { let k = (salt as usize).wrapping_mul(31 + i) % b.len(); b[k] = (salt >> (8 * i)) as u8 } }
            let step = [1, 3, 4096, usize::MAX][(salt >> 4) as usize % 4];
            let size = [1, 5, 4096, 100_000][(salt >> 6) as usize % 4].min(b.len() + 16);
            struct Slow(Cursor<Vec<u8>>, usize);
            impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
            let lim = b.len() + 64;
            let n = cx.guard("the JSON reader", || {
                let mut r = sutapi::json_reader(Box::new(Slow(Cursor::new(b), step)));
                let mut buf = vec![0u8; size];
                let (mut n, mut after) = (0, 0);
                for _ in 0..2 * lim + 10 {
                    match r.read(&mut buf) { Ok(0) | Err(_) => { after += 1; if after > 3 { return Ok(n) } } Ok(k) => n += k }
                    if n > lim { break }
                }
                Err("the reader does not come to an end".to_string())
            })??;
            cx.ev("readers drained");
            cx.evn("bytes read", n as u64);
        }
        Lang::Css => {
            let r = cx.guard("css::minify", || sutapi::css(t))?;
            let mut v = vec![];
            match (r, cx.guard("css write", || sutapi::css_write(t, &mut v))?) {
                (Ok(o), Ok(w)) => { w.map_err(|e| format!("writing CSS to a Vec fails: {e}"))?; utf8("css", v)?; cx.evn("bytes rendered", o.len() as u64) }
                (Err(_), Err(_)) => cx.ev("texts rejected"),
                _ => return Err("CSS accepted and rejected".into()),
            }
        }
        Lang::Html => { let o = cx.guard("html::minify", || sutapi::html(t))?; utf8("html", o.into_bytes())? }
        Lang::Js => {
            let r = cx.guard("js::minify", || sutapi::js(t))?;
            let mut v = vec![];
            match (r, cx.guard("js write", || sutapi::js_write(t, &mut v))?) {
                (Ok(o), Ok(w)) => { w.map_err(|e| format!("writing JS to a Vec fails: {e}"))?; utf8("js", v)?; cx.evn("bytes rendered", o.len() as u64) }
                (Err(_), Err(_)) => cx.ev("texts rejected"),
                _ => return Err("JS accepted and rejected".into()),
            }
            let raw = cx.guard("tokenize", || sutapi::js_tokenize(t).map(|_| ()))?.is_ok();
            let simple = cx.guard("simple_minify", || sutapi::js_tokens(t).map(|_| ()))?.is_ok();
            if raw != simple { return Err("tokenize and simple_minify disagree about an error".into()) }
            if raw {
                // the list may live as long as the text does, which is until the end of this function
                let st: &'static str = unsafe { std::mem::transmute(t) };
                tokens_all(cx, "the tokens", &|| sutapi::js_tokenize(st).unwrap(), salt, name)?;
                if t.len() < 5000 { tokens_all(cx, "the cleaned tokens", &|| sutapi::clean(sutapi::js_tokenize(st).unwrap()), salt, name)?; }
            }
        }
    }
    Ok(())
}
pub fn c01(s: &mut Src, cx: &mut Ctx) -> Res {
    let l = s.pick(LANGS);
    let t = hostile(s, l);
    let salt = s.bits();
    let name = if s.chance(2, 3) { s.pick(&["R", "a", "r_aa", "x", "éé", "foo"]).to_string() } else if s.chance(1, 2) { bit(s, Lang::Js) } else { String::new() };
    cx.announce(s, format!("{l:?}\u{1}{salt}\u{1}{name}\u{1}{t}"));
    cx.nontrivial = t.len() > 1;
    check_c01(cx, l, &t, salt, &name)
}
const C01_CASES: &[(&str, Lang, &str, usize)] = &[
    ("nested templates", Lang::Js, "`${", 60_000), ("nested braces", Lang::Js, "{", 200_000), ("nested parentheses", Lang::Js, "(/", 100_000), ("open comments", Lang::Js, "/*", 100_000),
    ("huge number", Lang::Js, "9", 100_000), ("dots", Lang::Js, "1.", 100_000), ("regexes", Lang::Js, "/a/", 60_000), ("quotes", Lang::Js, "'\\", 60_000), ("declarations", Lang::Js, "var a='b',", 30_000), ("equal strings", Lang::Js, "'abcdef';", 30_000),
    ("open brackets", Lang::Css, "[", 200_000), ("open braces", Lang::Css, "{", 200_000), ("open parentheses", Lang::Css, "(", 200_000), ("closed braces", Lang::Css, "a{}", 60_000), ("open urls", Lang::Css, "url(", 60_000), ("escapes", Lang::Css, "\\31 ", 60_000),
    ("nested arrays", Lang::Json, "[", 200_000), ("nested objects", Lang::Json, "{\"a\":", 60_000), ("backslashes", Lang::Json, "\\", 200_000), ("quotes", Lang::Json, "\"", 200_000),
    ("nested elements", Lang::Html, "<div>", 2_000), ("open comments", Lang::Html, "<!--", 2_000), ("open tags", Lang::Html, "<a b=\"", 1_000), ("open scripts", Lang::Html, "<script", 1_000), ("spaces", Lang::Html, " ", 10_000),
];
const C01_TEXTS: &[(Lang, &str)] = &[
    (Lang::Js, ""), (Lang::Js, "/"), (Lang::Js, "\\"), (Lang::Js, "'"), (Lang::Js, "`"), (Lang::Js, "`${"), (Lang::Js, "/["), (Lang::Js, "a/"), (Lang::Js, "var"), (Lang::Js, "var a ="), (Lang::Js, "let é=\"é\";'é'"), (Lang::Js, "\u{feff}é/é/é"), (Lang::Js, "R=["), (Lang::Js, "var R=['a'"), (Lang::Js, "var R=[];'abcdef';'abcdef'"), (Lang::Js, "var R;'abcdef';'abcdef'"), (Lang::Js, "0x"), (Lang::Js, "1e"), (Lang::Js, "<!-"), (Lang::Js, "/*!"), (Lang::Js, "/*!*/"), (Lang::Js, "//"),
    (Lang::Css, ""), (Lang::Css, "\\"), (Lang::Css, "é\\"), (Lang::Css, "/*"), (Lang::Css, "/*!*/"), (Lang::Css, "/**/"), (Lang::Css, "/***/"), (Lang::Css, "url(é"), (Lang::Css, "@"), (Lang::Css, "!"), (Lang::Css, "a{b:é"), (Lang::Css, "]"), (Lang::Css, "}"),
    (Lang::Json, ""), (Lang::Json, "\""), (Lang::Json, "\\"), (Lang::Json, "é"), (Lang::Json, "\"é"),
    (Lang::Html, ""), (Lang::Html, "<"), (Lang::Html, "<é"), (Lang::Html, "</"), (Lang::Html, "<!--"), (Lang::Html, "<!"), (Lang::Html, "<script>é"), (Lang::Html, "<a =é"), (Lang::Html, "<pre>é"), (Lang::Html, "İ<SCRIPT>ſ</ſCRIPT>"), (Lang::Html, "K</SCRIPT"),
];
/// Openers; every sequence of up to three of them is repeated to a long text.
const JS_OPEN: &[&str] = &["`${", "${", "`", "{", "(", "[", "'", "\"", "/*", "/", "//", "\n", "\\", "a", "=", "1.", "var a="];
const CSS_OPEN: &[&str] = &["{", "(", "[", "\"", "'", "/*", "url(", "\\", "a", ":", "}", "@a ", "calc("];
const JSON_OPEN: &[&str] = &["{", "[", "\"", "\\", ":", ",", " ", "1", "é"];
const HTML_OPEN: &[&str] = &["<a ", "<", ">", "<!--", "<script>", "\"", "=", "<pre>", "<![", "</"];
fn grid(cx: &mut Ctx, l: Lang) -> Res {
    let (u, size) = match l { Lang::Js => (JS_OPEN, 60_000), Lang::Css => (CSS_OPEN, 60_000), Lang::Json => (JSON_OPEN, 60_000), Lang::Html => (HTML_OPEN, 1_500) };
    let n = u.len();
    for k in 0..n + n * n + n * n * n {
        let mut x = match k { _ if k < n => u[k].to_string(), _ if k < n + n * n => { let k = k - n; format!("{}{}", u[k / n], u[k % n]) }, _ => { let k = k - n - n * n; if k % 7 != 0 && l != Lang::Js { continue } format!("{}{}{}", u[k / n / n], u[k / n % n], u[k % n]) } };
        let m = if k < n + n * n { size } else { size / 4 };
        x = x.repeat(m / x.len());
        cx.announce_fixed(format!("{l:?} {:?}... {} bytes", x.chars().take(40).collect::<String>(), x.len()));
        cx.guard("minify", || match l { Lang::Js => sutapi::js(&x).is_ok(), Lang::Css => sutapi::css(&x).is_ok(), Lang::Json => !sutapi::json(&x).is_empty(), Lang::Html => !sutapi::html(&x).is_empty() })?;
        cx.ev("nesting grid texts");
        cx.evn("bytes given", x.len() as u64);
    }
    Ok(())
}
pub fn fixed_c01() -> Vec<Fixed> {
    let mut v: Vec<Fixed> = vec![];
    for (n, l) in [("JS nesting grid", Lang::Js), ("CSS nesting grid", Lang::Css), ("JSON nesting grid", Lang::Json), ("HTML nesting grid", Lang::Html)] { v.push((n, Box::new(move |cx: &mut Ctx| grid(cx, l)))) }
    for (n, l, u, k) in C01_CASES {
        v.push((n, Box::new(move |cx: &mut Ctx| { let t = u.repeat(*k); cx.announce_fixed(format!("{l:?} {u:?} * {k}")); check_c01(cx, *l, &t, 7, "R") })));
    }
    for (l, t) in C01_TEXTS {
        v.push((t, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(format!("{l:?} {t:?}")); for salt in [0, 1, 0x1234_5671] { check_c01(cx, *l, t, salt, "R")? } Ok(()) })));
    }
    v
}

// ---- C23 -------------------------------------------------------------------------------

/// A stream that follows a script.
struct Stream { out: Vec<u8>, steps: Vec<(usize, bool)>, at: usize, fail: Option<(usize, ErrorKind)>, once: bool, calls: u64, interrupts: u64, errors: u64 }
impl Stream {
    fn new(steps: Vec<(usize, bool)>, fail: Option<(usize, ErrorKind)>, once: bool) -> Self { Stream { out: vec![], steps, at: 0, fail, once, calls: 0, interrupts: 0, errors: 0 } }
}
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 20_000_000 { panic!("the stream is written to without end") }
        let (n, int) = self.steps[self.at % self.steps.len()];
        self.at += 1;
        if int { self.interrupts += 1; return Err(ErrorKind::Interrupted.into()) }
        let mut n = n.max(1).min(b.len());
        if let Some((p, k)) = self.fail {
            if self.errors == 0 || !self.once {
                if self.out.len() >= p { self.errors += 1; return Err(io::Error::new(k, "injected fault")) }
                n = n.min(p - self.out.len());
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn write_to(l: Lang, t: &str, w: &mut dyn Write) -> Result<io::Result<()>, &'static str> {
    match l { Lang::Js => sutapi::js_write(t, w), Lang::Css => sutapi::css_write(t, w), _ => Ok(sutapi::json_write(t, w)) }
}
pub fn check_c23(cx: &mut Ctx, l: Lang, t: &str, steps: &[(usize, bool)], fail: Option<(usize, ErrorKind)>, once: bool) -> Res {
    let shown = match cx.guard("minify", || match l { Lang::Js => sutapi::js(t), Lang::Css => sutapi::css(t), _ => Ok(sutapi::json(t)) })? { Ok(s) => s, Err(_) => { cx.ev("texts rejected"); return Ok(()) } };
    let mut w = Stream::new(steps.to_vec(), None, false);
    cx.guard("write", || write_to(l, t, &mut w))?.map_err(|e| format!("displayed, but writing gives {e}"))?.map_err(|e| format!("writing to a stream which never fails gives {e:?}"))?;
    cx.evn("calls of write", w.calls);
    cx.evn("interrupted calls", w.interrupts);
    cx.evn("bytes compared", shown.len() as u64);
    if w.out != shown.as_bytes() {
        let k = w.out.iter().zip(shown.as_bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("written and displayed text differ at byte {k} ({} bytes written, {} displayed): {:?}", w.out.len(), shown.len(), String::from_utf8_lossy(&w.out[k.saturating_sub(10)..]).chars().take(60).collect::<String>()));
    }
    if let Some((p, k)) = fail {
        let p = p % (shown.len() + 1);
        let mut w = Stream::new(steps.to_vec(), Some((p, k)), once);
        let r = cx.guard("write", || write_to(l, t, &mut w))?.map_err(|e| format!("displayed, but writing gives {e}"))?;
        cx.ev("streams with a fault");
        if w.errors > 0 { cx.ev("faults met") }
        match r {
            Ok(()) if w.errors > 0 || p < shown.len() => return Err(format!("the stream failed after {p} bytes, writing says all is well")),
            Ok(()) => {}
            Err(e) if w.errors == 0 => return Err(format!("the stream did not fail, writing gives {e:?}")),
            Err(e) if e.kind() != k => return Err(format!("the stream failed with {k:?}, writing gives {e:?}")),
            Err(_) => {}
        }
        if !shown.as_bytes().starts_with(&w.out) { return Err(format!("what was written before the fault ({} bytes) is no prefix of the displayed text", w.out.len())) }
    }
    Ok(())
}
const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::WriteZero, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::StorageFull, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];
pub fn c23(s: &mut Src, cx: &mut Ctx) -> Res {
    let l = s.pick(&[Lang::Js, Lang::Css, Lang::Json]);
    let t = if s.chance(2, 3) { let t = valid(s, l); if s.chance(1, 6) { t.repeat(1 + s.hot(20_000) / t.len().max(1)) } else { t } } else { hostile(s, l) };
    let n = 1 + s.below(5);
    let mut steps: Vec<(usize, bool)> = (0..n).map(|_| (match s.below(4) { 0 => 1, 1 => 1 + s.below(4), 2 => 1 + s.below(64), _ => 1 + s.hot(9000) }, s.chance(1, 4))).collect();
    if steps.iter().all(|x| x.1) { steps.push((1, false)) }
    if s.chance(1, 6) { steps = vec![(usize::MAX, false)] }
    let fail = if s.chance(2, 3) { Some((s.bits() as usize, s.pick(KINDS))) } else { None };
    let once = s.chance(1, 2);
    cx.announce(s, format!("{l:?}\u{1}steps {steps:?} fault {fail:?} once {once}\u{1}{t}"));
    cx.nontrivial = t.len() > 3;
    check_c23(cx, l, &t, &steps, fail, once)
}
pub fn fixed_c23() -> Vec<Fixed> {
    let mut v: Vec<Fixed> = vec![];
    for (l, t) in [(Lang::Js, "/*! l */ var a = 'é' , b = /x/gi; a  in b"), (Lang::Css, "/*! l */ a , b { c : \"é\" } @media x { }"), (Lang::Json, " { \"é\" : [ 1 , null ] } ")] {
        v.push((t, Box::new(move |cx: &mut Ctx| {
            cx.announce_fixed(format!("{l:?}\u{1}every position of a fault\u{1}{t}"));
            for p in 0..60 { for once in [false, true] { for steps in [vec![(1, false)], vec![(3, false), (1, true)], vec![(usize::MAX, false)]] { check_c23(cx, l, t, &steps, Some((p, KINDS[p % KINDS.len()])), once)? } } }
            Ok(())
        })));
    }
    v
}

// ---- C24 -------------------------------------------------------------------------------

const OPS: usize = 9;
const OP_NAMES: [&str; OPS] = ["js::minify", "css::minify", "json::minify", "html::minify", "aggregate_strings", "aggregate_strings_into_array", "cleaning after aggregation", "aggregation into an array with filter", "the JSON reader"];
pub fn op(k: usize, t: &str) -> Vec<u8> {
    let e = |r: Result<String, &'static str>| match r { Ok(s) => { let mut v = vec![1]; v.extend(s.into_bytes()); v } Err(e) => { let mut v = vec![0]; v.extend(e.as_bytes()); v } };
    let toks = |f: &dyn Fn(Tokens) -> String| e(sutapi::js_tokens(t).map(|x| f(x)));
    match k {
        0 => e(sutapi::js(t)),
        1 => e(sutapi::css(t)),
        2 => e(Ok(sutapi::json(t))),
        3 => e(Ok(sutapi::html(t))),
        4 => toks(&|x| sutapi::agg(x).to_string()),
        5 => toks(&|x| sutapi::arr(x, "R").to_string()),
        6 => toks(&|x| sutapi::clean(sutapi::agg_sep(x, Token::Char(ReservedChar::Backline))).to_string()),
        7 => toks(&|x| sutapi::arr_filter(x, "r_aa", &|_, p| p % 3 != 0).to_string()),
        _ => { let mut v = vec![]; let r = sutapi::json_reader(Box::new(Cursor::new(t.as_bytes()))).read_to_end(&mut v); v.push(r.is_ok() as u8); v }
    }
}
extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
/// Answers requests (operation, length, text) with the result of a process that has done nothing else.
pub fn calc() {
    let (mut i, mut o) = (io::stdin().lock(), io::stdout().lock());
    let mut h = [0u8; 12];
    while i.read_exact(&mut h).is_ok() {
        let k = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
        let n = u64::from_le_bytes(h[4..].try_into().unwrap()) as usize;
        let mut t = vec![0u8; n];
        if i.read_exact(&mut t).is_err() { return }
        let t = String::from_utf8(t).expect("request");
        unsafe {
            let c = fork();
            if c == 0 {
                let r = op(k, &t);
                let _ = o.write_all(&(r.len() as u64).to_le_bytes());
                let _ = o.write_all(&r);
                let _ = o.flush();
                _exit(0)
            }
            let mut st = 0;
            if c < 0 || waitpid(c, &mut st, 0) < 0 || st != 0 { return }
        }
    }
}
struct Calc { c: std::process::Child, i: std::process::ChildStdin, o: std::process::ChildStdout }
impl Drop for Calc { fn drop(&mut self) { let _ = self.c.kill(); let _ = self.c.wait(); } }
struct State { calc: Option<Calc>, asked: u32, past: Vec<(usize, String, Vec<u8>)> }
thread_local! { static STATE: RefCell<State> = const { RefCell::new(State { calc: None, asked: 0, past: vec![] }) } }
fn elsewhere(k: usize, t: &str) -> Option<Vec<u8>> {
    STATE.with(|st| {
        let mut st = st.borrow_mut();
        st.asked += 1;
        if st.asked % 300 == 0 { st.calc = None }
        if st.calc.is_none() {
            use std::process::{Command, Stdio};
            let mut c = Command::new(std::env::current_exe().ok()?).arg("calc").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let (i, o) = (c.stdin.take()?, c.stdout.take()?);
            st.calc = Some(Calc { c, i, o });
        }
        let c = st.calc.as_mut()?;
        let mut go = || -> io::Result<Vec<u8>> {
            c.i.write_all(&(k as u32).to_le_bytes())?;
            c.i.write_all(&(t.len() as u64).to_le_bytes())?;
            c.i.write_all(t.as_bytes())?;
            c.i.flush()?;
            let mut h = [0u8; 8];
            c.o.read_exact(&mut h)?;
            let mut v = vec![0; u64::from_le_bytes(h) as usize];
            c.o.read_exact(&mut v)?;
            Ok(v)
        };
        let r = go().ok();
        if r.is_none() { st.calc = None }
        r
    })
}
fn differ(k: usize, when: &str, a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let sh = |v: &[u8]| format!("{:?}", String::from_utf8_lossy(&v[at.saturating_sub(20).min(v.len())..]).chars().take(80).collect::<String>());
    format!("{} gives something else {when}: {} instead of {} at byte {at}", OP_NAMES[k], sh(b), sh(a))
}
/// A text much like another one.
fn variant(s: &mut Src, t: &str) -> String {
    let mut o = t.to_string();
    for _ in 0..1 + s.below(3) {
        if o.is_empty() { break }
        let k = at(s, &o);
        match s.below(4) {
            0 => { // another letter in place of one, so that the length stays
                if let Some(c) = o[k..].chars().next() { if c.is_ascii_alphanumeric() { o.replace_range(k..k + 1, s.pick(&["a", "b", "Z", "7"])) } }
            }
            1 => o.truncate(k),
            2 => o.insert_str(k, s.pick(&[" ", "x", "'abcdef'", "\n", "/**/", "}"])),
            _ => { let h = o[k..].to_string(); o = h + &o[..k] }
        }
    }
    o
}
pub fn check_c24(cx: &mut Ctx, list: &[(usize, String)], threads: bool, fresh: bool) -> Res {
    let mut first: Vec<Vec<u8>> = vec![];
    for (k, t) in list { first.push(cx.guard(OP_NAMES[*k], || op(*k, t))?); cx.ev(OP_NAMES[*k]) }
    for i in (0..list.len()).rev() {
        let (k, t) = &list[i];
        let again = cx.guard(OP_NAMES[*k], || op(*k, t))?;
        cx.ev("repeated");
        if again != first[i] { return Err(differ(*k, "the second time", &first[i], &again)) }
    }
    if fresh {
        for (i, (k, t)) in list.iter().enumerate() {
            let Some(o) = elsewhere(*k, t) else { cx.ev("no answer from another process"); continue };
            cx.ev("compared with a fresh process");
            if o != first[i] { return Err(differ(*k, "in a process that has done nothing else", &first[i], &o)) }
        }
    }
    if threads {
        let n = 4;
        let bar = std::sync::Barrier::new(n);
        let bad: Vec<Option<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n).map(|j| { let (bar, first, list) = (&bar, &first, &list); std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                bar.wait();
                for r in 0..3 { for i in 0..list.len() {
                    let i = (i * (1 + 2 * (j % 2)) + j + r) % list.len();
                    let (k, t) = &list[i];
                    let o = op(*k, t);
                    if o != first[i] { return Some(differ(*k, "on a thread beside others", &first[i], &o)) }
                } }
                None
            }).expect("thread") }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
        });
        cx.evn("computed on threads", (n * 3 * list.len()) as u64);
        if let Some(m) = bad.into_iter().flatten().next() { return Err(m) }
    }
    Ok(())
}
pub fn c24(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut list: Vec<(usize, String)> = vec![];
    for _ in 0..1 + s.below(3) {
        let k = s.below(OPS);
        let l = match k { 1 => Lang::Css, 2 | 8 => Lang::Json, 3 => Lang::Html, _ => Lang::Js };
        let t = match s.below(6) {
            0 => hostile(s, l),
            1 | 2 if l == Lang::Js => { let o = crate::p_agg::opts(s); program(s, o).text }
            _ => valid(s, l),
        };
        let t = if t.len() > 20_000 { String::new() } else { t };
        if s.chance(1, 2) { let v = variant(s, &t); list.push((k, v)) }
        list.push((k, t));
    }
    let threads = s.chance(1, 3);
    cx.announce(s, list.iter().map(|(k, t)| format!("{}\u{1}{t}", OP_NAMES[*k])).collect::<Vec<_>>().join("\u{2}"));
    cx.nontrivial = list.iter().any(|x| x.1.len() > 10);
    check_c24(cx, &list, threads, true)?;
    // an earlier one again
    let old = STATE.with(|st| { let st = st.borrow(); if st.past.is_empty() { None } else { let k = s.below(st.past.len()); Some(st.past[k].clone()) } });
    if let Some((k, t, r)) = old {
        let again = cx.guard(OP_NAMES[k], || op(k, &t))?;
        cx.ev("earlier ones done again");
        if again != r { return Err(format!("{}; the text is {t:?}", differ(k, "after other texts", &r, &again))) }
    }
    let (k, t) = list.pop().unwrap();
    if t.len() < 4000 {
        let r = op(k, &t);
        STATE.with(|st| { let mut st = st.borrow_mut(); if st.past.len() < 400 { st.past.push((k, t, r)) } else { let i = s.below(400); st.past[i] = (k, t, r) } });
    }
    Ok(())
}
/// What is known of earlier texts, above all of those which are refused, must not show.
const PROBES: &[(Lang, &str)] = &[
    (Lang::Js, "var a = `b ${ `c ${ `d ${ e } f` } g` } h`; // x\n/* y */ /*! z */ a = /[/'\"`]/g . test ( a ) ? 'abcdef' : \"abcdef\" ; a = a / 2 + 'abcdef' ;"),
    (Lang::Js, "'a' ;"), (Lang::Js, "`${`"), (Lang::Js, "/* "), (Lang::Js, "(/ a /)"), (Lang::Js, ") / a / 1"),
    (Lang::Css, "@media ( a ) { a [ b = ' c ' ] > d , e : f ( g + h ) { i : calc( 1 + 2 ) ; j : url( k ) } } /* l */ /*! m */ n { }"),
    (Lang::Css, "a { b : c ! important }"), (Lang::Css, "a :hover"),
    (Lang::Json, "{ \"a b\" : [ 1 , \"c \\\" d\" ] }"), (Lang::Json, " x \" y "),
    (Lang::Html, "<html> <body> <p a = \"b\" >  c  </p> <!-- d --> <script> e = ' f ' ; </script> <pre>  g  </pre> </body> </html>"), (Lang::Html, " a  b "),
];
const POISON: &[(Lang, &str, usize)] = &[
    (Lang::Js, "`${", 5000), (Lang::Js, "`${`${", 1), (Lang::Js, "{`${'", 1), (Lang::Js, "'", 1), (Lang::Js, "/*", 1), (Lang::Js, "/*!", 1), (Lang::Js, "(", 3000), (Lang::Js, "{", 3000), (Lang::Js, "[", 3000), (Lang::Js, ")", 3000), (Lang::Js, "}", 3000), (Lang::Js, "/a", 1), (Lang::Js, "/[", 1), (Lang::Js, "var R=['abcdef'];'abcdef';'abcdef'", 1), (Lang::Js, "'\\", 1), (Lang::Js, "a", 10_000), (Lang::Js, "'abcdef';", 1000),
    (Lang::Css, "{", 3000), (Lang::Css, "[", 3000), (Lang::Css, "(", 3000), (Lang::Css, "}", 3000), (Lang::Css, "/*", 1), (Lang::Css, "/*!", 1), (Lang::Css, "'", 1), (Lang::Css, "calc(", 1000), (Lang::Css, "url(", 1000), (Lang::Css, "\\", 1), (Lang::Css, "@media ", 100), (Lang::Css, "a", 10_000),
    (Lang::Json, "[", 3000), (Lang::Json, "\"", 1), (Lang::Json, "\"\\", 1), (Lang::Json, "a", 10_000),
    (Lang::Html, "<pre>", 1), (Lang::Html, "<script>", 1), (Lang::Html, "<!--", 1), (Lang::Html, "<div>", 200), (Lang::Html, "<style>{", 1), (Lang::Html, "<a b=\"", 1),
];
fn after_errors(cx: &mut Ctx) -> Res {
    let ops = |l: Lang| -> &'static [usize] { match l { Lang::Js => &[0, 4, 5, 6, 7], Lang::Css => &[1], Lang::Json => &[2, 8], Lang::Html => &[3] } };
    let probes: Vec<(usize, String)> = PROBES.iter().flat_map(|(l, t)| ops(*l).iter().map(|k| (*k, t.to_string()))).collect();
    let want: Vec<Vec<u8>> = probes.iter().map(|(k, t)| op(*k, t)).collect();
    for ((k, t), w) in probes.iter().zip(&want) { if let Some(o) = elsewhere(*k, t) { if o != *w { return Err(differ(*k, "in a process that has done nothing else", w, &o)) } } }
    for (l, u, n) in POISON {
        let p = u.repeat(*n);
        cx.announce_fixed(format!("texts after {u:?} * {n}"));
        for _ in 0..if *n > 1 { 3 } else if *l == Lang::Html { 40 } else { 1500 } { for k in ops(*l) { op(*k, &p); cx.ev("texts in between") } }
        for ((k, t), w) in probes.iter().zip(&want) {
            let o = op(*k, t);
            cx.ev("repeated");
            if o != *w { return Err(format!("{} (of {t:?})", differ(*k, &format!("after {u:?} * {n}"), w, &o))) }
        }
    }
    Ok(())
}
pub fn fixed_c24() -> Vec<Fixed> {
    let many = |n: usize| (0..n).map(|i| format!("p('text number {i}','text number {i}','another text {}');", i % 7)).collect::<String>();
    vec![("after errors", Box::new(after_errors) as Box<dyn Fn(&mut Ctx) -> Res>), ("many strings", Box::new(move |cx: &mut Ctx| {
        let t = many(60);
        cx.announce_fixed(t.clone());
        let list: Vec<_> = [4, 5, 6, 7, 0].iter().map(|k| (*k, t.clone())).collect();
        for _ in 0..5 { check_c24(cx, &list, true, true)? }
        Ok(())
    })), ("two equal lengths", Box::new(move |cx: &mut Ctx| {
        let list: Vec<(usize, String)> = (0..OPS).flat_map(|k| ["a('abcdef','abcdef') ", "b('ghijkl','ghijkl') "].map(|t| (k, t.to_string()))).collect();
        cx.announce_fixed(format!("{list:?}"));
        check_c24(cx, &list, true, true)
    }))]
}
