//! JSON properties C03-C06.
use crate::eng::*;
use crate::src::Src;
use std::io::{self, ErrorKind, Read};

// ---- generator -------------------------------------------------------------------------

const CHARS: &[char] = &['a', ' ', '/', '*', '{', '}', '[', ']', ':', ',', '\'', 'n', 'u', '0', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}',
    'é', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}',
    '😀', '\u{10ffff}', '\u{10000}', '\u{7ff}', '\u{800}', '<', '=', '+', '-', 'Z', '\u{1f}', '"', '\\'];

pub fn any_char(s: &mut Src) -> char {
    match s.below(4) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => s.pick(CHARS),
        2 => char::from_u32(s.below(0x180) as u32).unwrap_or('x'),
        _ => { let v = s.below(0x11_0000) as u32; char::from_u32(v).unwrap_or('\u{fffd}') }
    }
}
fn push_str_char(o: &mut String, c: char) {
    match c {
        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04X}", c as u32)),
        c => o.push(c),
    }
}
fn gen_string(s: &mut Src) -> String {
    let mut o = String::from("\"");
    let n = s.size(4, 40);
    for _ in 0..n {
        match s.below(10) {
            0 | 1 => push_str_char(&mut o, any_char(s)),
            2 => { let k = 1 + s.below(3); for _ in 0..k { o.push(' ') } }
            3 => o.push_str("\\\""),
            4 => { let k = 1 + s.below(4); for _ in 0..k { o.push_str("\\\\") } }
            5 => o.push_str(s.pick(&["\\/", "\\b", "\\f", "\\n", "\\r", "\\t"])),
            6 => { let v = s.below(0x10000); if s.chance(1, 2) { o.push_str(&format!("\\u{v:04x}")) } else { o.push_str(&format!("\\u{v:04X}")) } }
            7 => { let w = s.word(); for c in w.chars() { push_str_char(&mut o, c) } }
            8 => o.push_str(s.pick(&["\\u0022", "\\u005c", "\\u0020", "\\\\\\\"", "// ", "/* */", "\\\\ ", "\\\" "])),
            _ => { let k = s.hot(600 * s.scale); let c = any_char(s); for _ in 0..k { push_str_char(&mut o, c) } }
        }
        if o.len() > 40_000 * s.scale { break }
    }
    o.push('"');
    o
}
fn gen_num(s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(1, 4) { o.push('-') }
    if s.chance(1, 4) { o.push('0') } else {
        o.push((b'1' + s.below(9) as u8) as char);
        for _ in 0..s.size(3, 400) { o.push((b'0' + s.below(10) as u8) as char) }
    }
    if s.chance(1, 3) { o.push('.'); for _ in 0..=s.size(3, 60) { o.push((b'0' + s.below(10) as u8) as char) } }
    if s.chance(1, 4) { o.push(s.pick(&['e', 'E'])); o.push_str(s.pick(&["", "+", "-"])); for _ in 0..=s.below(3) { o.push((b'0' + s.below(10) as u8) as char) } }
    o
}
fn gen_value(s: &mut Src, out: &mut Vec<String>, depth: usize) {
    let k = if depth > 12 || out.len() > 3000 * s.scale { s.below(5) } else { s.below(9) };
    match k {
        0 => out.push(s.pick(&["null", "true", "false"]).into()),
        1 | 2 => out.push(gen_string(s)),
        3 | 4 => out.push(gen_num(s)),
        5 | 6 => {
            out.push("[".into());
            let n = s.size(4, 60 * s.scale);
            for i in 0..n { if i > 0 { out.push(",".into()) } gen_value(s, out, depth + 1) }
            out.push("]".into());
        }
        7 => {
            out.push("{".into());
            let n = s.size(4, 60 * s.scale);
            for i in 0..n {
                if i > 0 { out.push(",".into()) }
                out.push(gen_string(s)); out.push(":".into());
                gen_value(s, out, depth + 1)
            }
            out.push("}".into());
        }
        _ => {
            // a tall tower of containers
            let n = if s.chance(1, 8) { s.hot(2000 * s.scale) } else { s.below(12) };
            let obj = s.chance(1, 2);
            for _ in 0..n { if obj { out.push("{".into()); out.push("\" \"".into()); out.push(":".into()) } else { out.push("[".into()) } }
            gen_value(s, out, 13);
            for _ in 0..n { out.push(if obj { "}" } else { "]" }.into()) }
        }
    }
}
fn ws(s: &mut Src, o: &mut String, style: usize) {
    let n = match style { 0 => 0, 1 => s.below(2), 2 => s.below(4), _ => s.size(2, 300) };
    for _ in 0..n { o.push(s.pick(&[' ', '\n', '\t', '\r'])) }
}
pub struct Doc { pub toks: Vec<String>, pub text: String }
/// A real document.
pub fn of(text: String) -> Option<Doc> { let toks = lex(&text)?.into_iter().map(String::from).collect(); Some(Doc { toks, text }) }
pub fn gen_doc(s: &mut Src) -> Doc {
    if s.chance(1, 64) { s.scale *= 4 }
    if s.chance(1, 150) {
        if let Some(d) = crate::real::text(s, "json").and_then(of) { return d }
    }
    let mut toks = vec![];
    gen_value(s, &mut toks, 0);
    let style = s.below(4);
    let mut text = String::new();
    ws(s, &mut text, style);
    for t in &toks { text.push_str(t); ws(s, &mut text, style) }
    Doc { toks, text }
}

// ---- reference lexer -------------------------------------------------------------------

/// Tokens of a JSON text (structure is not checked), or None where the text is no token list.
pub fn lex(t: &str) -> Option<Vec<&str>> {
    let b = t.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' | b'\t' | b'\r' | b'\n' => { i += 1; continue }
            b'{' | b'}' | b'[' | b']' | b':' | b',' => i += 1,
            b'"' => {
                i += 1;
                loop {
                    match b.get(i)? { b'"' => { i += 1; break } b'\\' => i += 2, 0..=31 => return None, _ => i += 1 }
                }
                if i > b.len() { return None }
            }
            c if c.is_ascii_alphanumeric() || c == b'-' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'-' | b'+' | b'.')) { i += 1 }
            }
            _ => return None,
        }
        v.push(t.get(st..i)?);
    }
    Some(v)
}
fn show(s: &str) -> String { format!("{:?}", s.chars().take(500).collect::<String>()) }

// ---- C03, C04 --------------------------------------------------------------------------

pub fn check_c03(cx: &mut Ctx, d: &Doc) -> Res {
    let out = cx.guard("minify", || sutapi::json(&d.text))?;
    let got = lex(&out).ok_or_else(|| format!("the output is not a JSON token list: {}", show(&out)))?;
    cx.evn("tokens compared", d.toks.len() as u64);
    for (i, (a, b)) in d.toks.iter().zip(&got).enumerate() {
        if a != b { return Err(format!("token {i}: {} became {}", show(a), show(b))) }
    }
    if got.len() != d.toks.len() { return Err(format!("{} tokens became {}", d.toks.len(), got.len())) }
    Ok(())
}
fn stat(cx: &mut Ctx, d: &Doc) {
    let st = d.toks.iter().filter(|t| t.starts_with('"')).count();
    cx.evn("strings", st as u64);
    cx.evn("strings with escapes", d.toks.iter().filter(|t| t.starts_with('"') && t.contains('\\')).count() as u64);
    cx.nontrivial = st > 0 && d.toks.len() > 1;
}
pub fn c03(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = gen_doc(s);
    cx.announce(s, d.text.clone());
    stat(cx, &d);
    check_c03(cx, &d)
}
pub fn check_c04(cx: &mut Ctx, d: &Doc) -> Res {
    let t = &d.text;
    let out = cx.guard("minify", || sutapi::json(t))?;
    if let Some(g) = lex(&out) {
        let n: usize = g.iter().map(|x| x.len()).sum();
        if n != out.len() { return Err(format!("whitespace outside strings is left: {}", show(&out))) }
    }
    if out.len() > t.len() { return Err(format!("output is longer than the input: {} > {}", out.len(), t.len())) }
    let again = cx.guard("minify again", || sutapi::json(&out))?;
    if again != out { return Err(format!("minifying again changes {} to {}", show(&out), show(&again))) }
    for (i, r) in cx.guard("render", || sutapi::json_render_many(t, 3))?.iter().enumerate() {
        if *r != out { return Err(format!("rendering {i} gives {} instead of {}", show(r), show(&out))) }
        cx.ev("renderings compared");
    }
    Ok(())
}
pub fn c04(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = gen_doc(s);
    cx.announce(s, d.text.clone());
    stat(cx, &d);
    check_c04(cx, &d)
}
fn doc(text: &str) -> Doc { Doc { toks: lex(text).expect("bad fixed case").into_iter().map(String::from).collect(), text: text.into() } }
const DOCS: &[(&str, &str)] = &[
    ("escaped quote at the end", r#"{"a": "x\"", "b": "c d", "e": 1 }"#),
    ("escaped backslash at the end", r#"{"a": "x\\", "b": "c d", "e": 1 }"#),
    ("quote after even backslashes", r#"["\\\\\" ", " \\\" \\", " a b " ]"#),
    ("DEL in a string", "[ \"a\u{7f}b\", \" \u{7f}\" ]"),
    ("unicode whitespace in strings", "[\"\u{a0} \u{2028}\u{3000}\", \"\u{feff} x\"]"),
    ("scalar", " 12 "), ("empty string", " \"\" "), ("u-escapes", r#"["\u0022 ", "\u005c " , 1]"#),
];
pub fn fixed_c03() -> Vec<Fixed> {
    DOCS.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(t.to_string()); check_c03(cx, &doc(t)) }) as _)).collect()
}
pub fn fixed_c04() -> Vec<Fixed> {
    DOCS.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(t.to_string()); check_c04(cx, &doc(t)) }) as _)).collect()
}

// ---- C05, C06: the streaming reader ----------------------------------------------------

#[derive(Clone, Debug)]
pub enum Step { Give(usize), Fail(ErrorKind) }
/// A source that follows a script: hand out at most n bytes, or fail once.
struct Scripted<'a> { data: &'a [u8], pos: usize, script: &'a [Step], at: usize, fails: std::rc::Rc<std::cell::Cell<usize>>, fail_at: &'a [(usize, ErrorKind)], failed: usize, reads: usize, lasting: bool }
impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads > 50_000_000 { panic!("the source is read without end") }
        if let Some((p, k)) = self.fail_at.get(self.failed) {
            if *p <= self.pos { if !self.lasting || self.failed + 1 < self.fail_at.len() { self.failed += 1 } self.fails.set(self.fails.get() + 1); return Err(io::Error::new(*k, "injected fault")) }
        }
        let st = self.script.get(self.at % self.script.len().max(1)).cloned().unwrap_or(Step::Give(usize::MAX));
        self.at += 1;
        match st {
            Step::Fail(k) => { self.fails.set(self.fails.get() + 1); Err(io::Error::from(k)) }
            Step::Give(n) => {
                let mut n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
                if let Some((p, _)) = self.fail_at.get(self.failed) { n = n.min(*p - self.pos) }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}
fn sizes(s: &mut Src) -> Vec<usize> {
    let n = 1 + s.below(4);
    let mut v: Vec<usize> = (0..n).map(|_| match s.below(5) { 0 => 1, 1 => 2 + s.below(3), 2 => 1 + s.below(16), 3 => 1 + s.hot(9000), _ => 4096 }).collect();
    // reading into nothing gives nothing and changes nothing
    for _ in 0..2 { if s.chance(1, 6) { let i = s.below(v.len() + 1); v.insert(i, 0) } }
    v
}
fn gen_text(s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 => gen_doc(s).text,
        2 => { let mut o = String::new(); for _ in 0..s.size(12, 300) { if s.chance(1, 5) { o.push_str(s.pick(&["\"", "\\", " ", "\n", "\\\"", "{", "\u{7f}", "\0"])) } else { o.push(any_char(s)) } } o }
        _ => { // long, so that several refills happen
            let unit = { let mut u = gen_string(s); if u.len() > 400 { u = "\"é\"".into() } u.push_str(s.pick(&[" ", ", ", "\n", "é", ""])); u };
            let n = s.hot(20_000 * s.scale) / unit.len().max(1);
            unit.repeat(n.max(1))
        }
    }
}
/// Reads to the end; `sizes` are the consumer's buffers. Returns delivered bytes and the first
/// error that is not Interrupted.
fn consume(r: &mut dyn Read, sizes: &[usize], limit: usize, cx_reads: &mut u64) -> Result<(Vec<u8>, Option<io::Error>), String> {
    let mut out = vec![];
    let mut i = 0;
    let mut buf = vec![0u8; *sizes.iter().max().unwrap()];
    loop {
        let k = sizes[i % sizes.len()];
        i += 1;
        *cx_reads += 1;
        for b in &mut buf[..] { *b = 0xAA }
        match r.read(&mut buf[..k]) {
            Ok(0) if k == 0 => {}
            Ok(0) => return Ok((out, None)),
            Ok(n) if n > k => return Err(format!("read into {k} bytes claims {n} bytes")),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return Ok((out, Some(e))),
        }
        if out.len() > limit { return Err(format!("more output ({} bytes) than input", out.len())) }
        if i > 40_000_000 { return Err("reading does not come to an end".into()) }
    }
}
/// The other ways there are to read: `k` plain reads, then everything at once, by bytes, ...
fn consume_by(r: &mut dyn Read, how: usize, sizes: &[usize], k: usize, limit: usize) -> Result<(Vec<u8>, Option<io::Error>), String> {
    let mut out = vec![];
    let mut buf = vec![0u8; *sizes.iter().max().unwrap()];
    let mut i = 0;
    let mut left = k;
    // a text may only be asked for where a character begins
    while left > 0 || (how == 2 && std::str::from_utf8(&out).is_err()) {
        let z = sizes[i % sizes.len()];
        i += 1;
        match r.read(&mut buf[..z]) { Ok(0) if z > 0 => break, Ok(n) => out.extend_from_slice(&buf[..n]), Err(e) if e.kind() == ErrorKind::Interrupted => {} Err(e) => return Ok((out, Some(e))) }
        left = left.saturating_sub(1);
        if i > 1_000_000 { return Err("reading does not come to an end".into()) }
    }
    let e = match how {
        1 => r.read_to_end(&mut out).err(),
        2 => { let mut t = String::from("x"); let e = r.read_to_string(&mut t).err(); out.extend_from_slice(t.as_bytes().get(1..).unwrap_or(b"?")); e }
        3 => { let mut e = None; for b in r.bytes() { match b { Ok(b) => out.push(b), Err(x) if x.kind() == ErrorKind::Interrupted => {} Err(x) => { e = Some(x); break } } if out.len() > limit { return Err("more output than input".into()) } } e }
        4 => io::copy(r, &mut out).err(),
        5 => { use io::BufRead; let mut b = io::BufReader::with_capacity(sizes[0].max(1), r); let mut e = None; loop { match b.read_until(b'"', &mut out) { Ok(0) => break, Ok(_) => {} Err(x) => { e = Some(x); break } } if out.len() > limit { return Err("more output than input".into()) } } e }
        6 => loop {
            let (a, rest) = buf.split_at_mut(sizes[0].min(sizes[sizes.len() - 1]));
            let (al, rl) = (a.len(), rest.len());
            let n = match r.read_vectored(&mut [io::IoSliceMut::new(&mut []), io::IoSliceMut::new(a), io::IoSliceMut::new(rest)]) { Ok(n) => n, Err(e) if e.kind() == ErrorKind::Interrupted => continue, Err(e) => break Some(e) };
            if n > al + rl { return Err(format!("read into {} bytes claims {n} bytes", al + rl)) }
            if n == 0 { if al + rl > 0 { let mut one = [0]; match r.read(&mut one) { Ok(0) => break None, Ok(_) => { out.push(one[0]); continue } Err(e) if e.kind() == ErrorKind::Interrupted => continue, Err(e) => break Some(e) } } buf.resize(1, 0); continue }
            out.extend_from_slice(&buf[..n]);
            if out.len() > limit { return Err("more output than input".into()) }
        },
        _ => { // exact pieces; the last one is cut short
            let z = sizes[0].max(1);
            let mut b = vec![0; z];
            loop {
                if out.len() + z > limit { break r.read_to_end(&mut out).err() }
                b.fill(0xff);
                match r.read_exact(&mut b) { Ok(()) => out.extend_from_slice(&b), Err(e) if e.kind() == ErrorKind::UnexpectedEof => { let n = b.iter().position(|x| *x == 0xff).unwrap_or(z); out.extend_from_slice(&b[..n]); break None } Err(e) => break Some(e) }
            }
        }
    };
    if out.len() > limit { return Err(format!("more output ({} bytes) than input", out.len())) }
    Ok((out, e))
}
const WAYS: &[&str] = &["read", "read_to_end", "read_to_string", "bytes", "copy", "BufReader", "read_vectored", "read_exact"];
fn bytes(b: &[u8]) -> String { show(&String::from_utf8_lossy(b)) }

pub fn check_c05(cx: &mut Ctx, text: &str, script: &[Step], sz: &[usize], how: usize, k: usize) -> Res {
    let want = cx.guard("string minify", || sutapi::json(text))?;
    let fails = std::rc::Rc::new(std::cell::Cell::new(0));
    let mut reads = 0;
    let f2 = fails.clone();
    let (got, tail) = cx.guard("reader", || {
        let src = Scripted { data: text.as_bytes(), pos: 0, script, at: 0, fails: f2, fail_at: &[], failed: 0, reads: 0, lasting: false };
        let mut r = sutapi::json_reader(Box::new(src));
        let got = if how == 0 { consume(&mut *r, sz, text.len(), &mut reads) } else { consume_by(&mut *r, how, sz, k, text.len()) };
        let mut b = [0u8; 8];
        let tail: Vec<_> = (0..2).map(|_| loop { match r.read(&mut b) { Err(e) if e.kind() == ErrorKind::Interrupted => continue, x => break x } }).collect();
        (got, tail)
    })?;
    cx.evn("consumer reads", reads);
    if how > 0 { cx.ev(&format!("read with {}", WAYS[how])) }
    cx.evn("interrupted source reads", fails.get() as u64);
    let (got, err) = got?;
    if let Some(e) = err { return Err(format!("unexpected error {e:?} after {} bytes", got.len())) }
    if got != want.as_bytes() {
        let at = got.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("stream differs at byte {at} ({} bytes instead of {}): {} instead of {}", got.len(), want.len(), bytes(&got[at.saturating_sub(20).min(got.len())..]), bytes(&want.as_bytes()[at.saturating_sub(20)..])));
    }
    for t in tail { if !matches!(t, Ok(0)) { return Err(format!("reading after the end gives {t:?}")) } }
    cx.evn("bytes compared", got.len() as u64);
    Ok(())
}
fn gen_script(s: &mut Src) -> Vec<Step> {
    let n = 1 + s.below(6);
    let mut v: Vec<Step> = (0..n).map(|_| if s.chance(1, 5) { Step::Fail(ErrorKind::Interrupted) } else { Step::Give(match s.below(4) { 0 => 1, 1 => 1 + s.below(8), 2 => s.hot(9000), _ => usize::MAX }) }).collect();
    if v.iter().all(|x| matches!(x, Step::Fail(_))) { v.push(Step::Give(1)) }
    v
}
pub fn c05(s: &mut Src, cx: &mut Ctx) -> Res {
    let text = gen_text(s);
    let script = gen_script(s);
    let sz = sizes(s);
    let (how, k) = if s.chance(1, 2) { (0, 0) } else { (1 + s.below(WAYS.len() - 1), s.size(2, 40)) };
    cx.announce(s, format!("{text}\u{1}script {script:?} buffers {sz:?} {} after {k} reads", WAYS[how]));
    cx.nontrivial = text.len() > 3;
    check_c05(cx, &text, &script, &sz, how, k)
}
pub fn fixed_c05() -> Vec<Fixed> {
    let g = |n: usize| Step::Give(n);
    let big = format!("[\"{}\", 1 ]", "é ".repeat(9000));
    let cases: Vec<(&'static str, String, Vec<Step>, Vec<usize>)> = vec![
        ("short reads", r#"{"a": 1, "b": [ 1, 2 ]}"#.into(), vec![g(3)], vec![64]),
        ("wide character in small buffer", "[\"é😀\"]".into(), vec![g(99)], vec![1]),
        ("wide character at buffer end", "[\"aé😀é\"]".into(), vec![g(99)], vec![3, 4, 2]),
        ("interrupted first read", "[1, 2]".into(), vec![Step::Fail(ErrorKind::Interrupted), g(2)], vec![8]),
        ("interrupted inside a character", "[\"é\"]".into(), vec![g(3), Step::Fail(ErrorKind::Interrupted), g(1)], vec![5]),
        ("exact multiple of the buffer", "[1,2,3,4]".into(), vec![g(9)], vec![3]),
        ("big", big, vec![g(4096), g(1)], vec![32, 8192]),
        ("empty", String::new(), vec![g(1)], vec![1]),
        ("first read into nothing", "[1, 2, \"é\"]".into(), vec![g(9)], vec![0, 8]),
        ("reads into nothing", "[1, 2, \"é😀\"]".into(), vec![g(1), Step::Fail(ErrorKind::Interrupted)], vec![1, 0, 0, 2]),
    ];
    cases.into_iter().map(|(n, t, sc, sz)| (n, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(format!("{t}\u{1}{sc:?} {sz:?}")); for how in 0..WAYS.len() { for k in [0, 1, 5] { check_c05(cx, &t, &sc, &sz, how, k).map_err(|e| format!("{} after {k} reads: {e}", WAYS[how]))? } } Ok(()) }) as _)).collect()
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::WouldBlock,
    ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::OutOfMemory, ErrorKind::WriteZero];
const BAD: &[&[u8]] = &[b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc2 ", b"\xc2\"", b"\xe0\x80\x80", b"\xe0\xa0", b"\xe2\x28\xa1", b"\xe2\x82", b"\xe2\x82 ",
    b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x90", b"\xf0\x9f\x98", b"\xf0\x9f\x98 ", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\xf8\x88\x80\x80\x80", b"\xc3\xc3\xa9", b"\xe2\xc3\xa9"];

/// The first error must be `want`, what precedes it a prefix of `correct`, and reading on must not panic.
pub fn check_c06(cx: &mut Ctx, data: &[u8], script: &[Step], faults: &[(usize, ErrorKind)], lasting: bool, sz: &[usize], how: usize, k: usize) -> Res {
    let valid = match std::str::from_utf8(data) { Ok(_) => data.len(), Err(e) => e.valid_up_to() };
    let first = faults.first().filter(|f| valid == data.len() || f.0 <= valid);
    // a fault inside or after the broken sequence may come first or second
    let ambiguous = valid < data.len() && faults.first().map_or(false, |f| f.0 > valid && f.0 < valid + 5);
    let want = match first { Some(f) => f.1, None if valid < data.len() => ErrorKind::InvalidData, None => return Ok(()) };
    let text = std::str::from_utf8(&data[..valid]).unwrap();
    let correct = cx.guard("string minify", || sutapi::json(text))?;
    let fails = std::rc::Rc::new(std::cell::Cell::new(0));
    let mut reads = 0;
    let f2 = fails.clone();
    // `io::copy` and `BufReader` keep to themselves what they have read before an error
    let recovers = !lasting && valid == data.len() && matches!(how, 0 | 1 | 3 | 6);
    let res = cx.guard("reader", || {
        let src = Scripted { data, pos: 0, script, at: 0, fails: f2, fail_at: faults, failed: 0, reads: 0, lasting };
        let mut r = sutapi::json_reader(Box::new(src));
        let x = if how == 0 { consume(&mut *r, sz, data.len(), &mut reads) } else { consume_by(&mut *r, how, sz, k, data.len()) };
        // a source which fails and works again: reading goes on to the end
        if recovers {
            let ((mut got, mut err), mut errs) = (x?, vec![]);
            while let Some(e) = err {
                errs.push(e.kind());
                if errs.len() > faults.len() { break }
                let (more, e) = if how == 0 { consume(&mut *r, sz, data.len(), &mut reads)? } else { consume_by(&mut *r, how, sz, k, data.len())? };
                got.extend(more);
                err = e;
            }
            return Ok(Err((got, errs)));
        }
        // reading goes on after the error
        let mut b = vec![0u8; sz.iter().copied().find(|k| *k > 0).unwrap()];
        let after: Vec<_> = (0..20).map(|_| r.read(&mut b).map_err(|e| e.kind())).collect();
        x.map(|x| Ok((x, after)))
    })?;
    let ((got, err), after) = match res? {
        Ok(x) => x,
        Err((got, errs)) => {
            let want: Vec<ErrorKind> = faults.iter().map(|f| f.1).collect();
            cx.evn("source faults delivered", fails.get() as u64);
            if errs != want { return Err(format!("the source failed with {want:?} and went on each time, the consumer saw {errs:?} and {} bytes", got.len())) }
            if got != correct.as_bytes() {
                let at = got.iter().zip(correct.as_bytes()).take_while(|(a, b)| a == b).count();
                return Err(format!("the source went on after {want:?}, but the output differs at byte {at}: {} instead of {}", bytes(&got[at.saturating_sub(20).min(got.len())..]), bytes(&correct.as_bytes()[at.saturating_sub(20)..])));
            }
            cx.ev("sources read to the end in spite of faults");
            cx.evn("bytes delivered in spite of faults", got.len() as u64);
            return Ok(());
        }
    };
    cx.evn("consumer reads", reads);
    if how > 0 { cx.ev(&format!("read with {}", WAYS[how])) }
    cx.evn("source faults delivered", fails.get() as u64);
    match err {
        None => return Err(format!("normal end of data after {} bytes, although the source {}", got.len(), if first.is_some() { "failed" } else { "is not valid UTF-8" })),
        Some(e) if e.kind() == want || ambiguous => { cx.ev(&format!("error kind {:?}", e.kind())); }
        Some(e) => return Err(format!("error {:?} instead of {want:?}", e.kind())),
    }
    if !correct.as_bytes().starts_with(&got) { return Err(format!("delivered {} which is no prefix of {}", bytes(&got), show(&correct))) }
    cx.evn("bytes delivered before the error", got.len() as u64);
    // a source which goes on failing is never taken for one which has ended
    if lasting && valid == data.len() {
        let last = faults.last().unwrap().1;
        for (i, r) in after.iter().enumerate() {
            if *r != Err(last) && !(i + 1 < faults.len() && *r == Err(faults[i + 1].1)) { return Err(format!("read {} after the error gives {r:?}, although the source still fails with {last:?}", i + 1)) }
        }
        cx.evn("errors repeated", after.len() as u64);
    }
    Ok(())
}
pub fn c06(s: &mut Src, cx: &mut Ctx) -> Res {
    let text = gen_text(s);
    let mut data = text.into_bytes();
    let mut faults = vec![];
    let bad = s.chance(1, 2);
    if bad {
        // at a character boundary, or a plain truncation
        let t = std::str::from_utf8(&data).unwrap();
        let mut at = match s.below(3) { 0 => s.below(data.len() + 1), 1 => data.len(), _ => s.hot(data.len()) };
        while !t.is_char_boundary(at) { at -= 1 }
        if s.chance(1, 4) && data.iter().any(|b| *b >= 0x80) {
            let wide: Vec<usize> = (0..data.len()).filter(|i| data[*i] >= 0xc0).collect();
            let i = wide[s.below(wide.len())];
            let w = if data[i] >= 0xf0 { 4 } else if data[i] >= 0xe0 { 3 } else { 2 };
            data.truncate(i + 1 + s.below(w - 1));
        } else {
            // a byte which starts no character, one which goes on from nothing, or a broken sequence
            let b = if s.chance(1, 3) { vec![0x80 + s.below(128) as u8] } else { s.pick(BAD).to_vec() };
            data.splice(at..at, b);
        }
    }
    if !bad || s.chance(1, 6) {
        let at = match s.below(4) { 0 => 0, 1 => data.len(), 2 => s.below(data.len() + 1), _ => s.hot(data.len()) };
        faults.push((at, s.pick(KINDS)));
        if s.chance(1, 3) { faults.push((at, s.pick(KINDS))) }
        let mut at = at;
        let n = if s.chance(1, 2) { 0 } else { 40 };
        while s.chance(1, 2) && faults.len() < n { at = (at + s.below(4) + if s.chance(1, 4) { s.below(data.len() + 1) } else { 0 }).min(data.len()); faults.push((at, s.pick(KINDS))) }
    }
    let lasting = faults.first().is_some_and(|f| faults.iter().all(|g| g.0 == f.0)) && s.chance(1, 2);
    let script = gen_script(s);
    let sz = sizes(s);
    let (how, k) = if s.chance(2, 3) { (0, 0) } else { (1 + s.below(6), s.size(2, 40)) };
    cx.announce(s, format!("{:?}\u{1}script {script:?} faults {faults:?} lasting {lasting} buffers {sz:?} {} after {k} reads", data.escape_ascii().to_string(), WAYS[how]));
    cx.nontrivial = true;
    check_c06(cx, &data, &script, &faults, lasting, &sz, how, k)
}
pub fn fixed_c06() -> Vec<Fixed> {
    let g = |n: usize| Step::Give(n);
    let cases: Vec<(&'static str, &'static [u8], Vec<Step>, Vec<(usize, ErrorKind)>, Vec<usize>)> = vec![
        ("fault on the first read", b"[1]", vec![g(9)], vec![(0, ErrorKind::NotFound)], vec![8]),
        ("two faults on the first reads", b"[1]", vec![g(9)], vec![(0, ErrorKind::NotFound), (0, ErrorKind::Other)], vec![8]),
        ("fault in the middle", b"[1, 2, 3]", vec![g(2)], vec![(4, ErrorKind::PermissionDenied)], vec![64]),
        ("fault at the end", b"[1, 2, 3]", vec![g(2)], vec![(9, ErrorKind::BrokenPipe)], vec![4]),
        ("truncated character", b"[\"\xf0\x9f\x98", vec![g(9)], vec![], vec![64]),
        ("reads into nothing", b"[1, 2, 3]", vec![g(2)], vec![(4, ErrorKind::PermissionDenied)], vec![0, 3, 0]),
        ("truncated character, small buffer", b"[\"\xc3", vec![g(9)], vec![], vec![1]),
        ("surrogate", b"[\"\xed\xa0\x80\"]", vec![g(9)], vec![], vec![3]),
    ];
    let every: Fixed = ("each byte which cannot stand there", Box::new(move |cx: &mut Ctx| {
        cx.announce_fixed("each byte which cannot stand there".into());
        for lead in [&b""[..], b"\xc3", b"\xe2\x82", b"\xe0", b"\xf0\x9f\x98", b"\xf4", b"\xed"] {
            for b in 0..=255u8 {
                let d = [b"[\"x", lead, &[b], b"y\", 1 ]"].concat();
                if std::str::from_utf8(&d).is_ok() { continue }
                for sz in [1, 3, 64] { check_c06(cx, &d, &[Step::Give(4)], &[], false, &[sz], 0, 0).map_err(|e| format!("{}: {e}", d.escape_ascii()))? }
            }
        }
        Ok(())
    }) as _);
    std::iter::once(every).chain(cases.into_iter().map(|(n, d, sc, f, sz)| (n, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(format!("{} {sc:?} {f:?} {sz:?}", d.escape_ascii())); for lasting in [false, true] { for how in 0..7 { for k in [0, 2] { check_c06(cx, d, &sc, &f, lasting && !f.is_empty(), &sz, how, k).map_err(|e| format!("{} after {k} reads: {e}", WAYS[how]))? } } } Ok(()) }) as _))).collect()
}
