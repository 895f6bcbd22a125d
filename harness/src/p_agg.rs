//! String aggregation, C11 (variables) and C12 (array).
use crate::eng::*;
use crate::jsgen::*;
use crate::p_js::*;
use crate::src::Src;
use minifier::js::{ReservedChar, Token, Tokens};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order { AggClean, CleanAgg, Agg }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sep { None, Line, Semi, Lic }
impl Sep {
    fn token<'a>(self) -> Option<Token<'a>> {
        match self { Sep::None => None, Sep::Line => Some(Token::Char(ReservedChar::Backline)), Sep::Semi => Some(Token::Char(ReservedChar::SemiColon)), Sep::Lic => Some(Token::License(" sep")) }
    }
    fn text(self, o: Order, declared: bool) -> &'static str {
        match self {
            Sep::None => "",
            Sep::Line if o == Order::AggClean => "",
            Sep::Line => "\n",
            Sep::Semi if o == Order::AggClean && !declared => "",
            Sep::Semi => ";",
            Sep::Lic => "/*! sep*/",
        }
    }
}
const ORDERS: &[Order] = &[Order::AggClean, Order::CleanAgg, Order::AggClean, Order::CleanAgg, Order::Agg];

fn transform<'a>(t: Tokens<'a>, o: Order, f: &dyn Fn(Tokens<'a>) -> Tokens<'a>) -> Tokens<'a> {
    match o {
        Order::AggClean => sutapi::clean(f(t)),
        Order::CleanAgg => f(sutapi::clean(t)),
        Order::Agg => f(t),
    }
}

/// Length of the string literal at the start of `t`.
fn str_len(t: &str) -> Option<usize> {
    let q = t.chars().next().filter(|c| matches!(c, '"' | '\''))?;
    let mut it = t.char_indices().skip(1);
    while let Some((i, c)) = it.next() {
        if c == '\\' { it.next(); } else if c == q { return Some(i + 1) }
    }
    None
}
fn name_len(t: &str) -> usize { t.char_indices().find(|(_, c)| !is_id(*c)).map_or(t.len(), |x| x.0) }
/// The value of a string literal, in UTF-16.
pub fn value(lit: &str) -> Vec<u16> {
    let mut o = vec![];
    let mut it = lit[1..lit.len() - 1].chars().peekable();
    let put = |o: &mut Vec<u16>, c: u32| match char::from_u32(c) { Some(c) => o.extend_from_slice(c.encode_utf16(&mut [0; 2])), None => o.push(c as u16) };
    while let Some(c) = it.next() {
        if c != '\\' { put(&mut o, c as u32); continue }
        let hex = |it: &mut std::iter::Peekable<std::str::Chars>, n: usize| { let mut v = 0; for _ in 0..n { v = v * 16 + it.next().and_then(|c| c.to_digit(16)).unwrap_or(0) } v };
        match it.next() {
            Some('n') => o.push(10), Some('t') => o.push(9), Some('b') => o.push(8), Some('v') => o.push(11), Some('f') => o.push(12), Some('r') => o.push(13),
            Some('0') => o.push(0),
            Some('x') => { let v = hex(&mut it, 2); put(&mut o, v) }
            Some('u') if it.peek() == Some(&'{') => { it.next(); let mut v = 0; while let Some(c) = it.next() { match c.to_digit(16) { Some(d) => v = v * 16 + d, None => break } } put(&mut o, v) }
            Some('u') => { let v = hex(&mut it, 4); put(&mut o, v) }
            Some('\r') => { if it.peek() == Some(&'\n') { it.next(); } }
            Some('\n' | '\u{2028}' | '\u{2029}') | None => {}
            Some(c) => put(&mut o, c as u32),
        }
    }
    o
}

/// Every identifier of the program, wherever it stands.
fn words(p: &Program) -> HashSet<String> {
    let mut h = HashSet::new();
    for l in &p.lx {
        if matches!(l.k, K::Word | K::Tmpl) { for w in l.t.split(|c: char| !is_id(c)) { h.insert(w.to_string()); } }
    }
    h
}
/// Top-level variables whose whole initial value is a string literal: name -> (index of the literal, text).
fn holders(p: &Program) -> HashMap<String, (usize, String)> {
    let mut h = HashMap::new();
    let (mut depth, mut decl) = (0, false);
    let lx: Vec<(usize, &Lex)> = p.lx.iter().enumerate().filter(|x| x.1.k != K::Lic).collect();
    for (j, (_, l)) in lx.iter().enumerate() {
        match l.t.as_str() { "(" | "[" | "{" if l.k == K::Punct => depth += 1, ")" | "]" | "}" if l.k == K::Punct => depth -= 1, _ => {} }
        if depth != 0 { continue }
        if l.k == K::Word && matches!(l.t.as_str(), "var" | "let" | "const") { decl = true }
        if l.t == ";" { decl = false }
        let at = |k: usize| lx.get(j + k).map(|x| x.1.t.as_str());
        if decl && (l.t == "," || matches!(l.t.as_str(), "var" | "let" | "const")) && at(2) == Some("=") && matches!(at(4), Some("," | ";")) && lx[j + 3].1.k == K::Str {
            h.entry(lx[j + 1].1.t.clone()).or_insert((lx[j + 3].0, lx[j + 3].1.t.clone()));
        }
    }
    // one which is assigned to later holds nothing for sure
    let w: Vec<&Lex> = lx.iter().map(|x| x.1).collect();
    for j in 1..w.len().saturating_sub(1) {
        if w[j].k != K::Word || matches!(w[j - 1].t.as_str(), "." | "?." | "," | "var" | "let" | "const") && w[j + 1].t == "=" { continue }
        if w[j + 1].k == K::Punct && (ASSIGNOPS.contains(&w[j + 1].t.as_str()) || matches!(w[j + 1].t.as_str(), "++" | "--")) || matches!(w[j - 1].t.as_str(), "++" | "--") { h.remove(&w[j].t); }
    }
    h
}
fn word(t: &str) -> Lex { Lex { k: K::Word, t: t.into(), nonl: false, comment_before: false, gap_before: false, name: false, at: 0 } }

/// How many tokens the directives at the start of the program have.
fn prologue_len(p: &Program) -> usize {
    let mut n = 0;
    let mut s = false;
    for (i, l) in p.lx.iter().enumerate() {
        match l.k { K::Lic => {} K::Str if !s => s = true, K::Punct if s && l.t == ";" => { s = false; n = i + 1 } _ => break }
    }
    n
}
/// Reads the directives off the output and returns the rest.
fn after_prologue<'a>(p: &Program, pe: usize, out: &'a str) -> Result<&'a str, String> {
    if pe == 0 { return Ok(out) }
    match read_off_with(&p.lx[..pe], out, &mut |_, _| Ok(None)) {
        Ok(g) => Ok(&out[out.len() - g.last().map_or(0, |g| g.len())..]),
        Err(m) if m.i == pe => Ok(&out[m.pos..]),
        Err(m) => Err(format!("directive token {}: {}", m.i, m.why)),
    }
}

// ---- C11 -------------------------------------------------------------------------------

pub fn check_c11(cx: &mut Ctx, p: &Program, o: Order, sep: Sep, exec: bool) -> Res {
    let out = cx.guard("aggregate_strings", || -> Result<String, &'static str> {
        let t = sutapi::js_tokens(&p.text)?;
        Ok(transform(t, o, &|t| match sep.token() { Some(s) => sutapi::agg_sep(t, s), None => sutapi::agg(t) }).to_string())
    })?.map_err(|e| format!("a valid program is rejected: {e}"))?;
    let used = words(p);
    let old = holders(p);
    let mut new: HashMap<String, String> = HashMap::new();
    let pe = prologue_len(p);
    let mut rest = after_prologue(p, pe, &out)?;
    if pe > 0 { cx.ev("programs with directives") }
    if let Some(d) = rest.strip_prefix("var ") {
        let n = &d[..name_len(d)];
        if !n.is_empty() && !used.contains(n) {
            let mut d = d;
            loop {
                let n = &d[..name_len(d)];
                if n.is_empty() || used.contains(n) || new.contains_key(n) || n.starts_with(|c: char| c.is_ascii_digit()) || KEYWORDS.contains(&n) { return Err(format!("declares {} which is no fresh name", show(n, 60))) }
                let e = d[n.len()..].strip_prefix('=').ok_or(format!("no value for the declared {n}: {}", show(d, 60)))?;
                let Some(k) = str_len(e) else { return Err(format!("the value of the declared {n} is no string: {}", show(e, 60))) };
                new.insert(n.into(), e[..k].into());
                d = &e[k..];
                if let Some(x) = d.strip_prefix(',') { d = x; continue }
                rest = d.strip_prefix(';').ok_or(format!("the declaration doesn't end: {}", show(d, 60)))?;
                break;
            }
        }
    }
    let st = sep.text(o, !new.is_empty() || pe > 0);
    rest = rest.strip_prefix(st).ok_or(format!("the separator {} is missing, found {}", show(st, 20), show(rest, 60)))?;
    let (mut replaced, mut reused) = (0, 0);
    let mut seen: HashSet<String> = HashSet::new();
    read_off_with(&p.lx[pe..], rest, &mut |i, rest| {
        let i = i + pe;
        let l = &p.lx[i];
        if l.k != K::Str || rest.starts_with(['"', '\'']) { return Ok(None) }
        if l.name { return Err(format!("{} is no expression but became {}", show(&l.t, 100), show(rest, 30))) }
        let n = &rest[..name_len(rest)];
        if let Some(v) = new.get(n) {
            if *v != l.t { return Err(format!("{} became {n} which holds {}", show(&l.t, 100), show(v, 100))) }
            replaced += 1;
            seen.insert(n.into());
        } else if let Some((at, v)) = old.get(n) {
            if *v != l.t { return Err(format!("{} became {n} which holds {}", show(&l.t, 100), show(v, 100))) }
            if *at >= i { return Err(format!("{} became {n} which gets its value later", show(&l.t, 100))) }
            reused += 1;
        } else if n.is_empty() { return Ok(None) } else { return Err(format!("{} became {} which is no variable holding it", show(&l.t, 100), show(n, 60))) }
        Ok(Some(Sub::Instead(word(n))))
    }).map_err(|m| format!("after the declarations, token {}: {}", m.i + pe, m.why))?;
    cx.evn("strings replaced by a new variable", replaced);
    cx.evn("strings replaced by an existing variable", reused);
    cx.evn("variables declared", new.len() as u64);
    if new.len() > 26 { cx.ev("outputs with more than 26 variables") }
    if new.len() > 62 * 62 { cx.ev("outputs with more than 3844 variables") }
    cx.nontrivial = replaced + reused > 0;
    if exec { execute(cx, &p.text, &out, p.module)? }
    Ok(())
}

/// Literals to be used again and again: alike, equal in value, or one inside of the other.
fn pool(s: &mut Src) -> Vec<String> {
    let mut g = G::new(s, Opts::default());
    let mut v: Vec<String> = vec![];
    let n = 1 + g.s.below(5);
    for _ in 0..n {
        let t = match g.s.below(7) {
            0 if !v.is_empty() => { // the other quotes
                let o = v[g.s.below(v.len())].clone();
                let (q, r) = if o.starts_with('"') { ('"', '\'') } else { ('\'', '"') };
                let b = &o[1..o.len() - 1];
                if b.contains(r) || b.contains(q) { continue }
                format!("{r}{b}{r}")
            }
            1 if !v.is_empty() => { let o = v[g.s.below(v.len())].clone(); let q = &o[..1]; format!("{}{}{q}", &o[..o.len() - 1], g.s.pick(&["x", "\\n", " ", "é"])) }
            2 => { let w: String = g.s.word().chars().filter(|c| !matches!(c, '"' | '\'' | '\\' | '\n' | '\r')).collect(); let q = g.s.pick(&['"', '\'']); format!("{q}{w}{q}") }
            3 => g.s.pick(&["'a \"quoted\" text'", "\"it's\"", "'it\\'s a text'", "\"say \\\"x\\\"\"", "'r_aa'", "\"var r_aa=\\\"x\\\";\"", "'R[0]'", "\"\\\\\"", "'a\\\nb'", "\"use strict\"", "'\\'\\''", "'\"'", "\"],[\"", "',\"'", "''", "\"//\"", "'\\u{1F600}é'"]).into(),
            4 => { let k = 1 + g.s.below(40); let q = g.s.pick(&['"', '\'']); format!("{q}{}{q}", g.s.pick(&["a", "ab", "é", " ", "\\\\", "\\n", "\\'", "\\\"", "x y"]).repeat(k)) }
            _ => g.str_lit(),
        };
        v.push(t);
    }
    if v.is_empty() { v.push("'abcdef'".into()) }
    v
}
/// Many different strings, each of them several times.
fn flat(g: &mut G) {
    let n = if g.s.chance(1, 60) { 4000 } else { g.s.hot(160 * g.s.scale.min(8)) };
    let len = 1 + g.s.below(16);
    let two = g.s.chance(1, 3);
    for i in 0..n {
        let q = if g.s.chance(1, 3) { '\'' } else { '"' };
        let t = format!("{q}{}{i}{q}", "s".repeat(len));
        let k = if two { 2 } else { 1 + g.s.below(4) };
        g.w("p"); g.p("(");
        for j in 0..k { if j > 0 { g.p(",") } g.push(K::Str, t.clone()) }
        g.p(")"); g.p(";");
    }
}
pub fn opts(s: &mut Src) -> Opts {
    Opts { str_anywhere: false, pool: pool(s), comments: true, lit_weight: 1 + s.below(6), r_names: true, ..Opts::default() }
}
pub fn c11(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut o = opts(s);
    o.str_anywhere = true;
    let order = s.pick(ORDERS);
    let sep = s.pick(&[Sep::None, Sep::None, Sep::Line, Sep::Semi, Sep::Lic]);
    if order == Order::Agg { o.comments = false }
    if s.chance(1, 3) { o.free = ["r_aa", "r_ba", "r_ca", "r_da", "r_Ab"].iter().filter(|_| s.chance(1, 2)).map(|x| x.to_string()).collect() }
    let exec = s.chance(1, 10);
    let big = s.chance(1, 40);
    let vars = s.chance(1, 2);
    let pool = o.pool.clone();
    let mut left = vec!["r_v", "r_aaa", "r_zz", "xr_v", "r_ab1"];
    if !o.free.contains(&"r_ca".to_string()) { left.insert(0, "r_ca") }
    // variables which are no concern of the aggregation, assigned to now and then
    let mut plain = vec!["rest", "r", "R_v", "x9", "ra"];
    let early = s.chance(1, 10);
    o.banned = left.iter().chain(&plain).map(|x| x.to_string()).collect();
    o.banned.push("hf".into());
    let mut live: Vec<&str> = vec![];
    let mut hf = false;
    let p = program_with(s, o, |g, i| {
        if big && i == 0 { flat(g) }
        // a function which is called before the variables after it have their values
        if early && i == 0 { g.w("hf"); g.p("("); g.p(")"); g.p(";") }
        if early && i > 0 && !hf && g.s.chance(1, 2) {
            hf = true;
            for x in ["function", "hf", "(", ")", "{", "p", "("] { if x.len() > 1 || x == "p" { g.w(x) } else { g.p(x) } }
            for j in 0..1 + g.s.below(3) { if j > 0 { g.p(",") } let t = g.s.pick_ref(&pool).clone(); g.push(K::Str, t) }
            for x in [")", ";", "}"] { g.p(x) }
        }
        if vars && !plain.is_empty() && g.s.chance(1, if i == 0 { 3 } else { 8 }) {
            let n = plain.remove(0);
            let k = g.s.pick(&["var", "let"]);
            g.w(k); g.w(n); g.p("=");
            let t = g.s.pick_ref(&pool).clone();
            g.push(K::Str, t); g.p(";");
            live.push(n);
        }
        if !live.is_empty() && g.s.chance(1, 3) { let n = g.s.pick(&live); g.w(n); g.p("="); g.push(K::Num, "7"); g.p(";") }
        // a variable that holds a string already
        if vars && !left.is_empty() && (i == 0 && g.s.chance(2, 3) || g.s.chance(1, 3)) {
            let k = g.s.pick(&["var", "let", "var", "const"]);
            g.w(k);
            for j in 0..1 + g.s.below(2) {
                if left.is_empty() { break }
                if j > 0 { g.p(",") }
                let n = left.remove(0);
                g.w(n);
                g.p("=");
                let t = g.s.pick_ref(&pool).clone();
                g.push(K::Str, t);
                if g.s.chance(1, 6) { g.p("+"); g.push(K::Num, "1") }
            }
            g.p(";");
        }
    });
    cx.announce(s, p.text.clone());
    cx.evn("statements and files not made up", p.real as u64);
    cx.ev(&format!("order {order:?}"));
    cx.ev(&format!("separator {sep:?}"));
    if early { cx.ev("programs calling a function ahead of the variables") }
    check_c11(cx, &p, order, sep, exec || early)
}

// ---- C12 -------------------------------------------------------------------------------

pub struct Old { pub open: usize, pub close: usize }
/// Slots of an array literal given its tokens; empty slots are elisions.
fn slots(t: &[String]) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut d = 0;
    for x in t { if matches!(&**x, "[" | "(" | "{") { d += 1 } if matches!(&**x, "]" | ")" | "}") { d -= 1 } if x == "," && d == 0 { v.push(String::new()) } else { v.last_mut().unwrap().push_str(x) } }
    if v.last().is_some_and(|x| x.is_empty()) { v.pop(); }
    v
}
pub fn find_old(p: &Program, name: &str) -> Option<Old> {
    let lx: Vec<(usize, &Lex)> = p.lx.iter().enumerate().filter(|x| x.1.k != K::Lic).collect();
    let i = (0..lx.len().saturating_sub(4)).find(|i| matches!(lx[*i].1.t.as_str(), "var" | "let") && lx[*i].1.k == K::Word && lx[i + 1].1.t == name && lx[i + 2].1.t == "=" && lx[i + 3].1.t == "[")?;
    let mut d = 0;
    let close = lx[i + 4..].iter().find(|x| x.1.k == K::Punct && match &*x.1.t { "[" | "(" | "{" => { d += 1; false } "]" if d == 0 => true, "]" | ")" | "}" => { d -= 1; false } _ => false })?.0;
    Some(Old { open: lx[i + 3].0, close })
}
/// `keep(k)`: is the k-th string of the program open to replacement?
pub fn check_c12(cx: &mut Ctx, p: &Program, name: &str, o: Order, sep: Sep, keep: Option<&dyn Fn(usize) -> bool>, exec: bool) -> Res {
    let old = find_old(p, name);
    let out = cx.guard("aggregate_strings_into_array", || -> Result<String, &'static str> {
        let t = sutapi::js_tokens(&p.text)?;
        Ok(transform(t, o, &|t| match (sep.token(), keep) {
            (None, None) => sutapi::arr(t, name),
            (Some(s), None) => sutapi::arr_sep(t, name, s),
            (s, Some(k)) => {
                let mut ord = vec![usize::MAX; t.0.len()];
                let mut n = 0;
                for (i, x) in t.0.iter().enumerate() { if x.is_string() { ord[i] = n; n += 1 } }
                let f = |_: &Tokens<'_>, i: usize| k(ord[i]);
                match s { Some(s) => sutapi::arr_sep_filter(t, name, s, &f), None => sutapi::arr_filter(t, name, &f) }
            }
        }).to_string())
    })?.map_err(|e| format!("a valid program is rejected: {e}"))?;
    let mut elems: Vec<String> = vec![];
    let pe = if old.is_some() { 0 } else { prologue_len(p) };
    if pe > 0 { cx.ev("programs with directives") }
    let mut rest = after_prologue(p, pe, &out)?;
    let pre = format!("var {name}=[");
    if let (None, Some(mut d)) = (&old, rest.strip_prefix(&pre)) {
        loop {
            let Some(k) = str_len(d) else { return Err(format!("element {} of the new array is no string: {}", elems.len(), show(d, 60))) };
            elems.push(d[..k].into());
            d = &d[k..];
            if let Some(x) = d.strip_prefix(',') { d = x; continue }
            d = d.strip_prefix("];").ok_or(format!("the new array doesn't end: {}", show(d, 60)))?;
            break;
        }
        let st = sep.text(o, true);
        rest = d.strip_prefix(st).ok_or(format!("the separator {} is missing, found {}", show(st, 20), show(d, 60)))?;
    }
    let created = elems.len();
    // tokens of the existing array
    let mut olds: Vec<String> = old.as_ref().map_or(vec![], |o| p.lx[o.open + 1..o.close].iter().filter(|l| l.k != K::Lic).map(|l| l.t.clone()).collect());
    let n_old = slots(&olds).len();
    let before = slots(&olds);
    if let Some(od) = &old {
        // look ahead: what stands before the closing bracket in the output
        let mut found = None;
        let _ = read_off_with(&p.lx[..=od.close], rest, &mut |i, rest| { if i == od.close { found = Some(rest.to_string()) } Ok(None) });
        if let Some(mut f) = found.as_deref() {
            loop {
                f = f.trim_start_matches([' ', '\t', '\n', '\r']);
                if let Some(x) = f.strip_prefix(',') { olds.push(",".into()); f = x }
                else if let Some(k) = str_len(f) { olds.push(f[..k].into()); f = &f[k..] } else { break }
            }
        }
        elems = slots(&olds);
        if elems.len() < n_old || elems[..n_old] != before[..] { return Err(format!("the existing array changed: {} became {}", show(&before.join(","), 200), show(&elems.join(","), 200))) }
        if elems[n_old..].iter().any(|e| str_len(e) != Some(e.len())) { return Err(format!("the existing array got elements that are no strings: {}", show(&elems[n_old..].join(","), 200))) }
        cx.evn("elements added to an existing array", (elems.len() - n_old) as u64);
    }
    // the places of the elements after `...a` aren't known
    let placed = elems.iter().position(|e| e.starts_with("...")).unwrap_or(elems.len());
    let vals: Vec<Option<Vec<u16>>> = elems.iter().enumerate().map(|(i, e)| (i < placed && str_len(e) == Some(e.len())).then(|| value(e))).collect();
    let mut strings = p.lx[..pe].iter().filter(|l| l.k == K::Str).count();
    let (mut replaced, mut kept) = (0, 0);
    let mut uses = vec![0; elems.len()];
    let ind = format!("{name}[");
    read_off_with(&p.lx[pe..], rest, &mut |i, rest| {
        let i = i + pe;
        let l = &p.lx[i];
        if let Some(od) = &old { if i == od.close {
            let mut f = rest;
            loop { if let Some(x) = f.strip_prefix(',') { f = x } else if let Some(k) = str_len(f) { f = &f[k..] } else { break } }
            return Ok(Some(Sub::Before(rest.len() - f.len())));
        } }
        if !matches!(l.k, K::Str | K::Tmpl) { return Ok(None) }
        let ord = strings;
        strings += 1;
        if l.k == K::Tmpl { return Ok(None) }
        if keep.is_some_and(|k| !k(ord)) { kept += 1; return Ok(None) }
        let Some(d) = rest.strip_prefix(&ind) else { return Ok(None) };
        let n = d.bytes().take_while(|c| c.is_ascii_digit()).count();
        if !d[n..].starts_with(']') { return Ok(None) }
        let Ok(k) = d[..n].parse::<usize>() else { return Ok(None) };
        match vals.get(k) {
            Some(Some(v)) if *v == value(&l.t) => {}
            Some(_) => return Err(format!("{} became {name}[{k}], and that is {}", show(&l.t, 100), show(&elems[k], 100))),
            None => return Err(format!("{} became {name}[{k}], the array has {} elements", show(&l.t, 100), elems.len())),
        }
        // the other names which are replaced are a known finding
        if l.name && p.module { return Err(format!("{} is no expression but became {name}[{k}]", show(&l.t, 100))) }
        if old.as_ref().is_some_and(|o| i < o.close) { return Err(format!("{} is replaced before the array has its value", show(&l.t, 100))) }
        replaced += 1;
        uses[k] += 1;
        Ok(Some(Sub::Instead(word(&rest[..ind.len() + n + 1]))))
    }).map_err(|m| format!("token {}: {}", m.i + pe, m.why))?;
    cx.evn("strings replaced by an element", replaced);
    cx.evn("strings kept because of the filter", kept);
    cx.evn("elements of new arrays", created as u64);
    if created > 10 { cx.ev("outputs with more than 10 elements") }
    if created > 1000 { cx.ev("outputs with more than 1000 elements") }
    if old.is_some() { cx.ev("programs with an existing array") }
    cx.nontrivial = replaced > 0;
    if exec { execute(cx, &p.text, &out, p.module)? }
    Ok(())
}
const ARRAYS: &[&str] = &["R", "r_aa", "$", "searchIndex", "N", "é", "Ra", "R2", "veryLongNameOfAnArray", "_", "R_"];
pub fn c12(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut o = opts(s);
    let order = s.pick(ORDERS);
    let sep = s.pick(&[Sep::None, Sep::None, Sep::Line, Sep::Semi, Sep::Lic]);
    if order == Order::Agg { o.comments = false }
    let exec = s.chance(1, 10);
    let big = s.chance(1, 40);
    let name = s.pick(ARRAYS);
    o.banned = vec![name.into()];
    let pool = o.pool.clone();
    let mut at = if s.chance(1, 2) { s.below(3) } else { usize::MAX };
    let filter = match s.below(4) { 0 => Some((2 + s.below(6), s.bits())), _ => None };
    let mut known = None;
    let p = program_with(s, o, |g, i| {
        if i == at || (at != usize::MAX && i > at && known.is_none()) {
            let k = g.s.pick(&["var", "let"]);
            g.w(k); g.w(name); g.p("="); g.p("[");
            let mut t: Vec<String> = vec![];
            for j in 0..g.s.size(4, 30) {
                if j > 0 { g.p(","); t.push(",".into()) }
                if g.s.chance(1, 8) { // more than one token
                    let a = g.s.pick_ref(&pool).clone();
                    let (a, b) = (a.as_str(), g.s.pick(&["'other'", "'x'", "\"],[\""]));
                    let x: &[&str] = match g.s.below(9) { 7 => &["...", "[", a, ",", b, "]"], 0 => &["[", a, "]"], 1 => &["[", a, ",", b, "]"], 2 => &["{", "k", ":", a, ",", "l", ":", "[", b, ",", "[", "]", "]", "}"], 3 => &["p", "(", a, ",", b, ")"], 4 => &["(", a, ",", b, ")"], 5 => &[a, "+", b], 6 => &["[", "[", a, "]", ",", "(", "[", b, "]", ")", "]"], _ => &["{", "}"] };
                    for x in x { match *x { "k" | "l" | "p" => g.w(x), _ if x.starts_with(['"', '\'']) => g.push(K::Str, x.to_string()), _ => g.p(x) } t.push(x.to_string()) }
                    continue;
                }
                let x = match g.s.below(8) { 0 => continue, 1 => "7".to_string(), 2 => "'other'".into(), _ => g.s.pick_ref(&pool).clone() };
                g.push(if x == "7" { K::Num } else { K::Str }, x.clone());
                t.push(x);
            }
            if g.s.chance(1, 5) { g.p(","); t.push(",".into()) }
            g.p("]"); g.p(";");
            known = Some(slots(&t).len());
            at = i;
        }
        if big && i == 0 { flat(g) }
        if let (Some(n), true) = (known, g.s.chance(1, 3)) {
            if n > 0 { g.w("p"); g.p("("); g.w(name); g.p("["); let k = g.s.below(n).to_string(); g.push(K::Num, k); g.p("]"); g.p(")"); g.p(";") }
        }
    });
    cx.announce(s, p.text.clone());
    cx.evn("statements and files not made up", p.real as u64);
    cx.ev(&format!("order {order:?}"));
    cx.ev(&format!("separator {sep:?}"));
    if filter.is_some() { cx.ev("filters") }
    let keep = filter.map(|(m, x)| move |k: usize| (k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ x as u64) >> 40 & 0xffff >= 0x10000 / m as u64);
    check_c12(cx, &p, name, order, sep, keep.as_ref().map(|k| k as &dyn Fn(usize) -> bool), exec)
}

// ---- fixed cases -----------------------------------------------------------------------

const L: &str = "\"a long string literal\"";
fn all(f: impl Fn(&mut Ctx, &Program, Order, Sep) -> Res + 'static, t: String) -> Box<dyn Fn(&mut Ctx) -> Res> {
    Box::new(move |cx| {
        let t = t.replace("$L", L);
        let p = parse_dsl(&t);
        cx.announce_fixed(p.text.clone());
        for o in [Order::AggClean, Order::CleanAgg, Order::Agg] {
            if o == Order::Agg && p.comments > 0 { continue }
            for s in [Sep::None, Sep::Line, Sep::Semi, Sep::Lic] { f(cx, &p, o, s)? }
        }
        Ok(())
    })
}
pub fn fixed_c11() -> Vec<Fixed> {
    let c: &[(&str, &str)] = &[
        ("names of properties", "p¦(¦{¦$L¦:¦$L¦,¦get¦␣ ¦$L¦(¦)¦{¦return¦␣ ¦1¦;¦}¦,¦'x'¦:¦2¦,¦$L¦:¦{¦$L¦:¦3¦}¦}¦,¦$L¦,¦p¦?¦$L¦:¦$L¦)¦;"),
        ("names of class members", "class¦␣ ¦A¦{¦$L¦=¦1¦;¦static¦␣ ¦$L¦;¦$L¦(¦)¦{¦return¦␣ ¦$L¦;¦}¦static¦$L¦(¦)¦{¦}¦$L¦;¦}¦p¦(¦new¦␣ ¦A¦,¦$L¦,¦$L¦)¦;"),
        ("names in patterns", "var¦{¦$L¦:¦q¦,¦$L¦:¦r¦=¦$L¦}¦=¦{¦}¦;¦p¦(¦q¦,¦r¦,¦$L¦)¦;"),
        ("directives of a function", "function¦␣ ¦f¦(¦)¦{¦\"use strict\"¦;¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦p¦(¦f¦(¦)¦,¦\"use strict\"¦,¦\"use strict\"¦,¦\"use strict\"¦,¦\"use strict\"¦)¦;"),
        ("directives of the program", "\"use strict\"¦;¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦,¦$L¦,¦$L¦,¦\"use strict\"¦,¦\"use strict\"¦,¦\"use strict\"¦)¦;"),
        ("several directives", "/*!l*/¦\"use asm\"¦;¦␣\n¦'use strict'¦␣ ¦;¦/*!m*/¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦,¦$L¦,¦$L¦)¦;"),
        ("string at the start that is no directive", "$L¦+¦1¦;¦p¦(¦$L¦,¦$L¦)¦;"),
        ("in right after a string", "p¦(¦$L¦in¦␣ ¦{¦}¦,¦$L¦instanceof¦␣ ¦Object¦)¦;"),
        ("template literals are never moved", "var¦␣ ¦i¦=¦0¦;¦p¦(¦`${++i} some long text here`¦,¦`${++i} some long text here`¦,¦`${++i} some long text here`¦)¦;"),
        ("a later variable holding the string", "p¦(¦$L¦)¦;¦p¦(¦$L¦)¦;¦var¦␣ ¦r_x¦=¦$L¦;¦p¦(¦$L¦)¦;"),
        ("a name that is already in use", "var¦␣ ¦r_aa¦=¦1¦;¦p¦(¦r_aa¦,¦$L¦,¦$L¦,¦r_ba¦=¦2¦)¦;"),
        ("a name that is in use inside a template", "var¦␣ ¦q¦=¦1¦;¦p¦(¦$L¦,¦$L¦,¦`${typeof r_aa}`¦)¦;"),
        ("a variable that holds more than the string", "var¦␣ ¦r_x¦=¦$L¦+¦1¦;¦p¦(¦$L¦,¦$L¦)¦;"),
        ("a variable of an inner scope", "{¦let¦␣ ¦r_x¦=¦$L¦;¦}¦p¦(¦$L¦,¦$L¦)¦;"),
        ("a function called before the variable has its value", "f¦(¦)¦;¦var¦␣ ¦r_v¦=¦$L¦;¦function¦␣ ¦f¦(¦)¦{¦p¦(¦$L¦)¦;¦}"),
        ("a function called by the declaration before it", "var¦␣ ¦q¦=¦f¦(¦)¦,¦r_v¦=¦$L¦;¦function¦␣ ¦f¦(¦)¦{¦p¦(¦$L¦)¦;¦}"),
        ("a variable of another name that is assigned to", "var¦␣ ¦rest¦=¦$L¦;¦rest¦=¦p¦(¦)¦;¦p¦(¦$L¦,¦$L¦,¦rest¦)¦;"),
        ("another variable that is assigned to", "var¦␣ ¦r¦=¦$L¦,¦R_x¦=¦'another long literal'¦;¦r¦=¦1¦;¦R_x¦++¦;¦p¦(¦$L¦,¦$L¦,¦'another long literal'¦,¦'another long literal'¦)¦;"),
        ("two variables holding the string", "var¦␣ ¦r_x¦=¦$L¦;¦p¦(¦$L¦)¦;¦var¦␣ ¦r_y¦=¦$L¦;¦p¦(¦$L¦)¦;"),
        ("a variable after one without value", "var¦␣ ¦r_y¦;¦var¦␣ ¦r_x¦=¦$L¦;¦p¦(¦$L¦,¦r_y¦)¦;"),
        ("same value, other quotes", "p¦(¦$L¦,¦'a long string literal'¦,¦$L¦,¦'a long string literal'¦)¦;"),
    ];
    let mut v: Vec<Fixed> = c.iter().map(|(n, t)| (*n, all(|cx, p, o, s| check_c11(cx, p, o, s, true), t.to_string()))).collect();
    // node runs no modules here
    let t = "import¦␣ ¦a¦␣ ¦from¦$L¦;¦import¦$L¦;¦export¦{¦b¦}¦from¦␣ ¦$L¦;¦p¦(¦$L¦,¦$L¦)¦;";
    v.push(("names of modules", Box::new(move |cx: &mut Ctx| {
        let mut p = parse_dsl(&t.replace("$L", L));
        for i in 1..p.lx.len() { p.lx[i].name = p.lx[i].k == K::Str && matches!(p.lx[i - 1].t.as_str(), "from" | "import") }
        cx.announce_fixed(p.text.clone());
        for o in [Order::AggClean, Order::CleanAgg, Order::Agg] { check_c11(cx, &p, o, Sep::None, false)? }
        Ok(())
    })));
    v.extend(modules(|cx, p| { for o in [Order::AggClean, Order::CleanAgg, Order::Agg] { check_c11(cx, p, o, Sep::None, false)? } Ok(()) }));
    v
}
/// node runs no modules here
fn modules(check: fn(&mut Ctx, &Program) -> Res) -> Vec<Fixed> {
    let mut v: Vec<Fixed> = vec![];
    for (n, t) in [
        ("names of imports and exports", "import¦{¦$L¦as¦␣ ¦a¦,¦$L¦as¦␣ ¦c¦}¦from¦␣ ¦$L¦;¦export¦{¦a¦␣ ¦as¦$L¦,¦b¦}¦;¦export¦*¦as¦$L¦from¦␣ ¦'m'¦;¦export¦{¦$L¦}¦from¦␣ ¦'m'¦;"),
        ("exports of the names of another module", "export¦{¦$L¦,¦'another long name'¦,¦$L¦as¦'another long name'¦,¦b¦}¦from¦$L¦;"),
        ("imports of names with escapes", "import¦␣ ¦\\u0061¦␣ ¦from¦$L¦;¦import¦␣ ¦\\u0062c¦,¦{¦\\u0064¦}¦from¦$L¦;"),
        ("attributes of imports", "import¦␣ ¦a¦,¦{¦b¦}¦from¦␣ ¦'m'¦␣ ¦with¦␣ ¦{¦type¦:¦$L¦,¦$L¦:¦$L¦}¦;¦import¦$L¦with¦{¦type¦:¦$L¦}¦;¦import¦␣ ¦*¦as¦␣ ¦d¦␣ ¦from¦␣ ¦'m'¦with¦{¦type¦:¦$L¦}¦;¦export¦*¦from¦'m'¦with¦{¦a¦:¦$L¦}¦;"),
    ] {
        v.push((n, Box::new(move |cx: &mut Ctx| {
            let mut p = parse_dsl(&t.replace("$L", L));
            for l in p.lx.iter_mut() { l.name = l.k == K::Str }
            p.module = true;
            // strings which can be replaced
            let q = parse_dsl(&"p¦(¦$L¦,¦$L¦,¦import¦(¦$L¦)¦,¦x¦.¦import¦(¦$L¦)¦,¦$L¦,¦import¦.¦meta¦[¦$L¦]¦)¦;¦export¦␣ ¦default¦$L¦;¦export¦␣ ¦var¦␣ ¦z¦=¦$L¦;".replace("$L", L));
            p.text.push_str(&q.text);
            p.lx.extend(q.lx);
            cx.announce_fixed(p.text.clone());
            check(cx, &p)
        })));
    }
    v
}
pub fn fixed_c12() -> Vec<Fixed> {
    let c: &[(&str, &str)] = &[
        ("keyword right before a string", "p¦(¦typeof¦$L¦,¦typeof¦$L¦)¦;¦switch¦(¦1¦)¦{¦case¦$L¦:¦}"),
        ("directives of the program", "\"use strict\"¦;¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦,¦$L¦,¦$L¦,¦\"use strict\"¦,¦\"use strict\"¦,¦\"use strict\"¦)¦;"),
        ("several directives", "/*!l*/¦\"use asm\"¦;¦␣\n¦'use strict'¦␣ ¦;¦/*!m*/¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦,¦$L¦,¦$L¦)¦;"),
        ("string at the start that is no directive", "$L¦+¦1¦;¦p¦(¦$L¦,¦$L¦)¦;"),
        ("in right after a string", "p¦(¦$L¦in¦␣ ¦{¦}¦,¦$L¦instanceof¦␣ ¦Object¦)¦;"),
        ("template literals are never moved", "var¦␣ ¦i¦=¦0¦;¦p¦(¦`${++i} some long text here`¦,¦`${++i} some long text here`¦,¦`${++i} some long text here`¦)¦;"),
        ("double quotes in single quotes", "p¦(¦'say \"hello\" to them'¦,¦'say \"hello\" to them'¦,¦'say \"hello\" to them'¦)¦;"),
        ("escaped quotes", "p¦(¦'it\\'s a long text'¦,¦'it\\'s a long text'¦,¦\"say \\\"hello\\\" to them\"¦,¦\"say \\\"hello\\\" to them\"¦)¦;"),
        ("existing array with other elements", "var¦␣ ¦R¦=¦[¦1¦,¦$L¦,¦,¦'z'¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦)¦;"),
        ("existing array with a trailing comma", "var¦␣ ¦R¦=¦[¦1¦,¦$L¦,¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦,¦\"and another one too\"¦,¦\"and another one too\"¦)¦;"),
        ("existing empty array", "var¦␣ ¦R¦=¦[¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦)¦;"),
        ("existing array with nested elements", "var¦␣ ¦R¦=¦[¦[¦'z'¦,¦$L¦]¦,¦{¦a¦:¦'y'¦,¦b¦:¦2¦}¦,¦$L¦,¦p¦(¦1¦,¦'x'¦)¦,¦(¦[¦$L¦]¦)¦,¦'y'¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦,¦'y'¦,¦R¦[¦5¦]¦)¦;"),
        ("existing array with a spread element", "var¦␣ ¦Q¦=¦[¦1¦,¦2¦]¦;¦var¦␣ ¦R¦=¦[¦'z'¦,¦...¦Q¦,¦$L¦]¦;¦p¦(¦R¦,¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦)¦;"),
        ("existing array with a spread element first", "var¦␣ ¦R¦=¦[¦...¦[¦]¦]¦;¦p¦(¦$L¦,¦$L¦,¦R¦)¦;"),
        ("existing array after nested elements", "var¦␣ ¦Q¦=¦[¦[¦1¦]¦]¦;¦var¦␣ ¦R¦=¦[¦[¦]¦,¦$L¦,¦'some other long string'¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦)¦;"),
        ("strings before the existing array", "p¦(¦$L¦,¦$L¦)¦;¦var¦␣ ¦R¦=¦[¦$L¦]¦;¦p¦(¦$L¦)¦;"),
        ("existing array with licences in its declaration", "var¦/*!l*/¦␣ ¦R¦/*!m*/¦=¦/*!n*/¦[¦$L¦]¦;¦p¦(¦$L¦,¦$L¦,¦'some other long string'¦,¦'some other long string'¦)¦;"),
        ("same value, other quotes", "p¦(¦$L¦,¦'a long string literal'¦,¦$L¦,¦'a long string literal'¦)¦;"),
        ("array of another name after a declaration without value", "var¦␣ ¦R¦,¦y¦=¦[¦$L¦,¦'z'¦]¦;¦p¦(¦y¦[¦0¦]¦,¦$L¦,¦$L¦)¦;"),
        ("array of another name after a declaration with another value", "var¦␣ ¦R¦;¦y¦=¦[¦$L¦,¦'z'¦]¦;¦var¦␣ ¦R2¦=¦[¦$L¦]¦;¦p¦(¦y¦[¦0¦]¦,¦$L¦,¦$L¦)¦;"),
        ("array whose name starts alike", "var¦␣ ¦R2¦=¦[¦$L¦]¦;¦var¦␣ ¦$R¦=¦[¦$L¦]¦;¦p¦(¦R2¦[¦0¦]¦,¦$L¦,¦$L¦)¦;"),
        ("array of that name after one without value", "var¦␣ ¦q¦;¦var¦␣ ¦R¦=¦[¦'z'¦,¦$L¦]¦;¦p¦(¦R¦[¦0¦]¦,¦$L¦,¦$L¦)¦;"),
    ];
    let mut v: Vec<Fixed> = vec![];
    for (n, t) in [("known: function called before the array has its value", "f();var R=[\"a long string literal\"];function f(){p(\"a long string literal\");}"), ("known: names of properties", "p({\"a long string literal\":1},\"a long string literal\");"), ("known: directives of a function", "function f(){\"use strict\";return typeof this;}p(f(),\"use strict\",\"use strict\");")] {
        v.push((n, Box::new(move |cx: &mut Ctx| {
            cx.announce_fixed(t.into());
            let out = cx.guard("aggregate_strings_into_array", || Ok::<_, &'static str>(sutapi::arr(sutapi::js_tokens(t)?, "R").to_string()))??;
            execute(cx, t, &out, false)
        })));
    }
    for (n, t) in c {
        v.push((n, all(|cx, p, o, s| { check_c12(cx, p, "R", o, s, None, true)?; check_c12(cx, p, "R", o, s, Some(&|k| k % 2 == 0), true)?; check_c12(cx, p, "R", o, s, Some(&|_| false), true) }, t.to_string())));
    }
    v.extend(modules(|cx, p| { for o in [Order::AggClean, Order::CleanAgg, Order::Agg] { check_c12(cx, p, "R", o, Sep::None, None, false)? } Ok(()) }));
    v
}
