//! Dictionary of literals of the code under test, read from its current source text.
//! It only steers generation; no verdict depends on it.
use crate::src::Dict;
use std::collections::BTreeSet;
use std::path::Path;

const BASE_INTS: &[u32] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 20, 31, 32, 50, 62, 63, 64, 99, 100, 127, 128, 200,
    255, 256, 300, 500, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 10000, 16384, 32767, 65535, 65536, 70000];

fn files(p: &Path, v: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() { files(&e, v) } else if e.extension().map_or(false, |x| x == "rs")
            && e.file_name().map_or(true, |n| n != "tests.rs") { v.push(e) }
    }
}

/// The numbers in a string, such as those of the repetitions of a regex.
fn numbers(s: &str, ints: &mut BTreeSet<u32>) {
    for d in s.split(|c: char| !c.is_ascii_digit()) { if let Some(v) = d.parse().ok().filter(|v| *v <= 200_000) { ints.insert(v); } }
}

fn scan(text: &str, ints: &mut BTreeSet<u32>, strs: &mut BTreeSet<String>) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut last: Option<(u64, usize)> = None; // value and end, for folding `a << b` and `a * b`
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' { i += 1 }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') { i += 1 }
            i += 2;
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'),
                        'u' => { let mut h = String::new(); i += 2; while i < b.len() && b[i] != '}' { h.push(b[i]); i += 1 }
                            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { s.push(c) } }
                        'x' => { let h: String = b[i + 1..(i + 3).min(b.len())].iter().collect(); i += 2;
                            if let Ok(v) = u8::from_str_radix(&h, 16) { s.push(v as char) } }
                        '\n' => {}
                        c => s.push(c),
                    }
                } else { s.push(b[i]) }
                i += 1;
            }
            i += 1;
            numbers(&s, ints);
            if !s.is_empty() && s.len() <= 40 && !s.contains('{') { strs.insert(s); }
        } else if c == '\'' {
            // char literal or lifetime
            if b.get(i + 1) == Some(&'\\') {
                let mut j = i + 2;
                while j < b.len() && (b[j] != '\'' || j == i + 2) { j += 1 }
                let e: String = b[i + 2..j.min(b.len())].iter().collect();
                let ch = match e.as_str() { "n" => Some('\n'), "t" => Some('\t'), "r" => Some('\r'), "0" => Some('\0'),
                    x if x.starts_with("u{") => u32::from_str_radix(x[2..].trim_end_matches('}'), 16).ok().and_then(char::from_u32),
                    x if x.starts_with('x') => u32::from_str_radix(&x[1..], 16).ok().and_then(char::from_u32),
                    x => x.chars().next() };
                if let Some(ch) = ch { strs.insert(ch.to_string()); }
                i = j + 1;
            } else if b.get(i + 2) == Some(&'\'') {
                strs.insert(b[i + 1].to_string());
                i += 3;
            } else { i += 1 }
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1 }
            let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else { let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect(); d.parse().ok() };
            if let Some(v) = v {
                if v <= 200_000 { ints.insert(v as u32); }
                if let Some((pv, pe)) = last {
                    let op: String = b[pe..st].iter().filter(|c| !c.is_whitespace()).collect();
                    let f = match op.as_str() { "<<" if v < 20 => pv << v, "*" => pv.saturating_mul(v), "+" => pv + v, "-" => pv.saturating_sub(v), _ => u64::MAX };
                    if f <= 200_000 { ints.insert(f as u32); }
                }
                last = Some((v, i));
            }
        } else if (c == 'r' || c == 'b' && b.get(i + 1) == Some(&'r')) && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) && {
            let j = i + if c == 'b' { 2 } else { 1 };
            let h = b[j..].iter().take_while(|c| **c == '#').count();
            b.get(j + h) == Some(&'"')
        } {
            // a raw string, and the words in it
            let j = i + if c == 'b' { 2 } else { 1 };
            let h = b[j..].iter().take_while(|c| **c == '#').count();
            let st = j + h + 1;
            let e = (st..b.len()).find(|e| b[*e] == '"' && b[e + 1..].iter().take_while(|c| **c == '#').count() >= h).unwrap_or(b.len());
            let t: String = b[st..e].iter().collect();
            numbers(&t, ints);
            if !t.is_empty() && t.len() <= 40 && !t.contains('{') { strs.insert(t.clone()); }
            for w in t.split(|c: char| !c.is_alphanumeric() && !matches!(c, '-' | '/' | '<' | '=' | '"' | '!')) { if w.len() > 1 && w.len() <= 40 { strs.insert(w.into()); } }
            i = e + 1 + h;
        } else if c.is_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1 }
        } else { i += 1 }
    }
}

pub fn collect(src: &str) -> (BTreeSet<u32>, BTreeSet<String>) {
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    let mut fs = vec![];
    files(Path::new(src), &mut fs);
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(f) { scan(&t, &mut ints, &mut strs) }
    }
    (ints, strs)
}

pub fn esc(s: &str) -> String { s.escape_debug().to_string() }

/// One literal per line, "i NUM" or "s ESCAPED"; printed by `vmon dict` to refresh the baseline.
pub fn print(src: &str) {
    let (i, s) = collect(src);
    for x in i { println!("i {x}") }
    for x in s { println!("s {}", esc(&x)) }
}

pub fn load(src: &str) -> Dict {
    let base = include_str!("../baseline_dict.txt");
    let (i, s) = collect(src);
    let bi: BTreeSet<u32> = base.lines().filter_map(|l| l.strip_prefix("i ")?.parse().ok()).collect();
    let bs: BTreeSet<&str> = base.lines().filter_map(|l| l.strip_prefix("s ")).collect();
    let new_ints: Vec<u32> = i.iter().copied().filter(|x| !bi.contains(x)).collect();
    let new_strs: Vec<String> = s.iter().filter(|x| !bs.contains(esc(x).as_str())).cloned().collect();
    let mut ints: Vec<u32> = BASE_INTS.to_vec();
    for x in &i { if !ints.contains(x) { ints.push(*x) } }
    let mut strs: Vec<String> = s.into_iter().collect();
    if strs.is_empty() { strs.push("x".into()) }
    Dict { ints, strs, new_ints, new_strs }
}
