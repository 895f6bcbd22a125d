//! JavaScript properties C07-C10 and C14: minified text against the token list of the source.
use crate::eng::*;
use crate::jsgen::*;
use crate::node;
use crate::src::Src;
use minifier::js::Token;

pub struct Miss { pub i: usize, pub pos: usize, pub why: String }

/// Reads `lx` off the output. `gaps[i]` is the whitespace found before token i.
pub fn read_off(lx: &[Lex], out: &str) -> Result<Vec<String>, Miss> { read_off_with(lx, out, &mut |_, _| Ok(None)) }
pub enum Sub { /// this text stands for the token
    Instead(Lex), /// this many bytes come before the token
    Before(usize) }
/// `f(i, rest)` may say that something else stands for token i, or before it.
pub fn read_off_with(lx: &[Lex], out: &str, f: &mut dyn FnMut(usize, &str) -> Result<Option<Sub>, String>) -> Result<Vec<String>, Miss> {
    let mut gaps = Vec::with_capacity(lx.len() + 1);
    let mut pos = 0;
    let mut prev: Option<Lex> = None;
    let mut first = true; // only semicolons up to here
    for (i, l) in lx.iter().enumerate() {
        let rest = &out[pos..];
        let g = rest.len() - rest.trim_start_matches([' ', '\t', '\n', '\r']).len();
        let gap = &out[pos..pos + g];
        let mut rest = &rest[g..];
        first &= l.t == ";" && l.k == K::Punct;
        if first && !rest.starts_with(';') { gaps.push(String::new()); continue }
        let mut cur = l;
        let inst;
        match f(i, rest) {
            Err(why) => return Err(Miss { i, pos: pos + g, why }),
            Ok(None) => {}
            Ok(Some(Sub::Instead(x))) => { inst = x; cur = &inst }
            Ok(Some(Sub::Before(n))) => { pos += n; rest = &rest[n..] }
        }
        let n = match take(cur, rest) {
            Some(n) => n,
            None => return Err(Miss { i, pos: pos + g, why: format!("expected {} {}, found {}", kind(l.k), show(&l.t, 200), show(rest, 60)) }),
        };
        if let (0, Some(p)) = (g, &prev) {
            let next = lx.get(i + 1).map_or("", |x| x.t.as_str());
            // what was skipped at the very start does not count as a neighbour
            if fuse(p, cur, next) { return Err(Miss { i, pos, why: format!("{} and {} are glued together", show(&p.t, 100), show(&cur.t, 100)) }) }
        }
        gaps.push(gap.to_string());
        pos += g + n;
        prev = Some(cur.clone());
    }
    let rest = out[pos..].trim_start_matches([' ', '\t', '\n', '\r']);
    if !rest.is_empty() { return Err(Miss { i: lx.len(), pos, why: format!("unexpected {} at the end", show(rest, 100)) }) }
    gaps.push(out[pos..].to_string());
    Ok(gaps)
}
/// Length of token l at the start of `rest`.
pub fn take(l: &Lex, rest: &str) -> Option<usize> {
    if l.k == K::Regex {
        let e = l.t.rfind('/').unwrap() + 1;
        if !rest.starts_with(&l.t[..e]) { return None }
        let fl: String = rest[e..].chars().take_while(|c| is_id(*c)).collect();
        let sorted = |s: &str| { let mut v: Vec<char> = s.chars().collect(); v.sort(); v };
        if sorted(&fl) != sorted(&l.t[e..]) { return None }
        return Some(e + fl.len());
    }
    rest.starts_with(l.t.as_str()).then_some(l.t.len())
}
pub fn kind(k: K) -> &'static str { match k { K::Word => "word", K::Num => "number", K::Str => "string", K::Tmpl => "template", K::Regex => "regex", K::Punct => "operator", K::Lic => "licence" } }
pub fn show(s: &str, n: usize) -> String { format!("{:?}", s.chars().take(n).collect::<String>()) }
pub fn is_lit(k: K) -> bool { matches!(k, K::Num | K::Str | K::Tmpl | K::Regex) }

fn stat(cx: &mut Ctx, p: &Program) {
    cx.evn("tokens read off the output", p.lx.len() as u64);
    cx.evn("comments in sources", p.comments as u64);
    cx.evn("statements and files not made up", p.real as u64);
    for l in &p.lx { match l.k { K::Regex => cx.ev("regexes"), K::Tmpl => cx.ev("templates"), K::Str => cx.ev("strings"), K::Num => cx.ev("numbers"), K::Lic => cx.ev("licences"), _ => {} } }
}
fn minify(cx: &mut Ctx, t: &str) -> Result<String, String> {
    cx.guard("minify", || sutapi::js(t))?.map_err(|e| format!("a valid program is rejected: {e}"))
}
/// Runs source and output; Err when they differ.
pub fn execute(cx: &mut Ctx, src: &str, out: &str, module: bool) -> Res {
    if module { cx.ev("modules parsed by node") }
    let r = node::compare(src, out, module);
    let what = r.split(' ').next().unwrap_or("");
    match what {
        "same" => { cx.ev("programs executed, traces equal"); cx.evn("trace events compared", r[5..].parse().unwrap_or(0)); Ok(()) }
        "skip" => { cx.ev(&format!("execution skipped: {}", &r[5..])); Ok(()) }
        "badsrc" => {
            cx.ev("execution skipped: source not accepted by node");
            if std::env::var_os("VMON_GEN").is_some() { eprintln!("{r}\n{src}\n----") }
            Ok(())
        }
        "badout" => Err(format!("the output is no program any more: {}", &r[7..])),
        _ => Err(format!("running source and output gives different results: {r}")),
    }
}

// ---- C07 -------------------------------------------------------------------------------

pub fn check_c07(cx: &mut Ctx, p: &Program, exec: bool) -> Res {
    let out = minify(cx, &p.text)?;
    if let Err(m) = read_off(&p.lx, &out) { return Err(format!("token {}: {}", m.i, m.why)) }
    if exec { execute(cx, &p.text, &out, p.module)? }
    Ok(())
}
pub fn c07(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = program(s, Opts::default());
    let exec = s.chance(1, 12);
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    cx.nontrivial = p.lx.len() > 3;
    check_c07(cx, &p, exec)
}

// ---- C08 -------------------------------------------------------------------------------

pub fn check_c08(cx: &mut Ctx, p: &Program) -> Res {
    let out = minify(cx, &p.text)?;
    let Err(m) = read_off(&p.lx, &out) else {
        cx.evn("literals compared", p.lx.iter().filter(|l| is_lit(l.k)).count() as u64);
        return Ok(());
    };
    if let Some(l) = p.lx.get(m.i) { if is_lit(l.k) && !m.why.contains("glued") { return Err(format!("literal {}: {}", show(&l.t, 300), m.why)) } }
    // Something else is wrong (that is judged by C07): are the literals still there in order?
    let mut at = 0;
    for l in p.lx.iter().filter(|l| is_lit(l.k)) {
        let t = if l.k == K::Regex { &l.t[..l.t.rfind('/').unwrap() + 1] } else { l.t.as_str() };
        match out[at..].find(t) { Some(x) => at += x + t.len(), None => return Err(format!("{} {} is not in the output (at its place)", kind(l.k), show(&l.t, 300))) }
    }
    cx.ev("other differences, not about literals");
    Ok(())
}
pub fn c08(s: &mut Src, cx: &mut Ctx) -> Res {
    let lw = 1 + s.below(8);
    let p = program(s, Opts { lit_weight: lw, ..Opts::default() });
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    cx.nontrivial = p.lx.iter().any(|l| is_lit(l.k) && l.t.len() > 2);
    check_c08(cx, &p)
}

// ---- C09 -------------------------------------------------------------------------------

pub fn check_c09(cx: &mut Ctx, p: &Program) -> Res {
    let out = minify(cx, &p.text)?;
    let Err(m) = read_off(&p.lx, &out) else { return Ok(()) };
    let cur = p.lx.get(m.i);
    let near = cur.map_or(p.trailing_comment, |l| l.comment_before || l.k == K::Lic) || (m.i > 0 && p.lx[m.i - 1].k == K::Lic);
    let found = &out[m.pos..];
    if near || found.starts_with("/*") || found.starts_with("//") { return Err(format!("next to a comment, token {}: {}", m.i, m.why)) }
    cx.ev("other differences, not about comments");
    // licences, wherever the rest went
    let mut at = 0;
    for l in p.lx.iter().filter(|l| l.k == K::Lic) {
        match out[at..].find(&l.t) { Some(x) => at += x + l.t.len(), None => return Err(format!("licence {} is not in the output (in order)", show(&l.t, 200))) }
    }
    Ok(())
}
pub fn c09(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = program(s, Opts { stmts: 3, ..Opts::default() });
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    cx.nontrivial = p.comments > 0 || p.lx.iter().any(|l| l.k == K::Lic);
    check_c09(cx, &p)
}

// ---- C10 -------------------------------------------------------------------------------

/// May one space stay between the two tokens?
fn may_separate(a: &Lex, b: &Lex, next: &str) -> bool {
    if fuse(a, b, next) { return true }
    if (b.t == "in" || b.t == "instanceof") && a.k == K::Regex { return true }
    (a.t.ends_with('+') && b.t.starts_with('+')) || (a.t.ends_with('-') && b.t.starts_with('-')) || (a.t.ends_with('<') && b.t.starts_with('!')) || (a.k == K::Num && b.t.starts_with('.'))
}
pub fn check_c10(cx: &mut Ctx, p: &Program) -> Res {
    let out = minify(cx, &p.text)?;
    if out.len() > p.text.len() { return Err(format!("the output is longer than the input: {} > {} bytes", out.len(), p.text.len())) }
    if let Ok(gaps) = read_off(&p.lx, &out) {
        let mut spaces = 0;
        for (i, g) in gaps.iter().enumerate() {
            if g.is_empty() { continue }
            spaces += 1;
            let ok = g == " " && i > 0 && i < p.lx.len() && may_separate(&p.lx[i - 1], &p.lx[i], p.lx.get(i + 1).map_or("", |l| l.t.as_str()));
            if !ok { return Err(format!("{} is left before token {i} {}", show(g, 20), p.lx.get(i).map_or("(end)".into(), |l| show(&l.t, 60)))) }
        }
        cx.evn("separating spaces judged", spaces);
    }
    let again = minify(cx, &out)?;
    if again != out {
        let k = again.bytes().zip(out.bytes()).take_while(|(a, b)| a == b).count();
        let k = (0..=k).rev().find(|k| out.is_char_boundary(*k) && again.is_char_boundary(*k)).unwrap_or(0);
        return Err(format!("minifying again changes {} to {}", show(&out[k..], 80), show(&again[k..], 80)));
    }
    cx.ev("second minifications compared");
    Ok(())
}
pub fn c10(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = program(s, Opts::default());
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    cx.nontrivial = p.lx.len() > 3;
    check_c10(cx, &p)
}

// ---- C14 -------------------------------------------------------------------------------

/// Must this be exactly one token of the list?
fn single(l: &Lex) -> bool {
    match l.k { K::Word => !l.t.contains('\\'), K::Num => is_decimal(&l.t), K::Punct => false, _ => true }
}
fn flags(t: &str) -> &str { &t[t.rfind('/').unwrap() + 1..] }
pub fn check_c14(cx: &mut Ctx, p: &Program) -> Res {
    let tk = cx.guard("tokenize", || sutapi::js_tokens(&p.text))?.map_err(|e| format!("a valid program is rejected: {e}"))?;
    let tk2 = cx.guard("tokenize", || sutapi::js_tokenize(&p.text))?.map_err(|e| format!("a valid program is rejected: {e}"))?;
    if tk != tk2 { return Err("simple_minify and tokenize disagree".into()) }
    let v: Vec<&Token> = tk.0.iter().filter(|t| !t.is_white_character() && !t.is_comment()).collect();
    let mut j = 0;
    let (mut owed, mut got) = (String::new(), String::new());
    for (i, l) in p.lx.iter().enumerate() {
        let fail = |j: usize, w: &str| Err(format!("token {i} {}: {w}, the token list has {:?}", show(&l.t, 100), v[j.min(v.len())..v.len().min(j + 4)].iter().collect::<Vec<_>>()));
        if !owed.is_empty() && !single(l) {
            if owed.starts_with(&l.t) { owed.drain(..l.t.len()); continue }
        }
        let Some(t) = v.get(j) else { return fail(j, "missing") };
        let one = match l.k {
            K::Str | K::Tmpl => { if t.get_string() != Some(l.t.as_str()) { return fail(j, "should be one string token") } true }
            K::Lic => { if !matches!(t, Token::License(x) if *x == &l.t[3..l.t.len() - 2]) { return fail(j, "should be one licence token") } true }
            K::Regex => {
                let e = l.t.rfind('/').unwrap();
                let Token::Regex { regex, is_global, is_interactive } = t else { return fail(j, "should be a regex token") };
                if *regex != &l.t[1..e] { return fail(j, "wrong regex body") }
                let f = flags(&l.t);
                // `g` and `i` belong to the token up to the first other flag
                let lead: String = f.chars().take_while(|c| matches!(c, 'g' | 'i')).collect();
                if *is_global != lead.contains('g') || *is_interactive != lead.contains('i') { return fail(j, "wrong regex flags") }
                let rest = &f[lead.len()..];
                if !rest.is_empty() {
                    j += 1;
                    if v.get(j).and_then(|t| t.get_other()) != Some(rest) { return fail(j, "the other flags should be a word") }
                }
                true
            }
            K::Word if l.t.contains('\\') => false,
            K::Word => {
                match t.get_keyword() {
                    Some(k) => if k.to_string() != l.t { return fail(j, "wrong keyword") },
                    None => {
                        if KEYWORDS.contains(&l.t.as_str()) { return fail(j, "should be a keyword") }
                        if t.get_other() != Some(l.t.as_str()) { return fail(j, "should be one word token") }
                    }
                }
                true
            }
            K::Num if is_decimal(&l.t) => {
                if !t.is_number() && !t.is_floating_number() { return fail(j, "should be one number token") }
                if t.to_string() != l.t { return fail(j, "wrong number") }
                true
            }
            _ => false,
        };
        if one { j += 1; continue }
        // Other tokens may be cut in another way, as long as they're all there.
        got.clear();
        while owed.len() + got.len() < l.t.len() && j < v.len() { got.push_str(&v[j].to_string()); j += 1 }
        let all = owed.clone() + &got;
        owed.clear();
        if all.len() > l.t.len() && all.starts_with(&l.t) && p.lx.get(i + 1).is_some_and(|n| !single(n)) { owed = all[l.t.len()..].to_string(); continue }
        let got = all;
        if got != l.t { return Err(format!("token {i} {}: the token list has {}", show(&l.t, 100), show(&got, 100))) }
    }
    if j != v.len() { return Err(format!("tokens from nowhere: {:?}", &v[j..v.len().min(j + 4)])) }
    cx.evn("tokens matched with the token list", p.lx.len() as u64);
    if p.comments == 0 {
        let r = cx.guard("render", || tk.to_string())?;
        same_layout(p, &r)?;
        cx.ev("untouched token lists rendered");
    }
    Ok(())
}
pub fn is_decimal(t: &str) -> bool {
    let (a, b) = match t.split_once('.') { Some((a, b)) => (a, b), None => (t, "0") };
    let d = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    (d(a) || a.is_empty()) && d(b)
}
/// The rendering must be the source, but for `\r` and the order of regex flags.
fn same_layout(p: &Program, r: &str) -> Res {
    let src = p.text.replace('\r', "\n");
    let mut at = 0; // in src
    let mut k = 0; // in r
    for (i, l) in p.lx.iter().enumerate() {
        let gap = &src[at..l.at];
        if !r[k..].starts_with(gap) { return Err(format!("rendering the untouched token list: before token {i} {} stands {} instead of {}", show(&l.t, 60), show(&r[k..], 30), show(gap, 30))) }
        k += gap.len();
        let mut n = Lex { t: if matches!(l.k, K::Tmpl | K::Str | K::Lic) { l.t.clone() } else { l.t.replace('\r', "\n") }, ..l.clone() };
        if l.k == K::Regex { n.t = l.t.clone() }
        match take(&n, &r[k..]) { Some(x) => k += x, None => return Err(format!("rendering the untouched token list: token {i} {} became {}", show(&l.t, 60), show(&r[k..], 60))) }
        at = l.at + l.t.len();
    }
    if src[at..] != r[k..] { return Err(format!("rendering the untouched token list ends with {} instead of {}", show(&r[k..], 60), show(&src[at..], 60))) }
    Ok(())
}
pub fn c14(s: &mut Src, cx: &mut Ctx) -> Res {
    let comments = s.chance(1, 2);
    let p = program(s, Opts { comments, ..Opts::default() });
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    cx.nontrivial = p.lx.len() > 3;
    check_c14(cx, &p)
}

// ---- fixed cases -----------------------------------------------------------------------

/// "tok¦tok¦..." with the layout given separately: pieces starting with `␣` are trivia.
pub fn parse_dsl(t: &str) -> Program {
    let t = &t.replace("$9", &"9".repeat(400));
    let mut p = Program::default();
    let (mut com, mut gap) = (false, false);
    for piece in t.split('¦') {
        if let Some(tr) = piece.strip_prefix('␣') {
            gap = true;
            if tr.contains("//") || tr.contains("/*") { com = true; p.comments += 1 }
            p.text.push_str(tr);
            continue;
        }
        if piece.is_empty() { continue }
        let c = piece.chars().next().unwrap();
        let prev_word = p.lx.last().is_some_and(|l: &Lex| matches!(l.k, K::Num | K::Str | K::Tmpl | K::Regex) || l.t == ")" || l.t == "]" || l.t == "}" || (l.k == K::Word && !["return", "typeof", "case", "in", "instanceof", "void", "delete", "throw", "else", "do", "new", "await", "yield", "of", "extends", "default"].contains(&l.t.as_str())));
        let k = if piece.starts_with("/*!") { K::Lic } else if c == '"' || c == '\'' { K::Str } else if c == '`' { K::Tmpl }
            else if c.is_ascii_digit() || (c == '.' && piece.len() > 1 && piece.as_bytes()[1].is_ascii_digit()) { K::Num }
            else if is_id(c) { K::Word } else if c == '/' && piece.len() > 1 && !(piece == "/=" && prev_word) { K::Regex } else { K::Punct };
        p.lx.push(Lex { k, t: piece.into(), nonl: false, comment_before: com, gap_before: gap, name: false, at: p.text.len() });
        p.text.push_str(piece);
        com = false;
        gap = false;
    }
    p.trailing_comment = com;
    p
}
/// name, program in the notation above, should it be executed
pub const CASES: &[(&str, &str)] = &[
    ("line comment at the end of the source", "a¦=¦1¦;¦␣ // é last"),
    ("line comment is the whole source", "␣// é"),
    ("line comment ended by U+2028", "a¦=¦1¦;¦␣// x\u{2028}¦p¦(¦a¦)¦;"),
    ("line comment ended by U+2029", "␣//\u{2029}¦p¦(¦1¦)¦;"),
    ("line comment ended by a carriage return", "␣// x\r¦p¦(¦1¦)¦;"),
    ("block comment right after its start", "p¦(¦1¦␣/*/ x */¦)¦;¦␣/**/¦␣/***/"),
    ("division after a failed regex", "x¦␣ ¦=¦␣ ¦a¦␣ ¦/¦␣ ¦b¦;¦␣\n¦y¦=¦2¦;"),
    ("division after i++", "var¦␣ ¦i¦=¦1¦,¦g¦=¦2¦;¦p¦(¦i¦++¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦g¦)¦;"),
    ("division after i--", "var¦␣ ¦i¦=¦1¦,¦g¦=¦2¦;¦p¦(¦i¦--¦/¦␣  ¦2¦␣  ¦/¦g¦)¦;"),
    ("regex after return", "function¦␣ ¦q¦(¦)¦{¦return¦␣ ¦/a  \"b/g¦;¦}¦p¦(¦q¦(¦)¦)¦;"),
    ("regex after typeof", "p¦(¦typeof¦␣ ¦/'  a/¦)¦;"),
    ("regex after case", "switch¦(¦1¦)¦{¦case¦␣ ¦/'  a/¦:¦}"),
    ("regex after void", "p¦(¦void¦␣ ¦/'  a/¦)¦;"),
    ("regex after await and yield", "async¦␣ ¦function¦*¦␣ ¦f¦(¦)¦{¦await¦␣ ¦/'  a/¦;¦yield¦␣ ¦/'  b/¦;¦yield¦/'  c/¦;¦p¦.¦yield¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦3¦;¦}"),
    ("regex after of", "for¦(¦var¦␣ ¦x¦␣ ¦of¦␣ ¦/'  a/¦.¦exec¦(¦1¦)¦)¦{¦}¦for¦(¦x¦[¦0¦]¦of¦/'  b/¦.¦exec¦(¦1¦)¦)¦{¦}¦var¦␣ ¦of¦=¦6¦;¦p¦(¦of¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦3¦,¦typeof¦␣ ¦of¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦3¦,¦void¦␣ ¦of¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦3¦)¦;"),
    ("regex after extends", "try¦{¦class¦␣ ¦A¦␣ ¦extends¦␣ ¦/'  a/¦{¦}¦}¦catch¦(¦e¦)¦{¦}"),
    ("regex after delete", "p¦(¦delete¦␣ ¦/'  a/¦.¦x¦)¦;"),
    ("regex after ^", "p¦(¦1¦␣ ¦^¦␣ ¦/'  a/¦)¦;"),
    ("regex after ~", "p¦(¦~¦/'  a/¦)¦;"),
    ("regex after a spread", "p¦(¦...¦[¦1¦]¦,¦...¦/'  a/¦.¦source¦)¦;"),
    ("division after a property called in", "var¦␣ ¦o¦=¦{¦in¦:¦4¦}¦;¦p¦(¦o¦.¦in¦␣ ¦/¦␣ ¦2¦␣ ¦/¦␣ ¦1¦)¦;"),
    ("regex with a slash in a class", "p¦(¦/[/]  '/g¦.¦test¦(¦\"a\"¦)¦)¦;"),
    ("regex with an escaped bracket", "p¦(¦/\\[/¦.¦test¦(¦\"a  /b\"¦)¦)¦;"),
    ("regex after an arrow", "var¦␣ ¦f1¦=¦q¦=>¦/'  a/¦;"),
    ("numbers with leading zeros", "p¦(¦010¦,¦0¦,¦00¦,¦08¦,¦0.10¦,¦1.50¦)¦;"),
    ("words like numbers", "var¦␣ ¦inf¦=¦1¦,¦nan¦=¦2¦,¦infinity¦=¦3¦;¦p¦(¦inf¦+¦nan¦+¦infinity¦)¦;"),
    ("number with a final dot before CR", "p¦(¦1.¦␣\r¦/¦␣ ¦2¦/¦1¦)¦;"),
    ("huge numbers", "p¦(¦18446744073709551616¦,¦18446744073709551615¦,¦1e21¦)¦;"),
    ("huge numbers with a dot", "p¦(¦12345678901.5¦,¦12345678901.¦,¦18446744073709551616.25¦,¦99999999999999999999.¦,¦4294967296.¦/¦2¦/¦1¦,¦99999999999999999999999.¦␣ ¦in¦␣ ¦p¦,¦1_000.¦␣ ¦in¦␣ ¦p¦,¦1_000.¦/¦2¦/¦1¦)¦;"),
    ("endless numbers", "p¦(¦$9.5¦,¦$9.¦,¦$9¦,¦$9.¦␣ ¦in¦␣ ¦p¦)¦;"),
    ("plus plus", "var¦␣ ¦i¦=¦1¦,¦j¦=¦2¦;¦p¦(¦i¦␣ ¦+¦␣ ¦++¦j¦,¦i¦++¦␣ ¦+¦␣ ¦j¦,¦i¦␣ ¦+¦␣ ¦+¦j¦)¦;"),
    ("minus minus", "var¦␣ ¦i¦=¦1¦,¦j¦=¦2¦;¦p¦(¦i¦␣ ¦-¦␣ ¦--¦j¦,¦i¦--¦␣ ¦-¦␣ ¦j¦,¦i¦␣ ¦-¦␣/**/¦-¦j¦)¦;"),
    ("division by a regex", "p¦(¦1¦␣ ¦/¦␣ ¦/'  a/¦)¦;"),
    ("less than not minus minus", "var¦␣ ¦i¦=¦1¦;¦p¦(¦i¦␣ ¦<¦␣ ¦!¦--¦i¦)¦;"),
    ("number then property", "p¦(¦1¦␣ ¦.¦toString¦(¦)¦,¦1.5¦.¦toFixed¦(¦)¦,¦1.¦.¦toFixed¦(¦)¦)¦;"),
    ("number after ^ then property", "p¦(¦1¦^¦2¦␣ ¦.¦valueOf¦(¦)¦,¦~¦1¦␣ ¦.¦valueOf¦(¦)¦)¦;"),
    ("escaped identifier after let", "let¦␣ ¦\\u0061b¦=¦1¦;¦p¦(¦ab¦)¦;"),
    ("licence before in", "p¦(¦\"a\"¦␣ ¦/*! x */¦␣ ¦in¦␣ ¦{¦}¦)¦;"),
    ("licence before instanceof", "p¦(¦p¦␣ ¦/*!*/¦instanceof¦␣ ¦Object¦)¦;"),
    ("licence right before in", "p¦(¦p¦/*! x */¦in¦{¦}¦)¦;"),
    ("licence right before instanceof", "p¦(¦p¦/*!*/¦instanceof¦[¦]¦.¦constructor¦)¦;"),
    ("division then licence", "p¦(¦2¦␣ ¦/¦␣ ¦/*!l*/¦␣ ¦1¦)¦;"),
    ("licence at the end", "p¦(¦1¦)¦;¦/*! end */"),
    ("strings with everything", "p¦(¦\"a\\\"  // \\\\\"¦,¦'\\'/* '¦,¦\"\\\n  x\"¦,¦'\u{2028}'¦,¦''¦)¦;"),
    ("slashes in templates", "var¦␣ ¦q¦=¦'a//b'¦;¦p¦(¦`${q.replace(/[//]/g,1)}  ${q.replace(/\\/\\//g, 2)} ${/[/*]/.test(q)}`¦,¦`${ 4 / 2 / 1 }  x`¦)¦;"),
    ("templates in templates", "p¦(¦`a  ${`b  ${\"}`\"}  `}  // ${{a:1}.a}`¦)¦;"),
    ("template with a brace in a string", "p¦(¦`${'{'}  x`¦,¦1¦)¦;"),
    ("optional chaining and nullish", "p¦(¦null¦?.¦a¦,¦null¦??¦.5¦,¦1¦?¦.5¦:¦2¦)¦;"),
    ("arrow chain", "p¦(¦(¦a1¦=>¦b1¦=>¦a1¦>>>¦b1¦)¦(¦5¦)¦(¦1¦)¦)¦;"),
    ("for in with a string", "for¦(¦var¦␣ ¦k¦␣ ¦in¦␣ ¦'ab'¦)¦{¦p¦(¦k¦)¦;¦}"),
    ("for of with a number array", "for¦(¦var¦␣ ¦k¦␣ ¦of¦[¦1¦]¦)¦{¦p¦(¦k¦)¦;¦}"),
    ("private in object", "class¦␣ ¦A¦{¦#x¦=¦1¦;¦static¦␣ ¦t¦(¦o¦)¦{¦return¦␣ ¦#x¦␣ ¦in¦␣ ¦o¦;¦}¦}¦p¦(¦A¦.¦t¦(¦new¦␣ ¦A¦)¦)¦;"),
    ("loops without body", "var¦␣ ¦b¦=¦0¦;¦for¦(¦;¦b¦++¦<¦3¦;¦)¦;¦while¦(¦b¦--¦>¦0¦)¦;¦p¦(¦b¦)¦;"),
    ("in followed by ~", "p¦(¦0¦␣ ¦in¦~¦1¦)¦;"),
    ("regex after typeof after ~", "p¦(¦~¦typeof¦/'  a/¦)¦;"),
    ("in followed by a number with a leading dot", "p¦(¦0¦␣ ¦in¦.5¦)¦;"),
    ("return followed by a number with a leading dot", "function¦␣ ¦q¦(¦)¦{¦return¦.5¦;¦}¦p¦(¦q¦(¦)¦)¦;"),
    ("property of a number with a signed exponent", "var¦␣ ¦a¦=¦2¦;¦p¦(¦1e+3¦.¦in¦␣ ¦/¦␣ ¦a¦/¦␣ ¦1¦)¦;"),
    ("method called in after a star", "p¦(¦{¦*¦in¦(¦)¦{¦}¦}¦)¦;"),
    ("in after a postfix operator", "var¦␣ ¦i¦=¦1¦;¦p¦(¦i¦++¦in¦␣ ¦[¦1¦]¦)¦;"),
    ("semicolon before a string", "␣ ¦;¦␣ ¦\"use strict\"¦;¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦)¦;"),
    ("semicolons before a string", ";¦␣ ¦;¦␣/**/¦;¦␣ ¦/*!l*/¦\"use strict\"¦;¦p¦(¦function¦(¦)¦{¦return¦␣ ¦typeof¦␣ ¦this¦;¦}¦(¦)¦)¦;"),
    ("semicolons first", ";¦;¦␣ ¦;¦p¦(¦1¦)¦;¦;"),
];
/// Defects that are known and not repaired: (input, property, expected kind of failure is any).
pub const KNOWN: &[(&str, &str)] = &[
    ("known: regex after a closing parenthesis", "if¦(¦p¦)¦/a  '/¦.¦test¦(¦p¦)¦;"),
    ("known: regex after a block", "if¦(¦p¦)¦{¦}¦/a  '/¦.¦test¦(¦p¦)¦;"),
    ("known: quote in a comment inside a template", "p¦(¦`${/* ' */1}  `¦,¦1¦)¦;¦p¦(¦2¦)¦;"),
    ("known: brace in a regex inside a template", "p¦(¦`${/{/.test('')}  `¦,¦\"`\"¦)¦;"),
    ("known: regex after of behind a pattern", "for¦(¦var¦{¦a¦}¦of¦/a  '/¦.¦exec¦(¦p¦)¦)¦{¦}"),
    ("known: await as a name", "var¦␣ ¦await¦=¦8¦;¦p¦(¦await¦␣ ¦/¦␣ ¦2¦,¦'  / '¦)¦;"),
    ("known: yield as a name", "var¦␣ ¦yield¦=¦8¦;¦p¦(¦yield¦␣ ¦/¦␣ ¦2¦,¦'  / '¦)¦;"),
    ("known: hashbang line", "#¦!¦␣/usr/bin/env node\n¦p¦(¦1¦)¦;"),
];
fn fixed(f: fn(&mut Ctx, &Program) -> Res, known: &[usize]) -> Vec<Fixed> {
    let mut v: Vec<Fixed> = CASES.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| { let p = parse_dsl(t); cx.announce_fixed(p.text.clone()); f(cx, &p) }) as _)).collect();
    for k in known { let (n, t) = KNOWN[*k]; v.push((n, Box::new(move |cx: &mut Ctx| { let p = parse_dsl(t); cx.announce_fixed(p.text.clone()); f(cx, &p) }) as _)) }
    v
}
pub fn fixed_c07() -> Vec<Fixed> {
    let mut v = fixed(|cx, p| check_c07(cx, p, true), &[0, 1, 2, 3, 4, 5, 6]);
    v.push(("known: hashbang line", Box::new(|cx| {
        let t = "#!/usr/bin/env node\np(1);";
        cx.announce_fixed(t.into());
        let o = minify(cx, t)?;
        execute(cx, t, &o, false)
    })));
    v
}
pub fn fixed_c08() -> Vec<Fixed> { fixed(check_c08, &[0, 1, 2, 3, 4, 5, 6]) }
pub fn fixed_c09() -> Vec<Fixed> { fixed(check_c09, &[]) }
pub fn fixed_c10() -> Vec<Fixed> { fixed(check_c10, &[]) }
pub fn fixed_c14() -> Vec<Fixed> {
    let mut v = vec![];
    for (n, t) in CASES {
        v.push((*n, Box::new(move |cx: &mut Ctx| { let p = parse_dsl(t); cx.announce_fixed(p.text.clone()); check_c14(cx, &p) }) as _))
    }
    v
}
