//! Token lists: C13 (cleaning and replacing) and C15 (variable positions).
use crate::eng::*;
use crate::jsgen::*;
use crate::src::Src;
use minifier::js::{Condition, Keyword, Operation, ReservedChar, Token, Tokens};
use std::cell::RefCell;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

const CHARS: &str = ",(){}[]:;.'\"!?/%*-+=\\ \t\n<>|&`^~";
const CONDS: &[Condition] = &[Condition::And, Condition::Or, Condition::DifferentThan, Condition::SuperDifferentThan, Condition::EqualTo, Condition::SuperEqualTo,
    Condition::SuperiorThan, Condition::SuperiorOrEqualTo, Condition::InferiorThan, Condition::InferiorOrEqualTo];
const OPS: &[Operation] = &[Operation::Addition, Operation::AdditionEqual, Operation::Subtract, Operation::SubtractEqual, Operation::Multiply, Operation::MultiplyEqual,
    Operation::Divide, Operation::DivideEqual, Operation::Modulo, Operation::ModuloEqual, Operation::Equal];

fn token<'a>(s: &mut Src) -> Token<'a> {
    match s.below(16) {
        0 | 1 => Token::Char(ReservedChar::SemiColon),
        2 => Token::Char(ReservedChar::CloseCurlyBrace),
        3 => Token::Char(s.pick(&[ReservedChar::Space, ReservedChar::Tab, ReservedChar::Backline])),
        4 => Token::Comment(s.pick(&["// x", "/* y */", "/**/", "//é"])),
        5 => Token::License(s.pick(&["", " l ", "é"])),
        6 | 7 => { let k: Vec<char> = CHARS.chars().collect(); Token::Char(ReservedChar::try_from(s.pick(&k)).unwrap()) }
        8 => Token::Keyword(Keyword::try_from(s.pick(KEYWORDS)).unwrap()),
        9 => Token::Other(s.pick(&["a", "b", "éé", "x1", "\u{a0}", "a b", "1e3", "010"])),
        10 => Token::String(s.pick(&["\"a\"", "'b'", "`c`", "\"\"", "';'"])),
        11 => Token::Regex { regex: s.pick(&["a", "[/]", ""]), is_global: s.chance(1, 2), is_interactive: s.chance(1, 2) },
        12 => Token::Condition(s.pick(CONDS)),
        13 => Token::Operation(s.pick(OPS)),
        14 => if s.chance(1, 2) { Token::Number(s.hot(1 << 30)) } else { Token::FloatingNumber(s.pick(&["1.5", ".5", "1.", "99999999999999999999"])) },
        _ => match s.below(2) { 0 => Token::CreatedVar("r_aa".into()), _ => Token::CreatedVarDecl("var r_aa=\"x\"".into()) },
    }
}
/// A token list, of a program or made up; calls f with it.
fn with_list<T>(s: &mut Src, cx: &mut Ctx, f: impl FnOnce(&mut Src, &mut Ctx, Vec<Token>) -> Result<T, String>) -> Result<T, String> {
    if s.chance(1, 2) {
        let p = program(s, Opts { stmts: 3, ..Opts::default() });
        cx.announce(s, p.text.clone());
        cx.ev("token lists of programs");
        let t = cx.guard("simple_minify", || sutapi::js_tokens(&p.text))?.map_err(|e| format!("a valid program is rejected: {e}"))?;
        f(s, cx, t.0)
    } else {
        let n = s.size(12, 200 * s.scale);
        let mut v: Vec<Token> = vec![];
        let few = s.chance(1, 2);
        while v.len() < n {
            let t = if few { match s.below(6) { 0 | 1 => Token::Char(ReservedChar::SemiColon), 2 => Token::Char(ReservedChar::CloseCurlyBrace), 3 => Token::Char(ReservedChar::Backline), 4 => Token::Comment("// x"), _ => token(s) } } else { token(s) };
            v.push(t);
        }
        cx.announce(s, format!("{v:?}"));
        cx.ev("token lists made up");
        f(s, cx, v)
    }
}
fn hash(t: &Token, salt: u32) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (format!("{t:?}"), salt).hash(&mut h);
    h.finish()
}
fn show(v: &[Token]) -> String { let mut o = format!("{v:?}"); if o.len() > 1500 { let k = (0..1500).rev().find(|k| o.is_char_boundary(*k)).unwrap(); o.truncate(k); o.push('…') } o }
fn trivia(t: &Token) -> bool { matches!(t, Token::Comment(_)) || matches!(t, Token::Char(ReservedChar::Space | ReservedChar::Tab | ReservedChar::Backline)) }
const SEMI: Token<'static> = Token::Char(ReservedChar::SemiColon);
const CLOSE: Token<'static> = Token::Char(ReservedChar::CloseCurlyBrace);
const SPACE: Token<'static> = Token::Char(ReservedChar::Space);

/// What may and must happen to each token; `end`: may a semicolon at the end or before `}` go?
fn explain(tin: &[Token], out: &[Token], asked: &dyn Fn(&Token) -> bool, lone_semi: bool, spaces: bool) -> Res {
    // states: output positions reachable after the tokens so far
    let gone: Vec<bool> = tin.iter().map(|t| trivia(t) && asked(t)).collect();
    let mut cur = vec![0usize];
    let mut skipped = false;
    for (i, t) in tin.iter().enumerate() {
        if gone[i] { skipped = true; continue }
        let next = (i + 1..tin.len()).find(|j| !gone[*j]).map(|j| &tin[j]);
        let mut nxt = vec![];
        for &o in &cur {
            if *t == SEMI && asked(t) && (o == 0 || (lone_semi && (next.is_none() || next == Some(&CLOSE)))) { nxt.push(o) }
            if out.get(o) == Some(t) { nxt.push(o + 1) }
            if spaces && skipped && o > 0 && out.get(o) == Some(&SPACE) && out.get(o + 1) == Some(t) { nxt.push(o + 2) }
        }
        nxt.sort(); nxt.dedup();
        if nxt.is_empty() { return Err(format!("token {i} {t:?} is not kept as it is and in its place (or what may go has been kept before it): {} became {}", show(tin), show(out))) }
        cur = nxt;
        skipped = false;
    }
    if cur.contains(&out.len()) { Ok(()) } else { Err(format!("tokens from nowhere at the end: {} became {}", show(tin), show(out))) }
}
pub fn check_c13(cx: &mut Ctx, v: &[Token], salt: u32, den: u64) -> Res {
    let list = || Tokens(v.to_vec());
    let f = |t: &Token| hash(t, salt) % 16 >= den;
    let out = cx.guard("clean_tokens", || sutapi::clean(list()))?;
    explain(v, &out.0, &|_| true, false, true).map_err(|e| format!("clean_tokens: {e}"))?;
    let kept = RefCell::new(false);
    let out = cx.guard("clean_tokens_except", || sutapi::clean_except(list(), &|t| { let r = f(t); if !r { *kept.borrow_mut() = true } r }))?;
    explain(v, &out.0, &f, true, false).map_err(|e| format!("clean_tokens_except: {e}"))?;
    if *kept.borrow() { cx.ev("lists where the callback kept a token") }
    cx.evn("tokens removed", (v.len() - out.0.len().min(v.len())) as u64);
    for (i, t) in v.iter().enumerate() {
        for n in [None, v.get(i + 1), Some(&CLOSE)] {
            let may = trivia(t) || (*t == SEMI && n == Some(&CLOSE));
            let a = cx.guard("clean_token", || sutapi::clean_one(t, &n))?;
            if a != !may && !(*t == SEMI && a) { return Err(format!("clean_token({t:?}, {n:?}) is {a}")) }
            let b = cx.guard("clean_token_except", || sutapi::clean_one_except(t, &n, &f))?;
            let must_keep = !may || !f(t);
            if b != must_keep && !(*t == SEMI && b) { return Err(format!("clean_token_except({t:?}, {n:?}) is {b} with a callback that says {}", f(t))) }
        }
    }
    // replacing
    let g = |t: &Token| -> Option<Token<'static>> {
        match hash(t, salt ^ 1) % 8 { 0 => Some(Token::Other("N")), 1 => Some(SPACE), 2 => Some(Token::String("'new'")), _ => None }
    };
    let calls: RefCell<Vec<String>> = RefCell::new(vec![]);
    let out = cx.guard("replace_tokens_with", || sutapi::replace_all(list(), &|t| { calls.borrow_mut().push(format!("{t:?}")); g(t) }))?;
    if out.0.len() != v.len() { return Err(format!("replace_tokens_with: {} tokens became {}", v.len(), out.0.len())) }
    for (i, t) in v.iter().enumerate() {
        let want = g(t).unwrap_or_else(|| t.clone());
        if out.0[i] != want { return Err(format!("replace_tokens_with: token {i} {t:?} became {:?} instead of {want:?}", out.0[i])) }
        let one = cx.guard("replace_token_with", || sutapi::replace_one(t.clone(), &|t| g(t)))?;
        if one != want { return Err(format!("replace_token_with: {t:?} became {one:?} instead of {want:?}")) }
        if g(t).is_some() { cx.ev("tokens replaced") }
    }
    let calls = calls.into_inner();
    let want: Vec<String> = v.iter().map(|t| format!("{t:?}")).collect();
    if calls != want { return Err(format!("replace_tokens_with asked {} times for {} tokens, or in another order", calls.len(), v.len())) }
    // passing a list through a function or an iterator
    let l = list().apply(|t| t);
    if l.0 != v || list().into_iter().collect::<Vec<_>>() != v || Tokens::from(v).0 != v || Tokens::from(v.to_vec()).0 != v { return Err("the list changes on its way through apply, into_iter or from".into()) }
    cx.nontrivial = v.len() > 1;
    Ok(())
}
pub fn c13(s: &mut Src, cx: &mut Ctx) -> Res {
    let salt = s.bits();
    let den = s.pick(&[0u64, 4, 8, 12, 16]);
    with_list(s, cx, |_, cx, v| check_c13(cx, &v, salt, den))
}
pub fn fixed_c13() -> Vec<Fixed> {
    let c: &[(&str, &str)] = &[
        ("semicolons first", ";; ;\n;a;b;"), ("only semicolons", ";;;"), ("semicolons before braces", "{a;}{a;;}{a; }{a;/**/}"), ("trivia everywhere", " /*a*/ a /*b*/ ; /*c*/ } // d\n ; "),
        ("loops without body", "for(;;);}while(1);"), ("kept pairs", "a + + b - - c / /x/ 1 .x <  !--y /*!l*/ let  \\u0061"), ("empty", ""), ("trivia only", " \n/**/"),
    ];
    c.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| {
        cx.announce_fixed(t.to_string());
        let v = sutapi::js_tokens(t).map_err(|e| e.to_string())?.0;
        for salt in 0..200 { check_c13(cx, &v, salt, (salt % 5 * 4) as u64)? }
        Ok(())
    }) as _)).collect()
}

// ---- C15 -------------------------------------------------------------------------------

fn expected(v: &[Token], pos: usize) -> Option<(usize, Option<usize>)> {
    let sig = |t: &Token| !trivia(t) && !t.is_license();
    let after = |i: usize| (i + 1..v.len()).find(|j| sig(&v[*j]));
    let name = match v.get(pos)? {
        Token::Keyword(Keyword::Var | Keyword::Let) => after(pos)?,
        Token::Other(_) => { let b = (0..pos).rev().find(|j| sig(&v[*j]))?; if !matches!(v[b], Token::Char(ReservedChar::Comma) | Token::Keyword(Keyword::Var | Keyword::Let)) { return None } pos }
        _ => return None,
    };
    if !matches!(v[name], Token::Other(_)) { return None }
    let Some(eq) = after(name) else { return Some((name, None)) };
    if v[eq] != Token::Operation(Operation::Equal) { return Some((name, None)) }
    Some((name, after(eq).filter(|j| matches!(v[*j], Token::String(_) | Token::Other(_) | Token::Regex { .. } | Token::Number(_) | Token::FloatingNumber(_)))))
}
pub fn check_c15(cx: &mut Ctx, v: &[Token]) -> Res {
    let t = Tokens(v.to_vec());
    for pos in (0..v.len() + 3).chain([usize::MAX, usize::MAX - 1]) {
        let got = cx.guard("get_variable_name_and_value_positions", || sutapi::var_positions(&t, pos))?;
        let want = expected(v, pos);
        if got != want { return Err(format!("at {pos} ({:?}) the answer is {got:?} instead of {want:?}; tokens from there: {}", v.get(pos), show(&v[pos.min(v.len())..v.len().min(pos.saturating_add(12))]))) }
        match got { None => cx.ev("positions without answer"), Some((_, None)) => cx.ev("names without value"), _ => cx.ev("names with value") }
        if got.is_some() { cx.nontrivial = true }
    }
    Ok(())
}
fn decls(s: &mut Src) -> Vec<Token<'static>> {
    let mut v = vec![];
    let gap = |s: &mut Src, v: &mut Vec<Token<'static>>| { for _ in 0..s.pick(&[0, 0, 1, 1, 2, 5]) { v.push(match s.below(8) { 0 => Token::Comment("/* c */"), 1 => Token::License("l"), 2 => Token::Char(ReservedChar::Tab), 3 => Token::Char(ReservedChar::Backline), 4 => Token::Comment("// x"), _ => SPACE }) } };
    for _ in 0..1 + s.below(4) {
        gap(s, &mut v);
        v.push(Token::Keyword(s.pick(&[Keyword::Var, Keyword::Let, Keyword::Var, Keyword::Let, Keyword::Const, Keyword::Return])));
        for j in 0..1 + s.below(3) {
            if j > 0 { v.push(Token::Char(ReservedChar::Comma)) }
            gap(s, &mut v);
            v.push(if s.chance(1, 8) { token(s) } else { Token::Other(s.pick(&["a", "b", "x1"])) });
            gap(s, &mut v);
            match s.below(8) {
                0 | 1 => {}
                2 => v.push(token(s)),
                k => {
                    if k == 7 && s.chance(1, 2) { v.push(Token::Operation(s.pick(OPS))) } else { v.push(Token::Operation(Operation::Equal)) }
                    gap(s, &mut v);
                    v.push(match s.below(6) { 0 => Token::String("\"x\""), 1 => Token::Number(3), 2 => Token::FloatingNumber("1.5"), 3 => Token::Regex { regex: "a", is_global: true, is_interactive: false }, 4 => Token::Other("y"), _ => token(s) });
                    if s.chance(1, 4) { gap(s, &mut v); let t = token(s); v.push(t); v.push(Token::Other("z")) }
                    gap(s, &mut v);
                }
            }
        }
        if s.chance(4, 5) { v.push(SEMI) }
    }
    if s.chance(1, 3) { let k = s.below(v.len() + 1); v.truncate(k) }
    v
}
pub fn c15(s: &mut Src, cx: &mut Ctx) -> Res {
    let clean = s.chance(1, 3);
    if s.chance(1, 2) {
        let v = decls(s);
        cx.announce(s, format!("{v:?}"));
        cx.ev("lists of declarations");
        return check_c15(cx, &v);
    }
    with_list(s, cx, |_, cx, v| {
        if v.len() > 3000 { return Ok(()) }
        if clean { let v = sutapi::clean(Tokens(v)); return check_c15(cx, &v.0) }
        check_c15(cx, &v)
    })
}
pub fn fixed_c15() -> Vec<Fixed> {
    let c: &[(&str, &str)] = &[
        ("layouts", "var a=1,b = 'x' ,\n/*c*/c/*!l*/=/*d*/\n/re/g,d;let e;var f;let\ng = h, i=1.5;let j = (1);"),
        ("not to be mixed up", "var a;b=1;var c;var d=2;var e,f=3;let g==4;let h+=5;x,y=6;(z,w)=7;var"),
        ("a name at the end", "var a"), ("an equal sign at the end", "var a ="), ("patterns", "var {a}=b;let [c]=d;var e={f:1,g:2};"), ("empty", ""),
    ];
    c.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| {
        cx.announce_fixed(t.to_string());
        let v = sutapi::js_tokens(t).map_err(|e| e.to_string())?;
        check_c15(cx, &v.0)?;
        check_c15(cx, &sutapi::clean(v).0)
    }) as _)).collect()
}
