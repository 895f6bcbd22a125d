//! Real files of this machine as inputs. The index names files and their contents' hashes; one which is
//! missing or has other contents is left out.
use crate::jsgen::{Lex, Program, K};
use crate::src::Src;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::OnceLock;

const INDEX: &str = include_str!("../corpus_index.txt");
fn index(kind: &str) -> &'static [(u64, &'static str)] {
    static M: OnceLock<HashMap<&'static str, Vec<(u64, &'static str)>>> = OnceLock::new();
    let m = M.get_or_init(|| {
        let mut m: HashMap<&str, Vec<_>> = HashMap::new();
        for l in INDEX.lines() {
            let mut f = l.splitn(3, '\t');
            let (Some(k), Some(h), Some(p)) = (f.next(), f.next().and_then(|h| u64::from_str_radix(h, 16).ok()), f.next()) else { continue };
            m.entry(k).or_default().push((h, p));
        }
        m
    });
    m.get(kind).map_or(&[], |v| v)
}
pub fn read(path: &str) -> Option<String> { std::fs::read_to_string(path).ok() }
/// One of the files of a kind.
pub fn text(s: &mut Src, kind: &str) -> Option<String> {
    let v = index(kind);
    let (h, p) = *v.get(s.below(v.len()))?;
    read(p).filter(|t| crate::eng::fnv(t.as_bytes()) == h)
}

pub struct File { pub text: String, pub lx: Vec<Lex>, /// n: a name, m: a module's name, d: a directive
    pub flag: Vec<char>, pub lists: Vec<Vec<(usize, usize)>>, pub module: bool }
thread_local! { static FILES: RefCell<HashMap<usize, Option<Rc<File>>>> = RefCell::default(); }
pub fn js(s: &mut Src) -> Option<Rc<File>> {
    let v = index("js");
    let i = s.below(v.len());
    let (h, p) = *v.get(i)?;
    FILES.with(|f| {
        let mut f = f.borrow_mut();
        if f.len() > 200 { f.clear() }
        f.entry(i).or_insert_with(|| read(p).filter(|t| crate::eng::fnv(t.as_bytes()) == h).and_then(|_| lex(p)).map(Rc::new)).clone()
    })
}
fn unjson(t: &str) -> Option<String> {
    let mut o = String::with_capacity(t.len());
    let mut it = t.strip_prefix('"')?.strip_suffix('"')?.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue }
        o.push(match it.next()? {
            'n' => '\n', 'r' => '\r', 't' => '\t', 'b' => '\x08', 'f' => '\x0c',
            'u' => { let h: String = (0..4).filter_map(|_| it.next()).collect(); char::from_u32(u32::from_str_radix(&h, 16).ok()?)? }
            c => c,
        });
    }
    Some(o)
}
/// The tokens of a file, as acorn sees them; semicolons that were left out are written out.
pub fn lex(path: &str) -> Option<File> {
    let r = crate::node::ask_for(&format!("{{\"f\":{}}}\n", crate::node::js_string(path)))?;
    let mut f = r.strip_prefix("lex\t")?.split('\t');
    let text = unjson(f.next()?)?;
    if text.starts_with(['\u{feff}', '#']) { return None }
    let mut byte = Vec::with_capacity(text.len() + 1);
    for (i, c) in text.char_indices() { for _ in 0..c.len_utf16() { byte.push(i) } }
    byte.push(text.len());
    let (mut lx, mut flag): (Vec<Lex>, Vec<char>) = (vec![], vec![]);
    let mut last = 0;
    for w in f.next()?.split(' ').filter(|w| !w.is_empty()) {
        let mut c = w.chars();
        let k = match c.next()? { 's' => K::Str, 'd' => K::Num, 't' => K::Tmpl, 'r' => K::Regex, 'w' => K::Word, _ => K::Punct };
        let fl = c.next()?;
        let nl = c.next()? == 'n';
        let (a, n) = c.as_str().split_once('+')?;
        let (a, n): (usize, usize) = (a.parse().ok()?, n.parse().ok()?);
        let (a, b) = (*byte.get(a)?, *byte.get(a + n)?);
        let gap = &text[last..a];
        // comments of HTML in a script
        if gap.contains("<!--") || gap.contains("-->") && !gap.contains('/') { return None }
        let t = &text[a..b];
        let held = matches!(t, "++" | "--" | "=>" | "function") || lx.last().is_some_and(|l| matches!(&*l.t, "return" | "break" | "continue" | "throw" | "yield" | "async" | "using" | "await" | "static" | "get" | "set" | "accessor"));
        lx.push(Lex { k, t: t.into(), nonl: held && !nl, comment_before: gap.contains('/'), gap_before: !gap.is_empty(), name: fl != '-', at: a });
        flag.push(fl);
        last = b;
    }
    let mut lists = vec![];
    for l in f.next()?.split(';').filter(|l| !l.is_empty()) {
        lists.push(l.split(',').map(|r| { let (a, b) = r.split_once('-')?; let (a, b): (usize, usize) = (a.parse().ok()?, b.parse().ok()?); (b <= lx.len() && a < b).then_some((a, b)) }).collect::<Option<Vec<_>>>()?);
    }
    if lists.is_empty() { return None }
    Some(File { text, lx, flag, lists, module: f.next()? == "m" })
}
impl File {
    /// The file as it is, its licence comments being tokens.
    pub fn program(&self) -> Program {
        let mut p = Program { module: self.module, real: 1, text: self.text.clone(), ..Default::default() };
        let mut at = 0;
        for i in 0..=self.lx.len() {
            let e = self.lx.get(i).map_or(self.text.len(), |l| l.at);
            let (mut com, mut gap, mut k) = (false, false, at);
            while k < e {
                let rest = &self.text[k..e];
                let n = if rest.starts_with("//") { rest.find(['\n', '\r', '\u{2028}', '\u{2029}']).unwrap_or(rest.len()) } else if rest.starts_with("/*") { rest[2..].find("*/").map_or(rest.len(), |n| n + 4) } else { rest.chars().next().unwrap().len_utf8() };
                if rest.starts_with("/*!") {
                    p.lx.push(Lex { k: K::Lic, t: rest[..n].into(), nonl: false, comment_before: com, gap_before: gap, name: false, at: k });
                    (com, gap) = (false, false);
                } else {
                    if rest.starts_with("//") || rest.starts_with("/*") { com = true; p.comments += 1 }
                    gap = true;
                }
                k += n;
            }
            match self.lx.get(i) {
                Some(l) => { p.lx.push(Lex { comment_before: com, gap_before: gap, ..l.clone() }); at = e + l.t.len() }
                None => p.trailing_comment = com,
            }
        }
        p
    }
    /// Some statements that follow each other, anywhere in the file: their tokens, and whether they are a module's.
    pub fn slice(&self, s: &mut Src, names: bool, banned: &[String]) -> Option<(Vec<Lex>, bool)> {
        let k = s.below(self.lists.len());
        let l = &self.lists[k];
        let i = s.below(l.len());
        let n = 1 + s.below(4.min(l.len() - i));
        let (a, mut b) = (l[i].0, l[i].1);
        for x in &l[i + 1..i + n] { if x.1 - a < 500 { b = x.1 } }
        if b - a > 1500 || self.lx[a].k == K::Regex { return None }
        let mut v = self.lx[a..b].to_vec();
        let mut module = false;
        for (j, x) in v.iter_mut().enumerate() {
            if x.k == K::Word && banned.contains(&x.t) { return None }
            match self.flag[a + j] { 'm' => module = true, 'd' if l.iter().any(|y| y.0 == a + j) => x.name = false, 'n' | 'd' if !names => return None, _ => {} }
        }
        let m = module || matches!(&*v[0].t, "import" | "export") && v.get(1).is_some_and(|x| x.t != "(" && x.t != ".");
        Some((v, m))
    }
}

/// Reads paths, says which files the checks of their kind accept: what `tools/corpus.sh` makes the index of.
pub fn sort(kind: &str) {
    use crate::eng::Ctx;
    use crate::{p_agg, p_html, p_js};
    let dir = std::env::temp_dir().join(format!("vmon-corpus-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut cx = Ctx::new(dir.to_str().unwrap(), 1, false);
    for path in std::io::stdin().lines().map_while(Result::ok) {
        let Some(t) = read(&path) else { continue };
        let mut all: Vec<(&str, Result<(), String>)> = vec![];
        match kind {
            "js" => {
                let Some(f) = lex(&path) else { println!("NOLEX\t{path}"); continue };
                let p = f.program();
                all.push(("C07", p_js::check_c07(&mut cx, &p, false)));
                all.push(("C08", p_js::check_c08(&mut cx, &p)));
                all.push(("C09", p_js::check_c09(&mut cx, &p)));
                all.push(("C10", p_js::check_c10(&mut cx, &p)));
                all.push(("C14", p_js::check_c14(&mut cx, &p)));
                all.push(("C11", p_agg::check_c11(&mut cx, &p, p_agg::Order::AggClean, p_agg::Sep::None, false)));
                all.push(("C11b", p_agg::check_c11(&mut cx, &p, p_agg::Order::CleanAgg, p_agg::Sep::None, false)));
                if !f.flag.iter().any(|f| matches!(f, 'n' | 'd')) && !f.lx.iter().any(|l| l.t == "R") { all.push(("C12", p_agg::check_c12(&mut cx, &p, "R", p_agg::Order::CleanAgg, p_agg::Sep::None, None, false))) }
            }
            "html" => {
                if let Err(e) = p_html::tokens(&t) { println!("NOLEX {e}\t{path}"); continue }
                all.push(("C21", p_html::check_c21(&mut cx, &t)));
                all.push(("C22", p_html::check_c22(&mut cx, &t)));
                all.push(("C27", p_html::check_c27(&mut cx, &t)));
            }
            "css" => {
                if crate::node::compare_css(&t, &t) != "same" { println!("NOLEX\t{path}"); continue }
                all.push(("C16", crate::p_css::real_c16(&mut cx, &t)));
                all.push(("C19", crate::p_css::real_c19(&mut cx, &t)));
            }
            _ => {
                let Some(d) = crate::p_json::of(t.clone()) else { println!("NOLEX\t{path}"); continue };
                all.push(("C03", crate::p_json::check_c03(&mut cx, &d)));
                all.push(("C04", crate::p_json::check_c04(&mut cx, &d)));
            }
        }
        match all.iter().find(|r| r.1.is_err()) {
            Some((id, r)) => println!("BAD {id} {}\t{path}", r.as_ref().unwrap_err().replace(['\n', '\t'], " ")),
            None => println!("{kind}\t{:x}\t{path}", crate::eng::fnv(t.as_bytes())),
        }
    }
    let _ = std::fs::remove_dir_all(dir);
}
