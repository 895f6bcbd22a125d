//! HTML properties C21, C22, C27: generated documents, read before and after by a reference tokenizer.
use crate::eng::*;
use crate::p_js::show;
use crate::src::Src;

fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\x0c' | '\r') }
fn collapse(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() { if ws(c) { if !o.ends_with(' ') { o.push(' ') } } else { o.push(c) } }
    o
}
/// As `collapse`, outside of the strings of a style sheet.
fn collapse_style(t: &str) -> String {
    let mut o = String::new();
    let mut q: Option<char> = None;
    for c in t.chars() {
        match q {
            Some(x) => { o.push(c); if c == x { q = None } }
            None if ws(c) => if !o.ends_with(' ') { o.push(' ') },
            None => { o.push(c); if c == '"' || c == '\'' { q = Some(c) } }
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attr { pub name: String, pub value: Option<String>, pub quote: Option<char> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item { Doctype(String), Start { name: String, attrs: Vec<Attr>, slash: bool }, End(String), Text(String), Raw { name: String, code: String }, Comment(String) }

/// The reference tokenizer: HTML's own rules, on documents without parse errors.
pub fn tokens(t: &str) -> Result<Vec<Item>, String> {
    let c: Vec<char> = t.chars().collect();
    let st = |i: usize, w: &str| { let n = w.chars().count(); i + n <= c.len() && c[i..i + n].iter().collect::<String>().eq_ignore_ascii_case(w) };
    let cut = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if st(i, "<!--") {
            let e = (i + 4..c.len()).find(|j| st(*j, "-->")).ok_or("unclosed comment")?;
            v.push(Item::Comment(cut(i + 4, e)));
            i = e + 3;
        } else if st(i, "<!") {
            let e = (i..c.len()).find(|j| c[*j] == '>').ok_or("unclosed declaration")?;
            v.push(Item::Doctype(cut(i, e + 1)));
            i = e + 1;
        } else if c[i] == '<' && c.get(i + 1).is_some_and(|x| x.is_ascii_alphabetic() || *x == '/' && c.get(i + 2).is_some_and(|x| x.is_ascii_alphabetic())) {
            let end = c[i + 1] == '/';
            let mut j = i + 1 + end as usize;
            let s = j;
            while j < c.len() && !ws(c[j]) && c[j] != '>' && c[j] != '/' { j += 1 }
            let name = cut(s, j);
            let (mut attrs, mut slash) = (vec![], false);
            loop {
                while j < c.len() && ws(c[j]) { j += 1 }
                match c.get(j) {
                    None => return Err(format!("the tag {} doesn't end", show(&cut(i, c.len()), 60))),
                    Some('>') => { j += 1; break }
                    Some('/') => { slash = c.get(j + 1) == Some(&'>'); j += 1; continue }
                    _ => {}
                }
                let s = j;
                j += 1;
                while j < c.len() && !ws(c[j]) && !matches!(c[j], '>' | '/' | '=') { j += 1 }
                let name = cut(s, j);
                let mut k = j;
                while k < c.len() && ws(c[k]) { k += 1 }
                let (mut value, mut quote) = (None, None);
                if c.get(k) == Some(&'=') {
                    j = k + 1;
                    while j < c.len() && ws(c[j]) { j += 1 }
                    let s = j;
                    if let Some(q @ ('"' | '\'')) = c.get(j) {
                        let e = (j + 1..c.len()).find(|j| c[*j] == *q).ok_or("unclosed attribute value")?;
                        value = Some(cut(s + 1, e));
                        quote = Some(*q);
                        j = e + 1;
                        if c.get(j).is_some_and(|x| !ws(*x) && *x != '>' && *x != '/') { return Err(format!("{} right after the value of {name}", c[j])) }
                    } else {
                        while j < c.len() && !ws(c[j]) && c[j] != '>' { if matches!(c[j], '"' | '\'' | '<' | '=' | '`') { return Err(format!("{} in an unquoted value", c[j])) } j += 1 }
                        value = Some(cut(s, j));
                    }
                }
                attrs.push(Attr { name, value, quote });
            }
            let low = name.to_ascii_lowercase();
            if end { v.push(Item::End(name)) } else { v.push(Item::Start { name: name.clone(), attrs, slash }) }
            i = j;
            if !end && matches!(&*low, "script" | "style" | "textarea" | "title") {
                let tag = format!("</{low}");
                let e = (i..c.len()).find(|j| st(*j, &tag) && c.get(*j + tag.len()).is_some_and(|x| ws(*x) || *x == '>' || *x == '/')).ok_or("unclosed raw text")?;
                v.push(Item::Raw { name: low, code: cut(i, e) });
                i = e;
            }
        } else {
            let s = i;
            i += 1;
            while i < c.len() && c[i] != '<' { i += 1 }
            let t = cut(s, i);
            if let Some(Item::Text(x)) = v.last_mut() { x.push_str(&t) } else { v.push(Item::Text(t)) }
        }
    }
    Ok(v)
}
const OMIT_END: &[&str] = &["area", "base", "body", "br", "col", "colgroup", "dd", "dt", "head", "hr", "html", "img", "input", "li", "link", "meta", "option", "param", "tbody", "td", "tfoot", "th", "thead", "tr", "basefont", "isindex"];
const OMIT_START: &[&str] = &["body", "head", "html", "tbody"];
fn conditional(c: &str) -> bool { c.starts_with('[') || c.starts_with("<![endif]") }
fn plain(v: &str) -> bool { !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '.')) }

/// What a document means: comments and omissible tags aside, whitespace in text reduced to where it stands.
pub fn canon(v: &[Item]) -> Vec<Item> {
    let mut o: Vec<Item> = vec![];
    for x in v {
        let x = match x {
            Item::Comment(c) if !conditional(c) => continue,
            Item::Comment(c) => Item::Comment(collapse(c)),
            Item::Doctype(d) => Item::Doctype(collapse(d)),
            Item::End(n) if OMIT_END.contains(&&**n) => continue,
            Item::Start { name, attrs, slash: false } if attrs.is_empty() && OMIT_START.contains(&&**name) => continue,
            Item::Start { name, attrs, slash } => {
                let def = match &*name.to_ascii_lowercase() { "script" => Some("text/javascript"), "style" => Some("text/css"), _ => None };
                let attrs = attrs.iter().filter(|a| !(def.is_some() && a.name == "type" && a.value.as_deref() == def)).cloned().collect();
                Item::Start { name: name.clone(), attrs, slash: *slash }
            }
            Item::Raw { name, code } => Item::Raw { name: name.clone(), code: match &**name { "script" => code.trim_matches(ws).to_string(), "style" => collapse_style(code.trim_matches(ws)), "title" => collapse(code), _ => code.clone() } },
            Item::Text(t) => { if let Some(Item::Text(p)) = o.last_mut() { let n = collapse(&format!("{p}{t}")); *p = n; continue } Item::Text(collapse(t)) }
            x => x.clone(),
        };
        o.push(x);
    }
    if let Some(Item::Text(t)) = o.first_mut() { *t = t.trim_start_matches(' ').into(); if t.is_empty() { o.remove(0); } }
    if let Some(Item::Text(t)) = o.last_mut() { *t = t.trim_end_matches(' ').into(); if t.is_empty() { o.pop(); } }
    o
}
fn same(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Item::Start { name, attrs, slash }, Item::Start { name: n2, attrs: a2, slash: s2 }) => name == n2 && slash == s2 && attrs.len() == a2.len()
            && attrs.iter().zip(a2).all(|(x, y)| x.name == y.name && x.value == y.value && (x.quote.is_none() || y.quote.is_some() || matches!(&*x.name, "width" | "height") && plain(x.value.as_deref().unwrap_or("")))),
        _ => a == b,
    }
}

// ---- generator -------------------------------------------------------------------------

pub struct Doc { pub text: String, pub tags: usize, pub comments: usize, pub keeps: bool }
struct H<'a, 'd> { s: &'a mut Src<'d>, o: String, tags: usize, comments: usize, budget: i64, pre: bool }
const BLOCKS: &[&str] = &["div", "p", "span", "b", "i", "section", "a", "h1", "em", "x-a", "styled-x", "scripts", "presentation", "article", "body-x", "headers", "button", "DIV", "label", "li-x", "svg", "q", "linearGradient", "foreignObject", "Section", "tr-x"];
const VOID: &[&str] = &["br", "hr", "img", "input", "meta", "link", "IMG", "wbr", "area", "col", "source", "param", "base", "basefont", "isindex"];
const ATTRS: &[&str] = &["class", "id", "title", "width", "height", "type", "data-type", "data-width", "href", "src", "alt", "style", "value", "@click", ":x", "xlink:href", "WIDTH", "Height", "é", "data-height", "widths", "name", "content", "stype", "x", "viewBox", "onClick", "[prop]", "(ev)", "#ref", "v-on:x.y"];
const TYPES: &[&str] = &["text/javascript", "text/css", "module", "application/json", "text/plain", "importmap", "text", "TEXT/JAVASCRIPT", "text/x-template", "text/javascript; charset=utf-8", "javascript", "css", "text/css2", ""];

impl H<'_, '_> {
    fn space(&mut self) -> String {
        let n = if self.s.chance(1, 60) { 1 + self.s.hot(200) } else { 1 + self.s.below(4) };
        (0..n).map(|_| self.s.pick(&[" ", "\n", "\t", "  ", "\r\n", "\n    ", " ", "\x0c"])).collect()
    }
    fn sp(&mut self) { if self.s.chance(1, 2) { let w = self.space(); self.o.push_str(&w) } }
    fn word(&mut self) -> String {
        match self.s.below(9) {
            8 => self.s.name(7),
            0..=2 => self.s.pick(&["a", "foo", "bar", "it's", "\"x\"", "Hello,", "1", "x=\"y\"", "type", "width=\"1\"", "don't", "-->", "a>b", "]", "/>", "end.", "--", "{", "}", "//", "=", ">"]).into(),
            3 => self.s.pick(&["&amp;", "&lt;body&gt;", "&nbsp;", "&#x41;", "&lt;!--", "&quot;", "&#10;"]).into(),
            4 => self.s.pick(&["é", "😀", "\u{a0}", "\u{a0}\u{a0}", "\u{3000}x", "\u{2028}", "İ", "\u{85}", "中文", "x\u{a0}", "\u{feff}", "\u{b}", "\u{2003}\u{2003}y"]).into(),
            5 => { let w: String = self.s.word().chars().filter(|c| *c != '<').collect(); w }
            6 => { let v = self.s.below(0x11_0000) as u32; char::from_u32(v).filter(|c| !matches!(c, '<' | '\0' | '\r')).unwrap_or('x').to_string() }
            _ => { let n = self.s.hot(60) + self.s.long(40, 4000); self.s.pick(&["x", "-", "ab ", "é"]).repeat(n) }
        }
    }
    fn text(&mut self) {
        for i in 0..1 + self.s.size(4, 30) { if i > 0 { if self.s.chance(1, 4) { let w = self.space(); self.o.push_str(&w) } else { self.o.push(' ') } } let w = self.word(); self.o.push_str(&w) }
    }
    fn value(&mut self, q: char) -> String {
        let mut o = String::new();
        for _ in 0..self.s.size(3, 12) {
            match self.s.below(6) {
                0 => o.push_str(self.s.pick(&["  ", " ", "\n", "\t", "\r\n  ", "> \n <", "  >", "\u{a0}\u{a0}"])),
                1 => o.push_str(self.s.pick(&["<body>", "</li>", "<!-- x -->", "<br  >", "</p>", ">", "<", "/", "<script type=\"text/javascript\">", " type=\"text/css\" ", " width=\"1\" ", " height='3' ", "<pre>", "<!--", "-->", "<b  class='x'  >", "</script>", "<style>", "</td>", "<html>"])),
                2 => o.push(if q == '"' { '\'' } else { '"' }),
                _ => { let w = self.word(); o.push_str(&w) }
            }
        }
        o.chars().filter(|c| *c != q).collect()
    }
    fn attrs(&mut self, raw: Option<&str>, selfclose: bool) -> usize {
        let n = match self.s.below(6) { 0 | 1 => 0, 2 | 3 => 1, 4 => 2, _ => 3 + self.s.below(3) };
        let mut used: Vec<String> = vec![];
        let mut unquoted_last = false;
        for _ in 0..n {
            let name = if raw.is_some() && self.s.chance(1, 2) { "type".to_string() } else if self.s.chance(1, 8) { self.s.name(6) } else { let n = self.s.pick(ATTRS); self.s.cased(n) };
            let low = name.to_lowercase();
            if used.contains(&low) || low == "type" && name != "type" { continue }
            used.push(low);
            let name = &*name;
            if self.s.chance(2, 3) { self.o.push(' ') } else { let w = self.space(); self.o.push_str(&w) }
            self.o.push_str(name);
            unquoted_last = false;
            if self.s.chance(1, 6) { continue }
            let v = if name == "type" && self.s.chance(5, 6) { self.s.pick(TYPES).to_string() }
                else if name.to_lowercase().ends_with("th") || name.to_lowercase().ends_with("ght") { if self.s.chance(2, 3) { self.s.pick(&["1", "100", "100%", "50px", "a.b", "auto", "-1", "", "1 2", "_", "x/y", "é", "1;", "100/", "1.5em"]).to_string() } else { self.value('"') } }
                else { String::new() };
            match self.s.below(8) {
                0 if !v.is_empty() && !v.contains([' ', '/', '"', '\'', '<', '>', '=', '`', '\t', '\n', '\r', '\x0c']) => { self.o.push('='); self.o.push_str(&v); unquoted_last = true }
                1 => { let v = self.s.pick(&["x", "é", "#a", "a/b", "100%", "a-b_c.d", "http://x.y/z?a&b", "1"]); self.o.push('='); self.o.push_str(v); unquoted_last = true }
                k => {
                    let q = if k == 2 { '\'' } else { '"' };
                    let v = if v.is_empty() && self.s.chance(5, 6) { self.value(q) } else { v.chars().filter(|c| *c != q).collect() };
                    if self.s.chance(1, 12) { self.o.push(' ') }
                    self.o.push('=');
                    if self.s.chance(1, 12) { let w = self.space(); self.o.push_str(&w) }
                    self.o.push(q);
                    self.o.push_str(&v);
                    self.o.push(q);
                }
            }
        }
        let k = self.s.long(80, 300);
        for i in 0..k { self.o.push_str(&format!(" data-x{i}=\"{}\"", i % 7)); unquoted_last = false }
        if selfclose { if unquoted_last || self.s.chance(1, 2) { self.o.push(' ') } self.o.push('/') }
        else if self.s.chance(1, 6) { let w = self.space(); self.o.push_str(&w) }
        used.len() + k
    }
    fn start(&mut self, name: &str, raw: bool) { self.tags += 1; self.o.push('<'); self.o.push_str(name); self.attrs(raw.then_some(name), false); self.o.push('>') }
    fn plain_start(&mut self, name: &str) { if self.s.chance(2, 3) { self.tags += 1; self.o.push_str(&format!("<{name}>")) } else { self.start(name, false) } }
    fn end(&mut self, name: &str) { self.tags += 1; if self.s.chance(1, 30) { self.o.push_str(&format!("</{name} >")) } else { self.o.push_str(&format!("</{name}>")) } }
    fn comment(&mut self) {
        self.comments += 1;
        let mut b = String::new();
        for _ in 0..self.s.size(4, 20) {
            match self.s.below(4) {
                0 => b.push_str(self.s.pick(&["\n", "  ", "\r\n", "\"", "'", "<b>", "</li>", "<script>", "</script>", "<pre>", "[", "- ", ">", "<", "é", "<style>", "<textarea>", "[if IE]", "a='", "</body>", "\t", "*/"])),
                _ => { let w = self.word(); b.push_str(&w); b.push(' ') }
            }
        }
        let k = self.s.long(40, 4000);
        b.push_str(&self.s.pick(&["x", " ", "\n", "<b>", "é"]).repeat(k));
        loop { let n = b.replace("-->", "").replace("--!>", "").replace("<!--", ""); if n == b { break } b = n }
        while b.ends_with('-') || b.ends_with("<!") { b.pop(); }
        if b.trim_start().starts_with(['[', '>', '-']) || b.trim_start().starts_with("<![endif]") { b.insert(0, 'x') }
        self.o.push_str(&format!("<!--{b}-->"));
    }
    fn conditional(&mut self) {
        let c = self.s.pick(&["[if lte IE 8]", "[if IE]", "[if gt IE 6]", "[if !(IE 7)]", "[endif?]"]);
        self.o.push_str(&format!("<!--{c}>"));
        self.sp();
        for _ in 0..self.s.below(3) {
            let t = self.s.pick(&["<div class=\"warning\">old</div>", "<script src=\"x.js\"></script>", "<p>a  b</p>", "text", "<link rel='x'>", "<li>x</li>", "<span\n title='a'>y</span>", "<html class=\"ie\">", "<br  />", "é"]);
            self.o.push_str(t);
            self.sp();
        }
        self.o.push_str("<![endif]-->");
    }
    fn script(&mut self) {
        let n = self.s.pick(&["script", "script", "script", "SCRIPT"]);
        self.start(n, true);
        let mut b = String::new();
        for _ in 0..self.s.size(3, 8) { b.push_str(self.s.pick(&["// c\n", "let x = \"a  b\";\n", "if (a<b && c>d) {}", "`x\n  y`", "\n\n", "  ", "f('<body>');", "\"</li>\"", "'<!-- x -->'", "a<b;", "it's", "\"", "<b  class=\"x\" >", "/* <pre */", "\t", "{\"a\":  [1,\r\n2]}", "x = a <  b", "' type=\"text/javascript\"'", "\u{a0}\u{a0}", "</scriptx>", "</style>", "<script type=\"text/javascript\">"])) }
        let k = self.s.long(30, 4000);
        b.push_str(&self.s.pick(&["x", " ", "\n", "f();\n", "é"]).repeat(k));
        // what would open a nested script in HTML's double-escaped state
        b = b.replace("<!--", if b.to_lowercase().contains("<script") { "<!" } else { "<!--" });
        self.o.push_str(&b);
        self.end(n);
    }
    fn style(&mut self) {
        self.start("style", true);
        let mut b = String::new();
        for _ in 0..self.s.size(3, 8) { b.push_str(self.s.pick(&["a{b:c}", ".x {\n  color: red;\n}", "  ", "\n", "p::after { content: \"a  b\" }", "a > b { }", "/* x */", "\t", "'</li>  <br>'", "@media x{\r\n}", "\u{a0}\u{a0}", "{content:'<!-- x -->'}"])) }
        let k = self.s.long(30, 4000);
        b.push_str(&self.s.pick(&["x", " ", "\n", "a{}\n", "é"]).repeat(k));
        self.o.push_str(&b);
        self.end("style");
    }
    fn title(&mut self) {
        let n = self.s.pick(&["title", "title", "TITLE"]);
        self.start(n, false);
        for _ in 0..1 + self.s.below(4) {
            match self.s.below(4) {
                0 => { let t = self.s.pick(&["the <body> tag", "<!-- x -->", "</li>", "<img width=\"1\"  alt='a' >", "<!--", "\"a  b\"", "<script type=\"text/javascript\">", "</style>", "<br  >", "a<b", "\u{a0}", "<titles>", "</titles>"]); self.o.push_str(t) }
                1 => self.sp(),
                _ => self.text(),
            }
        }
        self.end(n);
    }
    fn pre(&mut self) {
        let n = self.s.pick(&["pre", "textarea", "textarea", "PRE"]);
        self.start(n, false);
        for _ in 0..self.s.below(4) {
            match self.s.below(6) {
                0 | 1 => { let w = self.space(); self.o.push_str(&w) }
                2 => self.text(),
                3 if n != "textarea" => self.comment(),
                4 if n != "textarea" => { self.start("b", false); self.text(); self.end("b") }
                3 | 4 => { let t = self.s.pick(&["<b  class=\"x\"   >", "<!-- x -->", "</li>", "<body>", "<br>", " <!--", "<script>", "<pre>", "width=\"1\"", "it's", "<a width=\"3\">"]); self.o.push_str(t) }
                _ => { let t = self.s.pick(&["  a   b  \n\n", "\n\n", "\tx\t\ty", "  ", "x"]); self.o.push_str(t) }
            }
        }
        self.end(n);
    }
    fn list(&mut self, d: usize) {
        let (o, i): (&str, &[&str]) = self.s.pick(&[("ul", &["li"] as &[&str]), ("ol", &["li"]), ("dl", &["dt", "dd"]), ("select", &["option"])]);
        self.start(o, false);
        for _ in 0..self.s.below(4) { self.sp(); let n = self.s.pick(i); self.start(n, false); self.sp(); if o == "select" { self.text() } else { self.nodes(d + 1) } if self.s.chance(2, 3) { self.end(n) } }
        self.sp();
        self.end(o);
    }
    fn table(&mut self, d: usize) {
        self.start("table", false);
        self.sp();
        if self.s.chance(1, 3) { self.plain_start("colgroup"); self.start("col", false); self.end("colgroup"); self.sp() }
        for sec in ["thead", "tbody", "tfoot"] {
            if !self.s.chance(1, 2) { continue }
            self.plain_start(sec);
            for _ in 0..self.s.below(3) { self.sp(); self.plain_start("tr"); for _ in 0..self.s.below(3) { let n = self.s.pick(&["td", "th"]); self.start(n, false); self.nodes(d + 2); if self.s.chance(2, 3) { self.end(n) } self.sp() } self.end("tr") }
            self.sp();
            self.end(sec);
        }
        self.end("table");
    }
    fn nodes(&mut self, d: usize) { for _ in 0..self.s.pick(&[0, 1, 1, 2, 3]) { self.node(d); self.sp() } }
    fn node(&mut self, d: usize) {
        self.budget -= 1;
        match self.s.below(if d > 6 || self.budget < 0 { 3 } else { 16 }) {
            0..=2 => self.text(),
            3..=7 => {
                let mut n = self.s.pick(BLOCKS).to_string();
                if self.s.chance(1, 8) { n = self.s.cased(&n) }
                if self.s.chance(1, 8) { n = format!("{}{}", self.s.pick(&["x-", "X-", "w", "Wx"]), self.s.name(5)) }
                let n = &*n;
                let k = self.s.long(80, 300);
                for _ in 0..k { self.plain_start(n) }
                self.start(n, false); self.sp(); self.nodes(d + 1); self.end(n);
                for _ in 0..k { self.end(n) }
            }
            8 => { let n = self.s.pick(VOID); self.tags += 1; self.o.push_str(&format!("<{n}")); let sc = self.s.chance(1, 3); self.attrs(None, sc); self.o.push('>'); if OMIT_END.contains(&n) && n != "br" && self.s.chance(1, 6) { self.end(n) } }
            9 | 10 => self.comment(),
            11 => self.list(d + 1),
            12 => self.table(d + 1),
            13 => if self.s.chance(1, 2) { self.script() } else { self.style() },
            14 => self.conditional(),
            _ => if self.pre { self.pre() } else { self.text() },
        }
    }
}
pub fn doc(s: &mut Src) -> Doc {
    let pre = s.chance(1, 3);
    let budget = s.pick(&[10i64, 20, 60]) * s.scale as i64;
    let mut h = H { s, o: String::new(), tags: 0, comments: 0, budget, pre };
    h.sp();
    if h.s.chance(1, 3) { let t = h.s.pick(&["<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", "<!DOCTYPE html \tPUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\"\n  \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">", "<!DOCTYPE HTML\n PUBLIC '-//a b//EN'  'x' >"]); h.o.push_str(t); h.sp() }
    let full = h.s.chance(1, 2);
    if full {
        h.plain_start("html"); h.sp();
        if h.s.chance(2, 3) { h.plain_start("head"); h.sp(); h.title(); if h.s.chance(1, 3) { h.script() } if h.s.chance(1, 3) { h.style() } h.sp(); h.end("head"); h.sp() }
        h.plain_start("body"); h.sp();
    }
    let n = 1 + h.s.size(4, 12 * h.s.scale);
    for _ in 0..n { h.node(0); h.sp() }
    if full { if h.s.chance(3, 4) { h.end("body"); h.sp() } h.end("html"); h.sp() }
    let low = h.o.to_lowercase();
    Doc { keeps: low.contains("<pre") || low.contains("<textarea"), text: h.o, tags: h.tags, comments: h.comments }
}

// ---- real documents ---
pub fn real(s: &mut Src) -> Option<Doc> {
    let text = crate::real::text(s, "html")?;
    let v = tokens(&text).ok()?;
    let low = text.to_lowercase();
    Some(Doc { tags: v.iter().filter(|x| matches!(x, Item::Start { .. } | Item::End(_))).count(), comments: v.iter().filter(|x| matches!(x, Item::Comment(_))).count(), keeps: low.contains("<pre") || low.contains("<textarea"), text })
}

// ---- checks ----------------------------------------------------------------------------

struct Seen { inp: Vec<Item>, out: Vec<Item>, text: String }
fn run(cx: &mut Ctx, t: &str) -> Result<Seen, String> {
    let inp = tokens(t).unwrap_or_else(|e| panic!("HARNESS: the generated document isn't well-formed: {e}\n{t}"));
    let text = cx.guard("minify", || sutapi::html(t))?;
    let out = tokens(&text).map_err(|e| format!("the minified document isn't well-formed: {e}: {}", show(&text, 300)))?;
    cx.evn("items read before and after", inp.len() as u64);
    for x in &inp { match x { Item::Raw { name, .. } => cx.ev(&format!("{name} elements")), Item::Comment(c) => cx.ev(if conditional(c) { "conditional comments" } else { "ordinary comments" }), Item::Start { attrs, .. } => cx.evn("attributes", attrs.len() as u64), _ => {} } }
    Ok(Seen { inp, out, text })
}
pub fn check_c21(cx: &mut Ctx, t: &str) -> Res {
    let r = run(cx, t)?;
    let (a, b) = (canon(&r.inp), canon(&r.out));
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if same(x, y) => {}
            // C22's business
            (Some(Item::Comment(_)), _) | (_, Some(Item::Comment(_))) => { cx.ev("other differences, in comments"); return Ok(()) }
            (x, y) => return Err(format!("{} became {}; minified: {}", show(&format!("{x:?}"), 300), show(&format!("{y:?}"), 300), show(&r.text, 400))),
        }
    }
    Ok(())
}
fn pres(v: &[Item]) -> Vec<String> {
    let mut o = vec![];
    let mut d = 0;
    for x in v {
        match x {
            Item::Start { name, .. } if name.eq_ignore_ascii_case("pre") => { if d == 0 { o.push(String::new()) } d += 1 }
            Item::End(n) if n.eq_ignore_ascii_case("pre") && d > 0 => d -= 1,
            Item::Text(t) if d > 0 => o.last_mut().unwrap().push_str(t),
            Item::Raw { name, code } if name == "textarea" => o.push(code.clone()),
            _ => {}
        }
    }
    o
}
pub fn check_c22(cx: &mut Ctx, t: &str) -> Res {
    let r = run(cx, t)?;
    let of = |v: &[Item], f: fn(&str) -> String| v.iter().filter_map(|x| match x { Item::Comment(c) => Some(f(c)), _ => None }).collect::<Vec<_>>();
    if let Some(c) = of(&r.out, |c| c.into()).iter().find(|c| !conditional(c)) { return Err(format!("the comment {} is left", show(c, 200))) }
    let want: Vec<_> = of(&r.inp, collapse).into_iter().filter(|c| conditional(c)).collect();
    let got = of(&r.out, collapse);
    if want != got { return Err(format!("the conditional comments {} became {}", show(&format!("{want:?}"), 300), show(&format!("{got:?}"), 300))) }
    let (a, b) = (pres(&r.inp), pres(&r.out));
    if a != b { let i = (0..a.len()).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0); return Err(format!("the preformatted text {} became {}", show(&format!("{:?}", a.get(i)), 300), show(&format!("{:?}", b.get(i)), 300))) }
    cx.evn("pre and textarea texts compared", a.len() as u64);
    // what comments leave behind
    let texts = |v: &[Item]| { let mut o: Vec<String> = vec![]; let mut glue = false; for x in v { match x { Item::Text(t) => { if glue { o.last_mut().unwrap().push_str(t) } else { o.push(t.clone()) } glue = true } Item::Comment(c) if !conditional(c) => {} Item::End(n) if OMIT_END.contains(&&**n) => {} Item::Start { name, attrs, .. } if attrs.is_empty() && OMIT_START.contains(&&**name) => {} _ => glue = false } } o.iter().map(|t| collapse(t).trim_matches(' ').to_string()).filter(|t| !t.is_empty()).collect::<Vec<_>>() };
    let (a, b) = (texts(&r.inp), texts(&r.out));
    if r.inp.iter().any(|x| matches!(x, Item::Comment(_))) && a != b && { let f = |v: &[String]| v.concat().replace(' ', ""); f(&a) == f(&b) } {
        let i = (0..a.len()).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
        return Err(format!("text next to a comment: {} became {}", show(&format!("{:?}", a.get(i)), 200), show(&format!("{:?}", b.get(i)), 200)));
    }
    Ok(())
}
pub fn check_c27(cx: &mut Ctx, t: &str) -> Res {
    let r = run(cx, t)?;
    if r.text.len() > t.len() { return Err(format!("the output is longer than the input: {} > {} bytes", r.text.len(), t.len())) }
    if r.text.starts_with(ws) || r.text.ends_with(ws) { return Err(format!("whitespace at the start or end of {}", show(&r.text, 300))) }
    let low = t.to_lowercase();
    // judged after comments are gone
    let keeps = low.contains("<pre") || low.contains("<textarea");
    for x in &r.out {
        if let Item::Start { attrs, .. } = x {
            for Attr { name, value, quote } in attrs {
                let q = || format!(" {name}=\"{}\"", value.as_deref().unwrap_or(""));
                if matches!(&**name, "width" | "height") && *quote == Some('"') && plain(value.as_deref().unwrap_or("")) && [" ", ">"].iter().any(|e| r.text.contains(&(q() + e))) && [&r.inp, &r.out].iter().all(|v| !attr_has(v, &q()) && !v.iter().any(|i| matches!(i, Item::Comment(c) | Item::Text(c) if c.contains(&q())))) {
                    return Err(format!("the quotes in{} are left", q()));
                }
            }
        }
        match x {
            Item::Text(x) if !keeps => if x.contains("  ") || x.contains(['\n', '\t', '\r', '\x0c']) { return Err(format!("a run of whitespace is left in the text {}", show(x, 100))) },
            Item::Raw { name, code } if name == "title" && !keeps => if code.contains("  ") || code.contains(['\n', '\t', '\r', '\x0c']) { return Err(format!("a run of whitespace is left in the title {}", show(code, 100))) },
            Item::End(n) if OMIT_END.contains(&&**n) && r.text.contains(&format!("</{n}>")) && !t.contains(&format!("</{n} ")) && !r.inp.iter().any(|i| matches!(i, Item::Comment(c) if c.contains(&format!("</{n}"))) ) && !attr_has(&r.inp, &format!("</{n}>")) => return Err(format!("</{n}> is left")),
            Item::Start { name, attrs, slash: false } if attrs.is_empty() && OMIT_START.contains(&&**name) && r.inp.iter().any(|_| true) && r.text.contains(&format!("<{name}>")) && !t.contains(&format!("<{name} ")) && !t.contains(&format!("<{name}\n")) && !t.contains(&format!("<{name}\t")) && !t.contains(&format!("<{name}\r")) && !t.contains(&format!("<{name}\x0c")) => return Err(format!("<{name}> is left")),
            _ => {}
        }
    }
    let again = cx.guard("minify", || sutapi::html(&r.text))?;
    // a tag whose attributes all go may become one that may be left out, and so on
    if again != r.text {
        let k = again.bytes().zip(r.text.bytes()).take_while(|(a, b)| a == b).count();
        let k = (0..=k).rev().find(|k| r.text.is_char_boundary(*k) && again.is_char_boundary(*k)).unwrap_or(0);
        return Err(format!("minifying again changes {} to {}", show(&r.text[k..], 80), show(&again[k..], 80)));
    }
    cx.ev("second minifications compared");
    Ok(())
}
fn attr_has(v: &[Item], t: &str) -> bool { v.iter().any(|x| match x { Item::Start { attrs, .. } => attrs.iter().any(|a| a.value.as_deref().is_some_and(|v| v.contains(t))), Item::Raw { code, .. } => code.contains(t), _ => false }) }

fn case(s: &mut Src, cx: &mut Ctx, f: fn(&mut Ctx, &str) -> Res) -> Res {
    let d = if s.chance(1, 100) { cx.ev("real documents"); real(s) } else { None };
    let d = d.unwrap_or_else(|| doc(s));
    cx.announce(s, d.text.clone());
    cx.nontrivial = d.tags > 1;
    cx.evn("tags", d.tags as u64);
    cx.evn("comments generated", d.comments as u64);
    if d.keeps { cx.ev("documents with pre or textarea") }
    f(cx, &d.text)
}
pub fn c21(s: &mut Src, cx: &mut Ctx) -> Res { case(s, cx, check_c21) }
pub fn c22(s: &mut Src, cx: &mut Ctx) -> Res { case(s, cx, check_c22) }
pub fn c27(s: &mut Src, cx: &mut Ctx) -> Res { case(s, cx, check_c27) }

const CASES: &[(&str, &str)] = &[
    ("type of a module", "<script  type=\"module\"  src=\"x.js\"></script><script type=\"application/json\">{}</script>"),
    ("other attributes ending in type", "<script data-type=\"text/javascript\"></script><styled-x type=\"text/css\"></styled-x><style type=\"text/javascript\"></style>"),
    ("width before a slash", "<img width=\"100\"/><img height=\"2\" /><img width=\"1\" height=\"2\">"),
    ("comment in a word", "<p>foo<!-- x -->bar</p>"),
    ("comments in scripts, styles, textareas and attributes", "<script>a = \"<!-- x -->\"</script><style><!-- a{} --></style><p title=\"<!-- x -->\"></p>"),
    ("needless tags in scripts and attributes", "<script>a = \"<body></li>\"</script><p title=\"</li>\"></p>"),
    ("types in scripts and attributes", "<script>a = '<script type=\"text/javascript\">'</script><p title='<style type=\"text/css\">'></p>"),
    ("whitespace in attributes", "<p title=\"a  b\n c\"  class='x  y'\n\t>x</p>"),
    ("greater than in attributes", "<p title=\"a > b\"  class=\"x\"  >x</p><p title='width=\"1\"'></p>"),
    ("markup in a title", "<title class=\"a\">The <body> tag,\n</li>  \"a  b\" <img width=\"1\"  > and <!-- x --></title><p>x</p>"),
    ("no-break spaces", "<p>a\u{a0}\u{a0}b \u{3000} c</p>\u{a0}"),
    ("line comment in a script", "<script>\n// a\nb()\n</script>"),
    ("strings in styles", "<style> a::before  { content: \"a  b\" } </style>"),
    ("end of a revealed conditional comment", "<!--[if gt IE 8]><!--><p></p><!--<![endif]-->"),
    ("pre", "<div>  <pre>  a\n  <b>x</b>  </pre>  </div>"),
    ("textarea", "<textarea>  <!-- a -->  <b  class=\"x\"  >  </li>\n</textarea>"),
    ("comment in pre", "<pre>a<!-- x -->b</pre>"),
];
fn fixed(f: fn(&mut Ctx, &str) -> Res) -> Vec<Fixed> { CASES.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(t.to_string()); f(cx, t) }) as _)).collect() }
pub fn fixed_c21() -> Vec<Fixed> { fixed(check_c21) }
pub fn fixed_c22() -> Vec<Fixed> { fixed(check_c22) }
pub fn fixed_c27() -> Vec<Fixed> { fixed(check_c27) }
