//! CSS properties C16-C20: style sheets built from a grammar, with the meaning of whitespace known
//! at every place.
use crate::eng::*;
use crate::p_js::show;
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Ident, Num, Hash, Str, Url, At, Punct, Lic }
/// What whitespace means before a token.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W { /// none may stand there
    None, /// none may stand there, but a comment may
    Glue, /// it has no meaning
    Opt, /// it has no meaning, and the minified text has none there
    Gone, /// it has a meaning
    Must }
#[derive(Clone, Debug)]
pub struct Lex { pub k: K, pub t: String, pub w: W, pub comment_before: bool }
#[derive(Clone, Debug, Default)]
pub struct Sheet { pub lx: Vec<Lex>, pub text: String, pub comments: usize, pub ats: usize, pub trailing_comment: bool }

struct G<'a, 'd> { s: &'a mut Src<'d>, v: Vec<Lex>, budget: i64, w: W, lw: usize }

const NAMES: &[&str] = &["a", "b", "div", "foo", "x1", "é", "_x", "-moz-a", "--v", "A", "calc", "url1", "selector", "not", "and", "media", "from", "to", "p", "h1", "scope", "E", "ünï", "a-b", "min", "😀", "é1", "e3", "important", "type-decl"];
const PROPS: &[&str] = &["color", "background", "font", "width", "margin", "content", "grid-area", "transform", "-webkit-x", "--v", "--é", "src", "unicode-range", "filter", "transition", "z-index", "calc", "grid-template-columns", "a", "-ms-filter"];
const MATH: &[&str] = &["calc", "min", "max", "clamp", "-webkit-calc", "-moz-calc", "CALC", "Calc", "round", "abs", "sin", "hypot"];
const FUNCS: &[&str] = &["rgb", "rgba", "translate", "var", "attr", "format", "counter", "linear-gradient", "cubic-bezier", "repeat", "minmax", "local", "env", "scale", "color-mix", "not", "image-set", "url-x"];
const UNITS: &[&str] = &["px", "em", "%", "", "rem", "s", "ms", "deg", "vh", "fr", "x", "e", "Q"];

impl<'a, 'd> G<'a, 'd> {
    /// Pushes a token; what stands before it: `gap`'s word.
    fn t(&mut self, k: K, t: impl Into<String>) { let w = std::mem::replace(&mut self.w, W::None); self.budget -= 1; self.v.push(Lex { k, t: t.into(), w, comment_before: false }) }
    fn gap(&mut self, w: W) { self.w = w }
    fn p(&mut self, t: &str) { self.t(K::Punct, t) }
    fn id(&mut self, t: &str) { self.t(K::Ident, t) }

    fn text_bits(&mut self, n: usize) -> String {
        let mut o = String::new();
        for _ in 0..n {
            match self.s.below(7) {
                0 | 1 => o.push((b'a' + self.s.below(26) as u8) as char),
                2 => o.push_str(self.s.pick(&[" ", "  ", "//", "/*", "*/", "*", "/", "(", ")", "{", "}", "[", "]", ";", ":", ",", "+", "-", "=", "<!--", "/*!", "/**", "$", "#", "@media ", "!", ">", "~", "|", "^", "calc(1px  +  2px)", "a  b", "url(", ". b", "%"])),
                3 => o.push(self.s.pick(&['é', '😀', '\u{a0}', '\u{7f}', '\u{80}', '\u{85}', '\u{feff}', '\u{ffff}', '\u{10ffff}', '\u{3000}', '\u{2028}', '中', '\x0b', '\x01', '\t'])),
                4 => o.push_str(self.s.word()),
                5 => { let v = self.s.below(0x11_0000) as u32; o.push(char::from_u32(v).unwrap_or('x')) }
                _ => { let c = self.s.pick(&[' ', 'a', '/', '*', '\'', '"', '{', '}', '[', ']', 'é']); for _ in 0..self.s.below(5) { o.push(c) } }
            }
        }
        o
    }
    fn escape(&mut self) -> String {
        match self.s.below(7) {
            5 => { let n = 1 + self.s.below(5); let h = self.s.hex(n); if h.chars().all(|c| c == '0') { "\\: ".trim_end().into() } else { format!("\\{h} ") } }
            0 => self.s.pick(&["\\:", "\\[", "\\]", "\\{", "\\}", "\\'", "\\\"", "\\/", "\\*", "\\.", "\\#", "\\ ", "\\\\", "\\(", "\\)", "\\;", "\\,", "\\+", "\\>", "\\~", "\\@", "\\é", "\\😀", "\\g", "\\-", "\\_", "\\!", "\\%", "\\|", "\\^", "\\$", "\\="]).into(),
            1 => self.s.pick(&["\\31 ", "\\26 ", "\\a ", "\\1F600 ", "\\0000e9 ", "\\E9 ", "\\20 ", "\\7b "]).into(),
            2 => self.s.pick(&["\\000031", "\\0000e9", "\\01F600", "\\00007B"]).into(),
            3 => "\\:".into(),
            _ => { let c = self.s.pick(&[':', '[', ']', '\'', '"', '{', '}', ' ', '(', ')', '/', '*', '!']); format!("\\{c}") }
        }
    }
    fn ident(&mut self) -> String {
        let mut t = self.ident0();
        // whitespace right after an escape is a part of it, six digits or not
        if ["\\000031", "\\0000e9", "\\01F600", "\\00007B"].iter().any(|e| t.ends_with(e)) { t.push(' ') }
        t
    }
    fn ident0(&mut self) -> String {
        match self.s.below(14) {
            0..=6 => self.s.pick(NAMES).into(),
            12 => { let n = self.s.name(7); if n.eq_ignore_ascii_case("url") { "u".into() } else { n } }
            13 => { let n = self.s.pick(NAMES); let n = self.s.cased(n); if n.eq_ignore_ascii_case("url") { "u".into() } else { n } }
            7 => { let w: String = self.s.word().chars().filter(|c| c.is_alphanumeric() || *c == '-' || *c == '_').collect(); if w.starts_with(|c: char| c.is_alphabetic()) && !w.eq_ignore_ascii_case("url") { w } else { format!("w{w}") } }
            8 => { let k = self.s.below(4) + self.s.long(30, 2000); format!("{}{}", (b'a' + self.s.below(26) as u8) as char, self.s.pick(&["x", "-", "_", "1", "é"]).repeat(k)) }
            9 => { let e = self.escape(); let n = self.s.pick(NAMES); format!("{e}{n}") }
            10 => { let e = self.escape(); format!("{}{e}", self.s.pick(&["x", "before", "é", "-a"])) }
            _ => { let (e, f) = (self.escape(), self.escape()); format!("x{e}y{f}z") }
        }
    }
    fn string(&mut self) -> String {
        let q = self.s.pick(&['"', '\'']);
        let mut o = String::from(q);
        for _ in 0..self.s.size(3, 20) {
            match self.s.below(6) {
                0 => { let e = self.escape(); o.push_str(&e) }
                1 => o.push(if q == '"' { '\'' } else { '"' }),
                2 => o.push_str(self.s.pick(&["\\\n", "\\\r\n", "\\\\", "\\\"", "\\'", "/* x */", "*/", "//", "}", "{", ";", "url(x)", "\\0 ", "\\a", "a  b", " + "])),
                _ => { let n = 1 + self.s.below(3); let b = self.text_bits(n); for c in b.chars() { if c == q || c == '\\' { o.push('\\') } if c != '\n' && c != '\r' && c != '\x0c' { o.push(c) } } }
            }
        }
        if self.s.chance(1, 40) { let k = self.s.hot(2000); o.push_str(&self.s.pick(&["a", " ", "é", "\\\\", "/*"]).repeat(k)) }
        o.push(q);
        o
    }
    fn url(&mut self) {
        let n = self.s.pick(&["url", "url", "url", "URL", "Url"]);
        self.id(n);
        self.p("(");
        if self.s.chance(1, 3) { self.gap(W::Gone); let t = self.string(); self.t(K::Str, t); self.gap(W::Gone); self.p(")"); return }
        let mut o = String::new();
        for _ in 0..1 + self.s.size(4, 20) {
            match self.s.below(5) {
                0 => o.push_str(self.s.pick(&["//", "/*", "*/", "http://x.y/z?a=b&c#d", "data:image/png;base64,", "a.png", "+", "=", ";", ":", ",", "[", "]", "{", "}", "@", "!", "%20", "//*.example.com/", "../", "*", "/", "~", "|", "$"])),
                1 => { let e = self.escape(); if !e.ends_with(' ') || e.len() == 2 { o.push_str(&e) } }
                2 => o.push_str(self.s.pick(&["x", "é", "😀", "images/", "c//S4KP//ZZ/19Uj/UA=="])),
                _ => { let n = 1 + self.s.below(3); let b = self.text_bits(n); o.extend(b.chars().filter(|c| !c.is_whitespace() && !c.is_control() && !matches!(c, '(' | ')' | '"' | '\'' | '\\'))) }
            }
        }
        let k = self.s.long(30, 5000);
        o.push_str(&self.s.pick(&["A", "/", "é", "+a", "//"]).repeat(k));
        if o.is_empty() { o.push('x') }
        self.gap(W::Gone);
        self.t(K::Url, o);
        self.gap(W::Gone);
        self.p(")");
    }
    fn num(&mut self) -> String {
        let sign = self.s.pick(&["", "", "", "-", "+"]);
        let n = match self.s.below(8) { 0 => "0".into(), 1 => format!(".{}", self.s.below(100)), 2 => format!("{}.{:03}", self.s.below(50), self.s.below(1000)), 3 => self.s.pick(&["1e3", "1E-3", "1.5e+2", "007", "0.0", "00"]).into(), 4 => self.s.hot(1 << 20).to_string(), _ => self.s.below(200).to_string() };
        format!("{sign}{n}{}", if n.contains(['e', 'E']) { String::new() } else { let u = self.s.pick(UNITS); if u == "e" { u.into() } else { self.s.cased(u) } })
    }

    // ---- values ----
    fn math_sum(&mut self, d: usize) {
        let n = 1 + self.s.pick(&[0, 1, 1, 2]);
        for i in 0..n {
            if i > 0 { self.gap(W::Must); let o = self.s.pick(&["+", "-"]); self.p(o); self.gap(W::Must) }
            self.math_prod(d);
        }
    }
    fn math_prod(&mut self, d: usize) {
        let n = 1 + self.s.pick(&[0, 0, 0, 1]);
        for i in 0..n {
            if i > 0 { self.gap(W::Opt); let o = self.s.pick(&["*", "/"]); self.p(o); self.gap(W::Opt) }
            match self.s.below(if d > 4 || self.budget < 0 { 5 } else { 9 }) {
                0..=4 => { let t = self.num(); self.t(K::Num, t) }
                5 => {
                    let k = 1 + self.s.long(30, 300);
                    for _ in 0..k { self.p("("); self.gap(W::Opt) }
                    self.math_sum(d + 1);
                    for _ in 0..k { self.gap(W::Opt); self.p(")") }
                }
                6 => self.math_fn(d + 1),
                _ => { self.id("var"); self.p("("); self.gap(W::Opt); let t = self.ident(); self.id(&format!("--{t}")); if self.s.chance(1, 3) { self.gap(W::Gone); self.p(","); self.gap(W::Gone); self.math_sum(d + 1) } self.gap(W::Opt); self.p(")") }
            }
        }
    }
    fn math_fn(&mut self, d: usize) {
        let f = self.s.pick(MATH);
        self.id(f);
        self.p("(");
        self.gap(W::Opt);
        let n = 1 + if f.ends_with("alc") || f == "CALC" { 0 } else { self.s.below(3) };
        for i in 0..n { if i > 0 { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } self.math_sum(d) }
        self.gap(W::Opt);
        self.p(")");
    }
    fn item(&mut self, d: usize) {
        match self.s.below(if d > 4 || self.budget < 0 { 7 } else { 12 }) {
            0 | 1 => { let t = self.ident(); self.id(&t) }
            2 | 3 => { let t = self.num(); self.t(K::Num, t) }
            4 if self.s.chance(1, 2) => { let n = self.s.pick(&[3, 6, 3, 6, 4, 8]); let h = self.s.hex(n); self.t(K::Hash, format!("#{h}")) }
            4 => { let t = self.s.pick(&["#fff", "#0a042f", "#FFF8", "#a1b2c3", "#123", "#e3e3e3", "#1e3"]); self.t(K::Hash, t) }
            5 => { let t = self.string(); self.t(K::Str, t) }
            6 if self.lw > 2 || self.s.chance(1, 2) => self.url(),
            6 => { let t = self.s.pick(&["U+26", "U+0-7F", "U+0025-00FF", "u+4??"]); self.t(K::Ident, t) }
            7 => { // [names]
                self.p("["); self.gap(W::Opt);
                for i in 0..1 + self.s.below(2) { if i > 0 { self.gap(W::Must) } self.id(if i == 0 { "line" } else { "end" }) }
                self.gap(W::Opt); self.p("]")
            }
            8 | 9 => self.math_fn(d + 1),
            10 if self.s.chance(1, 12) => { self.id("progid"); self.p(":"); self.id("DXImageTransform.Microsoft.gradient"); self.p("("); self.gap(W::Opt); self.id("startColorstr"); self.gap(W::Opt); self.p("="); self.gap(W::Opt); let t = self.string(); self.t(K::Str, t); self.gap(W::Gone); self.p(","); self.gap(W::Gone); self.id("GradientType"); self.p("="); self.t(K::Num, "1"); self.gap(W::Opt); self.p(")") }
            10 if self.s.chance(1, 6) => { self.id("alpha"); self.p("("); self.gap(W::Opt); self.id("opacity"); self.gap(W::Opt); self.p("="); self.gap(W::Opt); self.t(K::Num, "50"); self.gap(W::Opt); self.p(")") }
            10 if self.s.chance(1, 5) => match self.s.below(4) {
                0 => { self.id("attr"); self.p("("); self.gap(W::Opt); self.id("data-x"); self.gap(W::Must); self.id("type"); self.p("("); self.gap(W::Opt); self.t(K::Ident, "<length>"); self.gap(W::Opt); self.p(")"); self.gap(W::Gone); self.p(","); self.gap(W::Gone); self.item(d + 1); self.gap(W::Opt); self.p(")") }
                1 => { self.id("if"); self.p("("); self.gap(W::Opt); for i in 0..1 + self.s.below(2) { if i > 0 { self.gap(W::Gone); self.p(";"); self.gap(W::Gone) } let t = self.s.pick(&["style", "media", "supports"]); self.id(t); self.feature(4); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.item(d + 1) } self.gap(W::Gone); self.p(";"); self.gap(W::Gone); self.id("else"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.item(d + 1); self.gap(W::Opt); self.p(")") }
                2 => { self.id("rgb"); self.p("("); self.gap(W::Opt); self.id("from"); self.gap(W::Must); self.item(5); self.gap(W::Must); self.id("r"); self.gap(W::Must); self.math_fn(d + 1); self.gap(W::Must); self.id("b"); self.gap(W::Opt); self.p("/"); self.gap(W::Opt); let t = self.num(); self.t(K::Num, t); self.gap(W::Opt); self.p(")") }
                _ => { let f = self.s.pick(&["--f", "calc-size", "progress", "random", "pow"]); self.id(f); self.p("("); self.gap(W::Opt); self.math_sum(d + 1); self.gap(W::Gone); self.p(","); self.gap(W::Gone); self.math_sum(d + 1); self.gap(W::Opt); self.p(")") }
            },
            _ => { let f = self.s.pick(FUNCS); self.id(f); self.p("("); self.gap(W::Opt); if self.s.chance(5, 6) { self.list(d + 1); self.gap(W::Opt) } self.p(")") }
        }
    }
    fn list(&mut self, d: usize) {
        let n = 1 + self.s.pick(&[0, 0, 1, 1, 2, 3]);
        for i in 0..n {
            if i > 0 { match self.s.below(6) { 0 | 1 => { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } 2 => { self.gap(W::Opt); self.p("/"); self.gap(W::Opt) } _ => self.gap(W::Must) } }
            self.item(d);
        }
    }
    fn decl(&mut self) {
        let n = if self.s.chance(1, 8) { self.ident() } else { self.s.pick(PROPS).to_string() };
        self.id(&n);
        self.gap(W::Gone); self.p(":"); self.gap(W::Gone);
        self.list(0);
        if self.s.chance(1, 6) { self.gap(W::Opt); if self.s.chance(1, 6) { self.p("!"); self.gap(W::Opt); self.id("important") } else { let t = self.s.pick(&["!important", "!IMPORTANT", "!ie"]); self.t(K::Ident, t) } }
    }
    fn decls(&mut self, d: usize) {
        self.gap(W::Gone); self.p("{"); self.gap(W::Gone);
        self.lic();
        let n = self.s.pick(&[0, 1, 1, 2, 3]);
        for i in 0..n {
            if d < 4 && self.s.chance(1, 12) && self.budget > 0 { // a nested rule
                if self.s.chance(1, 3) { self.cond_rule(d + 1, true) } else { if self.s.chance(1, 4) { let t = self.s.pick(&[">", "+", "~"]); self.p(t); self.gap(W::Opt) } self.sel_list(0, true); self.decls(d + 1) }
                self.gap(W::Gone);
            } else if self.s.chance(1, 24) { // rules of preprocessors and the like
                let t = self.s.pick(&["apply", "include", "extend-x"]);
                self.at(t, true); let t = self.ident(); self.id(&t);
                for _ in 0..self.s.below(3) { self.gap(W::Must); let t = self.ident(); self.id(&t) }
                self.gap(W::Gone); self.p(";"); self.gap(W::Gone)
            } else if self.s.chance(1, 24) { // a custom property that holds a block
                self.id("--x"); self.gap(W::Opt); self.p(":"); self.gap(W::Gone); self.p("{"); self.gap(W::Gone);
                for _ in 0..self.s.below(3) { self.decl(); self.gap(W::Gone); self.p(";"); self.gap(W::Gone) }
                self.p("}"); self.gap(W::Gone); self.p(";"); self.gap(W::Gone)
            } else if self.s.chance(1, 20) {
                match self.s.below(3) {
                    0 => { self.id("--x"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone) } // an empty value
                    1 => { self.id("--sum"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.math_sum(2); self.gap(W::Gone) } // to be used in `calc`
                    _ => { self.t(K::Ident, "*zoom"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.t(K::Num, "1"); self.gap(W::Gone) }
                }
                self.p(";"); self.gap(W::Gone)
            } else {
                self.decl();
                self.gap(W::Gone);
                if i + 1 < n || self.s.chance(3, 4) { self.p(";"); self.gap(W::Gone) }
            }
            if self.s.chance(1, 8) && self.v.last().is_some_and(|l| l.t == ";") { self.p(";"); self.gap(W::Gone) }
            if self.v.last().is_some_and(|l| l.t == ";" || l.t == "}") { self.lic() }
        }
        self.p("}");
    }

    // ---- selectors ----
    fn pseudo(&mut self, d: usize) {
        match self.s.below(if d > 3 || self.budget < 0 { 5 } else { 10 }) {
            0 | 1 => { self.p(":"); let t = self.s.pick(&["hover", "first-child", "root", "target", "é", "-moz-x", "not"]); self.id(t) }
            2 | 3 => { self.p(":"); self.p(":"); let t = self.s.pick(&["before", "after", "-webkit-x", "selection"]); self.id(t) }
            4 => { // an+b
                self.p(":"); let t = self.s.pick(&["nth-child", "nth-of-type", "nth-last-child"]); self.id(t); self.p("("); self.gap(W::Opt);
                match self.s.below(6) {
                    0 => self.id("even"), 1 => self.t(K::Num, "2n+1"), 2 => { self.t(K::Num, "2n"); self.gap(W::Opt); self.p("+"); self.gap(W::Opt); self.t(K::Num, "1") }
                    3 => { self.t(K::Num, "3n"); self.gap(W::Must); self.p("-"); self.gap(W::Must); self.t(K::Num, "2") }
                    4 => { self.t(K::Num, "-n+3"); if d == 0 { self.gap(W::Must); self.id("of"); self.gap(W::Must); self.sel_list(d + 1, false) } } _ => self.t(K::Num, "2"),
                }
                self.gap(W::Opt); self.p(")")
            }
            5 if self.s.chance(1, 3) => { self.p(":"); if self.s.chance(1, 3) { self.p(":"); self.id("highlight") } else { let t = self.s.pick(&["is", "where", "state", "dir"]); self.id(t) } self.p("("); self.gap(W::Opt); if !matches!(self.v[self.v.len() - 2].t.as_str(), "is" | "where") { let t = self.ident(); self.id(&t); self.gap(W::Opt) } self.p(")") }
            5 if self.s.chance(1, 4) => { self.p(":"); self.p(":"); self.id("view-transition-group"); self.p("("); self.gap(W::Opt); self.p("*"); self.gap(W::Opt); self.p(")") }
            5 => { self.p(":"); self.p(":"); self.id("part"); self.p("("); self.gap(W::Opt); self.id("a"); if self.s.chance(1, 2) { self.gap(W::Must); self.id("b") } self.gap(W::Opt); self.p(")") }
            6 => { self.p(":"); self.id("lang"); self.p("("); self.gap(W::Opt); self.id("zh"); if self.s.chance(1, 2) { self.gap(W::Gone); self.p(","); self.gap(W::Gone); let t = self.string(); self.t(K::Str, t) } self.gap(W::Opt); self.p(")") }
            7 => { self.p(":"); self.id("has"); self.p("("); self.gap(W::Opt); if self.s.chance(1, 2) { let t = self.s.pick(&[">", "+", "~"]); self.p(t); self.gap(W::Opt) } self.complex(d + 1, false); self.gap(W::Opt); self.p(")") }
            _ => { if self.s.chance(1, 6) { self.p(":"); self.p(":"); self.id("slotted") } else { self.p(":"); let t = self.s.pick(&["not", "is", "where", "-webkit-any", "host", "NOT"]); self.id(t) } self.p("("); self.gap(W::Opt); self.sel_list(d + 1, false); self.gap(W::Opt); self.p(")") }
        }
    }
    fn attr(&mut self) {
        self.p("["); self.gap(W::Opt);
        if self.s.chance(1, 10) { let t = self.s.pick(&["*", "svg"]); if t == "*" { self.p("*") } else { self.id(t) } self.p("|") }
        let t = self.ident();
        self.id(&t);
        self.gap(W::Opt);
        if self.s.chance(3, 4) {
            let o = self.s.pick(&["=", "~=", "|=", "^=", "$=", "*="]);
            self.p(o);
            self.gap(W::Opt);
            if self.s.chance(2, 3) { let t = self.string(); self.t(K::Str, t); if self.s.chance(1, 5) { self.gap(W::Opt); self.id("i") } }
            else { let t = self.ident(); self.id(&t); if self.s.chance(1, 5) { self.gap(W::Must); self.id("s") } }
            self.gap(W::Opt);
        }
        self.p("]");
    }
    fn compound(&mut self, d: usize, nest: bool) {
        let mut some = false;
        match self.s.below(10) {
            0..=3 => { if self.s.chance(1, 16) { if self.s.chance(1, 2) { self.id("svg") } self.p("|") } else if self.s.chance(1, 30) { self.p("*"); self.p("|") } if self.s.chance(1, 40) && self.v.last().is_some_and(|l| l.t == "|") { self.p("*") } else { let t = self.ident(); self.id(&t) } some = true }
            4 | 5 => { self.p("*"); some = true }
            6 if nest => { self.p("&"); some = true }
            _ => {}
        }
        let n = if some { self.s.pick(&[0, 0, 1, 2]) } else { 1 + self.s.below(2) };
        for i in 0..n {
            if some || i > 0 { self.gap(W::Glue) }
            match self.s.below(8) {
                0..=2 => { let t = self.ident(); self.id(&format!(".{t}")) }
                3 => { let t = self.ident(); self.t(K::Hash, format!("#{t}")) }
                4 => self.attr(),
                _ => self.pseudo(d),
            }
        }
    }
    fn complex(&mut self, d: usize, nest: bool) {
        let n = 1 + self.s.pick(&[0, 0, 1, 1, 2, 3]);
        for i in 0..n {
            if i > 0 { match self.s.below(7) { 0 => { self.gap(W::Opt); self.p(">"); self.gap(W::Opt) } 1 => { self.gap(W::Opt); self.p("+"); self.gap(W::Opt) } 2 => { self.gap(W::Opt); self.p("~"); self.gap(W::Opt) } _ => self.gap(W::Must) } }
            self.compound(d, nest);
        }
    }
    fn sel_list(&mut self, d: usize, nest: bool) {
        let n = 1 + self.s.pick(&[0, 0, 0, 1, 2]);
        for i in 0..n { if i > 0 { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } self.complex(d, nest) }
    }

    // ---- at-rules ----
    fn at(&mut self, n: &str, must: bool) { self.t(K::At, format!("@{n}")); self.gap(if must { W::Must } else { W::Opt }) }
    fn feature(&mut self, d: usize) {
        self.p("("); self.gap(W::Opt);
        match self.s.below(8) {
            0 => { let t = self.s.pick(&["color", "grid", "hover"]); self.id(t) }
            1 => { self.t(K::Num, "400px"); self.gap(W::Opt); self.p("<="); self.gap(W::Opt); self.id("width"); self.gap(W::Opt); self.p("<="); self.gap(W::Opt); self.t(K::Num, "700px") }
            2 => { self.id("width"); self.gap(W::Opt); let o = self.s.pick(&[">=", ">", "<", "="]); self.p(o); self.gap(W::Opt); self.t(K::Num, "600px") }
            3 => { self.id("aspect-ratio"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.t(K::Num, "16"); self.gap(W::Opt); self.p("/"); self.gap(W::Opt); self.t(K::Num, "9") }
            4 => { self.id("min-width"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.math_fn(3) }
            _ => { let t = self.s.pick(&["max-width", "min-width", "-webkit-x", "display", "--a"]); self.id(t); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.item(d.max(4)) }
        }
        self.gap(W::Opt); self.p(")");
    }
    fn cond(&mut self, d: usize, supports: bool) {
        let neg = self.s.chance(1, 5);
        if neg { self.id("not"); self.gap(W::Must) }
        let n = if neg { 1 } else { 1 + self.s.pick(&[0, 0, 1, 2]) };
        let op = self.s.pick(&["and", "or", "AND"]);
        for i in 0..n {
            if i > 0 { self.gap(W::Must); self.id(op); self.gap(W::Must) }
            match self.s.below(6) {
                0 if d < 4 => { self.p("("); self.gap(W::Opt); self.cond(d + 1, supports); self.gap(W::Opt); self.p(")") }
                1 if supports && self.s.chance(1, 2) => { self.id("selector"); self.p("("); self.gap(W::Opt); self.complex(2, false); self.gap(W::Opt); self.p(")") }
                2 if !supports && self.s.chance(1, 3) => { let t = self.s.pick(&["style", "scroll-state"]); self.id(t); self.feature(d) }
                2 if supports && self.s.chance(1, 3) => { self.id("font-tech"); self.p("("); self.gap(W::Opt); self.id("color-COLRv1"); self.gap(W::Opt); self.p(")") }
                _ => self.feature(d),
            }
        }
    }
    fn media_query(&mut self) {
        if self.s.chance(1, 2) {
            if self.s.chance(1, 3) { let t = self.s.pick(&["only", "not"]); self.id(t); self.gap(W::Must) }
            let t = self.s.pick(&["screen", "print", "all", "é"]);
            self.id(t);
            for _ in 0..self.s.below(3) { self.gap(W::Must); self.id("and"); self.gap(W::Must); self.feature(0) }
        } else { self.cond(0, false) }
    }
    fn starts_word(&mut self, at: usize) { if at < self.v.len() && self.v[at].k != K::Punct && self.v[at].k != K::Str { self.v[at].w = W::Must } }
    /// `inner`: inside of a style rule, where the block holds declarations
    fn cond_rule(&mut self, d: usize, inner: bool) {
        let k = self.s.below(if inner { 3 } else { 7 });
        let at;
        match k {
            0 | 1 => { self.at("media", false); at = self.v.len(); let n = 1 + self.s.pick(&[0, 0, 0, 1]); for i in 0..n { if i > 0 { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } self.media_query() } }
            2 => { self.at("supports", false); at = self.v.len(); self.cond(0, true) }
            3 => { self.at("container", false); at = self.v.len(); if self.s.chance(1, 2) { let t = self.ident(); self.id(&t); self.gap(W::Must) } self.cond(0, false) }
            5 => { let t = self.s.pick(&["starting-style", "layer", "scope", "unknown"]); self.at(t, false); at = self.v.len() }
            6 if self.s.chance(1, 2) => { // without a block
                self.at("custom-media", true);
                self.id("--small");
                self.gap(W::Must);
                self.cond(0, false);
                self.gap(W::Gone); self.p(";");
                return;
            }
            _ => { self.at("scope", false); at = self.v.len(); self.p("("); self.gap(W::Opt); self.sel_list(2, false); self.gap(W::Opt); self.p(")"); if self.s.chance(1, 2) { self.gap(W::Must); self.id("to"); self.gap(W::Must); self.p("("); self.gap(W::Opt); self.sel_list(2, false); self.gap(W::Opt); self.p(")") } }
        }
        self.starts_word(at);
        if inner { self.decls(d) } else { self.rules(d) }
    }
    fn rules(&mut self, d: usize) {
        self.gap(W::Gone); self.p("{"); self.gap(W::Gone);
        self.lic();
        for _ in 0..self.s.pick(&[0, 1, 1, 2, 3]) { self.rule(d + 1); self.gap(W::Gone); self.lic() }
        self.p("}");
    }
    fn lic(&mut self) {
        if !self.s.chance(1, 14) { return }
        let n = self.s.size(3, 12);
        let mut b = self.text_bits(n);
        if self.s.chance(1, 3) { b.push_str(self.s.pick(&["\n", "\r\n", "\n * x\n"])) }
        while b.contains("*/") { b = b.replace("*/", "* /") }
        self.t(K::Lic, b);
        self.gap(W::Gone);
    }
    fn rule(&mut self, d: usize) {
        if self.budget < 0 { self.id("a"); self.gap(W::Gone); self.p("{"); self.gap(W::Gone); self.p("}"); return }
        match self.s.below(if d > 5 { 8 } else { 15 }) {
            0..=6 => { self.sel_list(0, false); self.decls(d) }
            7 => { if self.s.chance(1, 3) {
                    if self.s.chance(1, 2) { let n = self.s.pick(&["position-try", "font-palette-values", "color-profile"]); self.at(n, true); self.id("--p"); self.decls(9) }
                    else { self.at("function", true); self.id("--f"); self.p("("); self.gap(W::Opt); if self.s.chance(1, 2) { self.id("--a"); self.gap(W::Must); self.t(K::Ident, "<length>"); self.gap(W::Gone); self.p(":"); self.gap(W::Gone); self.item(4); self.gap(W::Gone); self.p(","); self.gap(W::Gone) } self.id("--b"); self.gap(W::Opt); self.p(")"); if self.s.chance(1, 2) { self.gap(W::Must); self.id("returns"); self.gap(W::Must); self.t(K::Ident, "<length>") } self.decls(9) }
                } else { let n = self.s.pick(&["font-face", "starting-style-x", "view-transition", "viewport"]); self.at(n, false); self.decls(9) } }
            8 => { let n = self.s.pick(&["keyframes", "-webkit-keyframes"]); if self.s.chance(1, 5) { self.at(n, false); let t = self.string(); self.t(K::Str, t) } else { self.at(n, true); let t = self.ident(); self.id(&t) } self.gap(W::Gone); self.p("{"); self.gap(W::Gone);
                for _ in 0..self.s.below(3) { for i in 0..1 + self.s.below(2) { if i > 0 { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } let t = self.s.pick(&["from", "to", "50%", "0%", "33.3%"]); self.id(t) } self.decls(9); self.gap(W::Gone) }
                self.p("}") }
            9 => { self.at("page", false); if self.s.chance(1, 2) { let at = self.v.len(); let t = self.ident(); self.id(&t); self.starts_word(at) } if self.s.chance(1, 2) { self.p(":"); self.id("first") } if self.v.last().is_some_and(|l| l.k != K::At) && self.s.chance(1, 4) { self.gap(W::Gone); self.p(","); self.gap(W::Gone); self.id("b") }
                self.gap(W::Gone); self.p("{"); self.gap(W::Gone); self.decl(); self.gap(W::Gone); self.p(";"); self.gap(W::Gone); if self.s.chance(1, 2) { self.at("top-left", false); self.decls(9); self.gap(W::Gone) } self.p("}") }
            10 => { self.at("layer", true); if self.s.chance(1, 2) { let n = 1 + self.s.below(2); for i in 0..n { if i > 0 { self.gap(W::Gone); self.p(","); self.gap(W::Gone) } let t = self.s.pick(&["a", "a.b", "é"]); self.id(t) } self.gap(W::Gone); self.p(";") } else { self.id("base"); self.rules(d) } }
            11 => { let n = self.s.pick(&["property", "counter-style", "font-feature-values"]); self.at(n, true); self.id("--x"); if n == "font-feature-values" && self.s.chance(1, 2) { self.gap(W::Must); self.id("One") }
                if n == "font-feature-values" && self.s.chance(1, 2) { self.gap(W::Gone); self.p("{"); self.gap(W::Gone); for t in ["styleset", "swash"] { self.at(t, false); self.decls(9); self.gap(W::Gone) } self.p("}") } else { self.decls(9) } }
            _ => self.cond_rule(d, false),
        }
    }
    fn sheet(&mut self) {
        let n = 1 + self.s.size(4, 40 * self.s.scale);
        if self.s.chance(1, 16) { self.at("charset", true); self.t(K::Str, "\"utf-8\""); self.gap(W::Gone); self.p(";"); self.gap(W::Gone) }
        if self.s.chance(1, 8) {
            self.at("import", false);
            let at = self.v.len();
            if self.s.chance(1, 2) { self.url() } else { let t = self.string(); self.t(K::Str, t) }
            self.starts_word(at);
            if self.s.chance(1, 3) { self.gap(W::Must); self.id("layer"); if self.s.chance(1, 2) { self.p("("); self.id("x"); self.p(")") } }
            if self.s.chance(1, 3) { self.gap(W::Must); self.id("supports"); self.p("("); self.gap(W::Opt); self.cond(0, true); self.gap(W::Opt); self.p(")") }
            if self.s.chance(1, 2) { self.gap(W::Must); self.media_query() }
            self.gap(W::Gone); self.p(";"); self.gap(W::Gone);
        }
        if self.s.chance(1, 20) { self.at("namespace", true); self.id("svg"); self.gap(W::Must); self.url(); self.gap(W::Gone); self.p(";"); self.gap(W::Gone) }
        self.lic();
        // sometimes a tower of nested blocks
        let tower = if self.s.chance(1, 40) { self.s.hot(300) } else { 0 };
        for _ in 0..tower { self.at("media", false); self.feature(0); self.gap(W::Gone); self.p("{"); self.gap(W::Gone) }
        for _ in 0..n { self.rule(0); self.gap(W::Gone); self.lic(); if self.budget < -100 { break } }
        for _ in 0..tower { self.p("}"); self.gap(W::Gone) }
    }

    // ---- layout ----
    fn ws(&mut self) -> String {
        let n = if self.s.chance(1, 80) { 1 + self.s.hot(300) } else { 1 + self.s.below(3) };
        (0..n).map(|_| self.s.pick(&[" ", "\n", "\t", "\r\n", "  ", "\n\n", "\r", " "])).collect()
    }
    fn comment(&mut self) -> String {
        let n = self.s.size(3, 16);
        let mut b = self.text_bits(n);
        let k = self.s.long(80, 5000);
        b.push_str(&self.s.pick(&["x", " ", "é", "-", "* "]).repeat(k));
        if self.s.chance(1, 4) { b.push_str(self.s.pick(&["\n", "\r\n", "\n * x\n"])) }
        while b.contains("*/") { b = b.replace("*/", "* /") }
        while b.starts_with(['!', '*']) { b.remove(0); }
        format!("/*{b}*/")
    }
    fn layout(&mut self) -> Sheet {
        let lx = std::mem::take(&mut self.v);
        let mut sh = Sheet::default();
        let style = self.s.below(5);
        for (i, l) in lx.iter().enumerate() {
            let n = match style { 0 => 0, 1 => self.s.below(2), 2 => 1, 3 => self.s.below(3), _ => self.s.below(4) };
            let mut com = false;
            let mut gap = String::new();
            let w = if i == 0 { W::Gone } else { l.w };
            match w {
                W::None => {}
                // there are no comments in an unquoted url
                _ if l.k == K::Url || i > 0 && lx[i - 1].k == K::Url || l.k == K::Str && is_url(&lx, i) => for _ in 0..n { gap.push_str(&self.ws()) },
                W::Glue => if self.s.chance(1, 12) { gap = self.comment(); com = true },
                W::Opt | W::Gone | W::Must => {
                    let mut ws = false;
                    for _ in 0..n { if self.s.chance(1, 4) { gap.push_str(&self.comment()); com = true } else { gap.push_str(&self.ws()); ws = true } }
                    if w == W::Must && !ws { let x = self.ws(); if self.s.chance(1, 2) { gap.push_str(&x) } else { gap.insert_str(0, &x) } }
                }
            }
            if com { sh.comments += 1 }
            // `/` right before a comment or a star
            if i > 0 && lx[i - 1].t == "/" && gap.starts_with('/') { gap.insert(0, ' ') }
            sh.text.push_str(&gap);
            let t = if l.k == K::Lic {
                let star = self.s.chance(1, 2);
                if star && !l.t.starts_with('/') { format!("/**{}*/", l.t) } else { format!("/*!{}*/", l.t) }
            } else { l.t.clone() };
            sh.text.push_str(&t);
            if l.k == K::At { sh.ats += 1 }
            sh.lx.push(Lex { comment_before: com, ..l.clone() });
        }
        if self.s.chance(1, 2) { for _ in 0..1 + self.s.below(2) { if self.s.chance(1, 3) { let c = self.comment(); sh.text.push_str(&c); sh.comments += 1; sh.trailing_comment = true } else { let w = self.ws(); sh.text.push_str(&w) } } }
        sh
    }
}
/// Is this the first token in `url(`?
fn is_url(lx: &[Lex], i: usize) -> bool { i > 1 && lx[i - 1].t == "(" && lx[i - 2].t.eq_ignore_ascii_case("url") }
pub fn sheet(s: &mut Src, lw: usize) -> Sheet {
    if s.chance(1, 64) { s.scale *= 4 }
    let budget = s.pick(&[30i64, 80, 80, 200, 500]) * s.scale as i64;
    let mut g = G { s, v: vec![], budget, w: W::None, lw };
    g.sheet();
    g.layout()
}

pub struct Miss { pub i: usize, pub why: String }
/// Reads the tokens off the output; returns what stood before each.
pub fn read_off(lx: &[Lex], out: &str) -> Result<Vec<String>, Miss> {
    let mut gaps = vec![];
    let mut pos = 0;
    for (i, l) in lx.iter().enumerate() {
        let rest = &out[pos..];
        let g = rest.len() - rest.trim_start_matches([' ', '\t', '\n', '\r']).len();
        let gap = &rest[..g];
        let t = if l.k == K::Lic { format!("/*!{}*/", l.t) } else { l.t.clone() };
        if !rest[g..].starts_with(&t) { return Err(Miss { i, why: format!("expected {}, found {}", show(&t, 200), show(&rest[g..], 60)) }) }
        let after_lic = i > 0 && lx[i - 1].k == K::Lic;
        let after_at = i > 0 && lx[i - 1].k == K::At;
        match l.w {
            W::None | W::Glue if i > 0 && !gap.is_empty() && !after_lic && !after_at => return Err(Miss { i, why: format!("{} now stands before {}", show(gap, 20), show(&t, 100)) }),
            W::Must if gap.is_empty() => return Err(Miss { i, why: format!("the space before {} is gone", show(&t, 100)) }),
            _ => {}
        }
        gaps.push(gap.to_string());
        pos += g + t.len();
    }
    let rest = out[pos..].trim_start_matches([' ', '\t', '\n', '\r']);
    if !rest.is_empty() { return Err(Miss { i: lx.len(), why: format!("unexpected {} at the end", show(rest, 100)) }) }
    gaps.push(out[pos..].to_string());
    Ok(gaps)
}
fn minify(cx: &mut Ctx, t: &str) -> Result<String, String> { cx.guard("minify", || sutapi::css(t))?.map_err(|e| format!("a well-formed style sheet is rejected: {e}")) }
fn stat(cx: &mut Ctx, p: &Sheet) {
    cx.evn("tokens read off the output", p.lx.len() as u64);
    cx.evn("places with comments", p.comments as u64);
    for l in &p.lx { match (l.k, l.w) { (K::Lic, _) => cx.ev("licences"), (K::Url, _) => cx.ev("unquoted urls"), (K::Str, _) => cx.ev("strings"), (K::At, _) => cx.ev("at-rules"), (_, W::Must) => cx.ev("significant spaces"), _ => {} } }
    cx.nontrivial = p.lx.len() > 4;
}
fn opaque(k: K) -> bool { matches!(k, K::Str | K::Url | K::Num | K::Hash | K::Ident) }

pub fn check_c16(cx: &mut Ctx, p: &Sheet) -> Res {
    let out = minify(cx, &p.text)?;
    read_off(&p.lx, &out).map(|_| ()).map_err(|m| format!("token {}: {}", m.i, m.why))
}
pub fn check_c17(cx: &mut Ctx, p: &Sheet) -> Res {
    let out = minify(cx, &p.text)?;
    let Err(m) = read_off(&p.lx, &out) else { cx.evn("opaque tokens compared", p.lx.iter().filter(|l| opaque(l.k)).count() as u64); return Ok(()) };
    if let Some(l) = p.lx.get(m.i) { if opaque(l.k) && m.why.starts_with("expected") { return Err(format!("{:?} {}: {}", l.k, show(&l.t, 300), m.why)) } }
    let mut at = 0;
    for l in p.lx.iter().filter(|l| opaque(l.k)) { match out[at..].find(&l.t) { Some(x) => at += x + l.t.len(), None => return Err(format!("{:?} {} is not in the output (at its place)", l.k, show(&l.t, 300))) } }
    cx.ev("other differences, not about opaque tokens");
    Ok(())
}
pub fn check_c18(cx: &mut Ctx, p: &Sheet) -> Res {
    let out = minify(cx, &p.text)?;
    let Err(m) = read_off(&p.lx, &out) else { return Ok(()) };
    let cur = p.lx.get(m.i);
    let near = cur.map_or(p.trailing_comment, |l| l.comment_before || l.k == K::Lic) || (m.i > 0 && p.lx[m.i - 1].k == K::Lic);
    if near { return Err(format!("next to a comment, token {}: {}", m.i, m.why)) }
    let mut at = 0;
    for l in p.lx.iter().filter(|l| l.k == K::Lic) {
        let t = format!("/*!{}*/", l.t);
        match out[at..].find(&t) { Some(x) => at += x + t.len(), None => return Err(format!("licence {} is not in the output (in order)", show(&t, 200))) }
    }
    cx.ev("other differences, not about comments");
    Ok(())
}
pub fn check_c19(cx: &mut Ctx, p: &Sheet) -> Res {
    let out = minify(cx, &p.text)?;
    let lics = p.lx.iter().filter(|l| l.k == K::Lic).count();
    if out.len() > p.text.len() + lics + p.ats { return Err(format!("the output is longer than the input: {} > {} bytes", out.len(), p.text.len())) }
    if let Ok(gaps) = read_off(&p.lx, &out) {
        for (i, g) in gaps.iter().enumerate() {
            if g.is_empty() { continue }
            let after_lic = i > 0 && p.lx[i - 1].k == K::Lic;
            let after_at = i > 0 && i < p.lx.len() && p.lx[i - 1].k == K::At;
            let w = if i == 0 || i == p.lx.len() { W::Gone } else { p.lx[i].w };
            // whitespace next to these has no meaning where the grammar says so
            let tight = w == W::Opt && !after_at && i > 0 && i < p.lx.len() && (matches!(&*p.lx[i - 1].t, "(" | "[" | ">" | "~" | "/") || matches!(&*p.lx[i].t, ")" | "]" | ">" | "~" | "/" | "+"));
            let w = if tight { W::Gone } else { w };
            let ok = if after_lic { g == "\n" } else { g == " " && (w != W::Gone || after_at) };
            if !ok { return Err(format!("{} is left before token {i} {}", show(g, 20), p.lx.get(i).map_or("(end)".into(), |l| show(&l.t, 60)))) }
        }
        cx.evn("gaps judged", gaps.len() as u64);
    }
    let again = minify(cx, &out)?;
    if again != out {
        let k = again.bytes().zip(out.bytes()).take_while(|(a, b)| a == b).count();
        let k = (0..=k).rev().find(|k| out.is_char_boundary(*k) && again.is_char_boundary(*k)).unwrap_or(0);
        return Err(format!("minifying again changes {} to {}", show(&out[k..], 80), show(&again[k..], 80)));
    }
    cx.ev("second minifications compared");
    Ok(())
}
fn case(s: &mut Src, cx: &mut Ctx, f: fn(&mut Ctx, &Sheet) -> Res) -> Res {
    let lw = s.below(6);
    let p = sheet(s, lw);
    cx.announce(s, p.text.clone());
    stat(cx, &p);
    f(cx, &p)
}
/// A real sheet, which is only known to be well-formed.
pub fn real_c16(cx: &mut Ctx, t: &str) -> Res {
    let out = minify(cx, t)?;
    let r = crate::node::compare_css(t, &out);
    match r.split(' ').next().unwrap_or("") {
        "same" => { cx.ev("real sheets, the same to lightningcss"); Ok(()) }
        "badout" | "differ" => Err(format!("another minifier makes something else of source and output: {r}")),
        _ => { cx.ev("real sheets, skipped"); Ok(()) }
    }
}
pub fn real_c19(cx: &mut Ctx, t: &str) -> Res {
    let out = minify(cx, t)?;
    if out.len() > t.len() + t.matches("/*!").count() + t.matches('@').count() { return Err(format!("the output is longer than the input: {} > {} bytes", out.len(), t.len())) }
    if minify(cx, &out)? != out { return Err("minifying again changes the output".into()) }
    cx.ev("second minifications compared");
    Ok(())
}
fn case_real(s: &mut Src, cx: &mut Ctx, f: fn(&mut Ctx, &Sheet) -> Res, g: fn(&mut Ctx, &str) -> Res) -> Res {
    if s.chance(1, 150) {
        if let Some(t) = crate::real::text(s, "css") {
            cx.announce(s, t.clone());
            cx.nontrivial = true;
            return g(cx, &t);
        }
    }
    case(s, cx, f)
}
pub fn c16(s: &mut Src, cx: &mut Ctx) -> Res { case_real(s, cx, check_c16, real_c16) }
pub fn c17(s: &mut Src, cx: &mut Ctx) -> Res { case(s, cx, check_c17) }
pub fn c18(s: &mut Src, cx: &mut Ctx) -> Res { case(s, cx, check_c18) }
pub fn c19(s: &mut Src, cx: &mut Ctx) -> Res { case_real(s, cx, check_c19, real_c19) }

// ---- C20 -------------------------------------------------------------------------------

/// Why the text is malformed, if it is.
pub fn malformed(t: &str) -> Option<&'static str> {
    let c: Vec<char> = t.chars().collect();
    let ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
    let (mut i, mut depth, mut bracket) = (0, 0usize, false);
    let mut word = String::new();
    let mut escaped = false; // does the word go on from an escape?
    while i < c.len() {
        let x = c[i];
        i += 1;
        let w = std::mem::take(&mut word);
        match x {
            '\\' => {
                let Some(e) = c.get(i) else { return None };
                i += 1;
                if e.is_ascii_hexdigit() {
                    let mut n = 1;
                    while n < 6 && c.get(i).is_some_and(|c| c.is_ascii_hexdigit()) { i += 1; n += 1 }
                    if c.get(i).is_some_and(|c| ws(*c)) { if c[i] == '\r' && c.get(i + 1) == Some(&'\n') { i += 1 } i += 1 }
                }
                escaped = true;
                continue;
            }
            '"' | '\'' => loop {
                match c.get(i) { None => return Some("string"), Some('\\') => { i += 2; if i > c.len() { return Some("string") } } Some(y) => { i += 1; if *y == x { break } } }
            },
            '/' if c.get(i) == Some(&'*') => {
                match (i + 1..c.len().saturating_sub(1)).find(|j| c[*j] == '*' && c[*j + 1] == '/') { Some(j) => i = j + 2, None => return Some("comment") }
            }
            '{' => depth += 1,
            '}' => { if depth == 0 { return Some("brace") } depth -= 1 }
            '[' => { if bracket { return Some("nested bracket") } bracket = true }
            ']' => { if !bracket { return Some("closing bracket") } bracket = false }
            '(' if !escaped && w.eq_ignore_ascii_case("url") => {
                let j = (i..c.len()).find(|j| !ws(c[*j])).unwrap_or(c.len());
                if !matches!(c.get(j), Some('"' | '\'')) {
                    i = j;
                    while i < c.len() && c[i] != ')' { if c[i] == '\\' { i += 1 } i += 1 }
                }
            }
            ',' | '>' | '(' | ')' | ':' | ';' | '/' | '+' | '=' | ' ' | '\t' | '\n' | '\r' | '*' | '|' | '~' | '$' | '^' => {}
            _ => { word = w; word.push(x); continue }
        }
        escaped = false;
    }
    None
}
pub fn check_c20(cx: &mut Ctx, t: &str) -> Res {
    let want = malformed(t);
    let got = cx.guard("minify", || sutapi::css(t))?;
    match (want, &got) {
        (None, Err(e)) => Err(format!("rejected ({e}) without a reason")),
        (Some(w), Ok(o)) => Err(format!("accepted in spite of a {w}; output {}", show(o, 200))),
        (Some(w), _) => { cx.ev(&format!("rejected: {w}")); cx.nontrivial = true; Ok(()) }
        _ => { cx.ev("accepted"); cx.nontrivial = t.len() > 3; Ok(()) }
    }
}
pub fn hostile(s: &mut Src) -> String {
    let mut o = if s.chance(1, 3) { sheet(s, 2).text } else { String::new() };
    if s.chance(1, 2) || o.is_empty() {
        let n = 1 + s.size(12, 200 * s.scale);
        let mut g = G { s, v: vec![], budget: 0, w: W::None, lw: 1 };
        for _ in 0..n {
            let b = match g.s.below(6) {
                0 | 1 => g.s.pick(&["\"", "'", "/*", "*/", "{", "}", "[", "]", "\\", "(", ")", "url(", "/", "*", "\n", "@media ", ":", ";", "!", ","]).to_string(),
                2 => g.s.pick(&["a[b]", "\"x\"", "'\\''", "/* x */", "{}", "[a=\"]\"]", "url(])", "\\\"", "\\[", "/*[*/", "\"/*\"", "/*\"*/", "url( \"]\" )", "/**/", "/***/", "/*/", "\\", "é", "url('", "\\31 ", "URL(\\)", "/*!*/"]).to_string(),
                3 => g.ident(),
                4 => g.string(),
                _ => g.text_bits(2),
            };
            let at = if o.is_empty() { 0 } else if g.s.chance(1, 2) { o.len() } else { let k = g.s.below(o.len() + 1); (0..=k).rev().find(|k| o.is_char_boundary(*k)).unwrap() };
            o.insert_str(at, &b);
        }
    } else {
        // cut a well-formed one
        let k = s.below(o.len() + 1);
        let k = (0..=k).rev().find(|k| o.is_char_boundary(*k)).unwrap();
        if s.chance(1, 2) { o.truncate(k) } else { o = o[k..].to_string() }
    }
    o
}
pub fn c20(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = hostile(s);
    cx.announce(s, t.clone());
    check_c20(cx, &t)
}

// ---- fixed cases -----------------------------------------------------------------------

/// "tok¦tok": a piece starting with `␣` is trivia that must not go, `·` trivia that may, `°` a comment that leaves nothing.
fn parse_dsl(t: &str) -> Sheet {
    let mut p = Sheet::default();
    let (mut w, mut com) = (W::None, false);
    for piece in t.split('¦') {
        if piece.is_empty() { continue }
        let c = piece.chars().next().unwrap();
        if matches!(c, '␣' | '·' | '°') {
            w = match c { '␣' => W::Must, '·' => W::Gone, _ => W::Glue };
            let x = &piece[c.len_utf8()..];
            if x.contains("/*") { com = true; p.comments += 1 }
            p.text.push_str(x);
            continue;
        }
        let mut t = piece.to_string();
        let k = if let Some(l) = piece.strip_prefix("/**").or(piece.strip_prefix("/*!")) { t = l[..l.len() - 2].into(); K::Lic } else if c == '"' || c == '\'' { K::Str } else if c == '@' { p.ats += 1; K::At } else if "{}();:,>+~*/|=[]&".contains(c) { K::Punct } else { K::Ident };
        p.lx.push(Lex { k, t, w, comment_before: com });
        p.text.push_str(piece);
        w = W::None;
        com = false;
    }
    p
}
const CASES: &[(&str, &str)] = &[
    ("space before a pseudo element", ".a¦␣ ¦:¦:¦before¦·\n¦{¦}"),
    ("space before a pseudo class", ".a¦␣/**/ ¦:¦hover¦·\n¦{¦}"),
    ("space after a parenthese", ":¦not¦(¦.a¦)¦␣ ¦*¦{¦}"),
    ("stars", "*¦␣ ¦*¦␣ ¦[¦x¦]¦␣\n¦*¦·  ¦{¦}"),
    ("space before and after attributes", "a¦␣ ¦[¦x¦]¦␣ ¦[¦y¦]¦· ¦,¦· ¦[¦z¦]¦· ¦>¦· ¦b¦{¦}"),
    ("math functions", "a¦{¦width¦:¦clamp¦(¦1px¦␣ ¦+¦␣ ¦2px¦·  ¦,¦·\n¦3px¦␣ ¦-¦␣ ¦(¦1px¦␣ ¦+¦␣ ¦2px¦)¦)¦;¦height¦:¦-webkit-calc¦(¦1px¦␣ ¦+¦␣ ¦2px¦)¦;¦}"),
    ("plus in a custom property", "a¦{¦--x¦:¦1px¦␣ ¦+¦␣ ¦2px¦}"),
    ("comments in a compound selector", ".a¦°/**/¦.b¦°/* x */¦:¦hover¦°/**/¦[¦x¦]¦°/**/¦#c¦␣/**/ /**/¦.d¦␣ /**/¦.e¦{¦}"),
    ("nested at-rules", "@media¦␣ ¦x¦{¦@supports¦␣ ¦not¦␣ ¦(¦a¦· ¦:¦· ¦b¦)¦{¦.a¦␣ ¦:¦hover¦·  ¦+¦·  ¦c¦·  ¦{¦d¦·  ¦:¦·  ¦e¦␣   ¦(¦f¦)¦}¦}¦}"),
    ("selectors in at-rules", "@supports¦␣ ¦selector¦(¦.a¦␣ ¦:¦b¦)¦␣ ¦and¦␣ ¦(¦x¦· ¦:¦· ¦y¦)¦{¦}¦@scope¦· ¦(¦.a¦␣ ¦:¦b¦)¦{¦}"),
    ("semicolons inside of parentheses", "@supports¦␣ ¦(¦a¦· ¦:¦· ¦if¦(¦b¦· ¦:¦· ¦c¦· ¦;¦· ¦else¦· ¦:¦· ¦d¦)¦)¦␣ ¦and¦␣ ¦(¦x¦· ¦:¦· ¦calc¦(¦1px¦␣ ¦+¦␣ ¦2px¦)¦)¦{¦}"),
    ("unquoted url with a comment start", "a¦{¦b¦:¦url¦(¦//*x*/y¦)¦␣ ¦c¦}"),
    ("unquoted url with spaces around", "a¦{¦b¦:¦url¦(¦· \n¦x\\)y\\ ¦·  ¦)¦␣ ¦c¦;¦d¦:¦url¦(¦a;b¦)¦}"),
    ("import of an url with a semicolon", "@import¦␣ ¦url¦(¦a;b[c¦)¦␣ ¦screen¦␣ ¦and¦␣ ¦(¦x¦)¦;"),
    ("whitespace at the end of an escape", ".a\\20 ¦␣ ¦.b\\31 ¦· ¦{¦c¦:¦\\61 b¦␣ ¦d\\000061 ¦␣ ¦e¦}"),
    ("space before an escape", "a¦␣ ¦\\:b¦␣ ¦\\31 ¦{¦c¦:¦d¦␣ ¦\\e9 ¦}"),
    ("licences", "/*! a */¦/** b */¦.a¦·  ¦{¦/*!c*/¦d¦:¦e¦;¦/***/¦}¦/*!/*/"),
    ("two stars then a slash", "/*! x **/¦a¦{¦}¦·/***x*/¦/*!y*/"),
    ("comment at the very end", "a¦{¦}¦·/**/"),
    ("no brace at the end", "a¦{¦b¦:¦c¦␣ ¦d"),
    ("nested rule", "a¦{¦b¦· ¦:¦· ¦c¦;¦·  ¦&¦␣ ¦:¦hover¦{¦d¦:¦e¦}¦· ¦.f¦␣ ¦&¦{¦}¦}"),
];
fn fixed(f: fn(&mut Ctx, &Sheet) -> Res) -> Vec<Fixed> {
    CASES.iter().map(|(n, t)| (*n, Box::new(move |cx: &mut Ctx| { let mut p = parse_dsl(t); if *n == "two stars then a slash" { p = two_stars() } cx.announce_fixed(p.text.clone()); f(cx, &p) }) as _)).collect()
}
fn two_stars() -> Sheet { parse_dsl("/*! x **/¦a¦{¦}¦·/* **x*/¦/*!y*/") }
pub fn fixed_c16() -> Vec<Fixed> { fixed(check_c16) }
pub fn fixed_c17() -> Vec<Fixed> { fixed(check_c17) }
pub fn fixed_c18() -> Vec<Fixed> { fixed(check_c18) }
pub fn fixed_c19() -> Vec<Fixed> { fixed(check_c19) }
pub fn fixed_c20() -> Vec<Fixed> {
    let c: &[&str] = &["", "\"", "'", "\"}", "/*", "/*/", "/**", "/*!", "/*!*", "/***", "/**/", "/***/", "/*/*/", "}", "{}}", "{", "{{", "]", "[", "[[", "[]]", "[\"]\"]", "[/*]*/]", "[\\]]", "a[b{}c[d", "\\", "\\\"", "'\\'", "\"\\\\\"",
        "a{b:\"x}\"}", "a{b:'\"}", "url(]", "url('", "url(')", "url( \")", "\\url(]", "\\61 url(]", "\\61url(]", "aurl(]", "@media{a{}}}", "/*}*/", "/* \"", "\"/*\"", "'\n'", "é]", "\\é]", "\\31 ]"];
    c.iter().map(|t| (*t, Box::new(move |cx: &mut Ctx| { cx.announce_fixed(t.to_string()); check_c20(cx, t) }) as _)).collect()
}
