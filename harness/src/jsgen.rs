//! Generator of JavaScript programs whose token list is known by construction.
//! Every statement is ended explicitly; line breaks go only where the grammar gives them no meaning.
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Word, Num, Str, Tmpl, Regex, Punct, Lic }
#[derive(Clone, Debug)]
pub struct Lex {
    pub k: K,
    pub t: String,
    /// no line break may stand before this token
    pub nonl: bool,
    /// what precedes it in the source: has it a comment, and is there anything at all
    pub comment_before: bool,
    pub gap_before: bool,
    /// a string that is no expression: the name of a property or a method, a directive
    pub name: bool,
    /// byte offset in the source
    pub at: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Program { pub module: bool, pub lx: Vec<Lex>, pub text: String, pub comments: usize, pub trailing_comment: bool, /// statements or files not made up
    pub real: usize }

#[derive(Clone)]
pub struct Opts {
    /// strings as statements, object keys and the like
    pub str_anywhere: bool,
    /// strings that are used again and again
    pub pool: Vec<String>,
    pub comments: bool,
    /// how much of: literals of all kinds
    pub lit_weight: usize,
    pub stmts: usize,
    pub r_names: bool,
    /// extra words used as free identifiers (never declared)
    pub free: Vec<String>,
    /// names the program must not use
    pub banned: Vec<String>,
    /// statements of real files, too
    pub real: bool,
}
impl Default for Opts {
    fn default() -> Self { Opts { str_anywhere: true, pool: vec![], comments: true, lit_weight: 1, stmts: 6, r_names: false, free: vec![], banned: vec![], real: true } }
}

pub const KEYWORDS: &[&str] = &["break", "case", "catch", "const", "continue", "default", "do", "else", "false", "finally", "function", "for", "if",
    "in", "instanceof", "let", "new", "null", "private", "protected", "public", "return", "switch", "this", "throw", "true", "try", "typeof", "static", "var", "while"];
const NAMES: &[&str] = &["a", "b", "c", "x", "y", "foo", "$", "_", "$a", "é", "ünï", "of", "get", "set", "async", "inf", "nan", "infinity", "NaN2", "in_", "instanceofX",
    "var1", "e1", "x0", "𝒳y", "ifx", "_1", "nulla", "from", "as", "thisx", "typeofx", "voidx", "deletex", "returnx", "N", "R", "r_zz", "r_", "constructor2", "ℵ", "target", "u0061", "b1", "xF", "\\u0061bc", "a\\u0062d"];
const PROPS: &[&str] = &["in", "return", "typeof", "case", "new", "if", "length", "toString", "x", "then", "catch", "finally", "default", "delete", "void", "instanceof", "do",
    "else", "var", "let", "of", "get", "set", "static", "async", "constructor", "e1", "$", "_", "é", "throw", "function", "class", "null", "true", "a", "b", "this", "void0", "private", "\\u0061b", "a\\u0062"];
const BINOPS: &[&str] = &["+", "-", "*", "/", "%", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "&&", "||", "&", "|", "<<", ">>", ">>>", "in", "instanceof", "^", "+", "-", "/"];
pub const ASSIGNOPS: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "<<=", ">>=", ">>>=", "&&=", "||=", "??=", "**=", "^=", "="];
pub const PUNCTS: &[&str] = &["{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>",
    "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=", "=>"];

pub fn is_id(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '$' || c == '\\' || c == '#' || (!c.is_ascii() && !c.is_whitespace() && c != '\u{2028}' && c != '\u{2029}' && c != '\u{feff}') }

/// Do the two tokens mean something else when written without anything in between?
/// `next` is the text that follows b.
pub fn fuse(a: &Lex, b: &Lex, next: &str) -> bool {
    if b.k == K::Lic { return a.k == K::Punct && a.t == "/" }
    if a.k == K::Lic { return false }
    let la = a.t.chars().last().unwrap_or(' ');
    let fb = b.t.chars().next().unwrap_or(' ');
    if a.k == K::Num && is_id(fb) { return true }
    if a.k == K::Regex && is_id(fb) { return true }
    if matches!(a.k, K::Word | K::Num) && is_id(la) && is_id(fb) && matches!(b.k, K::Word | K::Num) { return true }
    if a.k == K::Num && fb == '.' && b.k == K::Punct { return is_plain_int(&a.t) || b.t == "..." }
    if a.k == K::Num && fb == '.' { return true }
    if a.k == K::Punct && a.t == "/" && (b.k == K::Regex || fb == '/' || fb == '*') { return true }
    if a.k == K::Punct && a.t == "." && fb.is_ascii_digit() { return true }
    if a.k == K::Punct && a.t == "?" && b.k == K::Num { return false }
    if a.k == K::Punct && b.k == K::Punct {
        let ab = format!("{}{}{}", a.t, b.t, next);
        if a.t == "<" && ab.starts_with("<!--") { return true }
        return PUNCTS.iter().any(|p| p.len() > a.t.len() && ab.starts_with(p));
    }
    false
}
pub fn is_plain_int(t: &str) -> bool { t.starts_with(|c: char| c.is_ascii_digit()) && t.chars().all(|c| c.is_ascii_digit() || c == '_') }

const ASYNC: u8 = 1;
const GEN: u8 = 2;
const METHOD: u8 = 4;

pub struct G<'a, 'd> {
    pub s: &'a mut Src<'d>,
    pub o: Opts,
    pub v: Vec<Lex>,
    scope: Vec<String>,
    consts: Vec<String>,
    depth: usize,
    in_class: usize,
    in_fn: usize,
    in_loop: usize,
    /// `await`, `yield`, `super.x` and `new.target` may be used
    in_async: bool,
    in_gen: bool,
    has_super: bool,
    has_target: bool,
    privs: Vec<String>,
    /// the function has parameters of which not all are plain names
    complex: bool,
    /// a module, and its names that can be exported
    module: bool,
    tops: Vec<String>,
    has_default: bool,
    fresh: usize,
    real: usize,
    used: std::collections::HashSet<String>,
    nonl: bool,
    directives: bool,
    budget: i64,
}
impl<'a, 'd> G<'a, 'd> {
    pub fn new(s: &'a mut Src<'d>, o: Opts) -> Self {
        let budget = s.pick(&[25i64, 60, 60, 150, 400]) * s.scale as i64;
        G { s, o, v: vec![], scope: vec!["p".into()], consts: vec!["p".into()], depth: 0, in_class: 0, in_fn: 0, in_loop: 0, in_async: false, in_gen: false, has_super: false, has_target: false, privs: vec![], complex: false, module: false, tops: vec![], has_default: false, fresh: 0, real: 0, used: Default::default(), nonl: false, directives: false, budget }
    }
    pub fn push(&mut self, k: K, t: impl Into<String>) {
        let nonl = std::mem::take(&mut self.nonl);
        self.budget -= 1;
        let t = t.into();
        // a division of `of` right after the `of` of a loop: a known finding
        let n = self.v.len();
        if k == K::Punct && t.starts_with('/') && n > 1 && self.v[n - 1].t == "of" && (self.v[n - 2].k == K::Word || self.v[n - 2].t == "]") { self.v[n - 1].t = "NaN".into() }
        self.v.push(Lex { k, t, nonl, comment_before: false, gap_before: false, name: false, at: 0 });
    }
    pub fn str_name(&mut self, t: impl Into<String>) { self.push(K::Str, t); self.v.last_mut().unwrap().name = true }
    pub fn w(&mut self, t: &str) { self.push(K::Word, t) }
    pub fn p(&mut self, t: &str) { self.push(K::Punct, t) }
    /// Statements of a real file.
    fn real(&mut self) {
        let Some(f) = crate::real::js(self.s) else { return };
        let Some((v, m)) = f.slice(self.s, self.o.str_anywhere, &self.o.banned) else { return };
        self.module |= m;
        self.real += 1;
        self.budget -= v.len() as i64 / 4;
        self.v.extend(v);
        if self.v.last().is_some_and(|l| l.t != ";") && self.s.chance(1, 2) { self.p(";") }
    }
    fn hold(&mut self) { self.nonl = true }

    // ---- literals ----
    fn regex_ok(&self) -> bool {
        let Some(l) = self.v.last() else { return true };
        match l.k {
            K::Punct => !matches!(l.t.as_str(), ")" | "}" | "]" | "++" | "--"),
            K::Word => {
                let prop = self.v.len() > 1 && matches!(self.v[self.v.len() - 2].t.as_str(), "." | "?.");
                !prop && matches!(l.t.as_str(), "case" | "do" | "else" | "in" | "instanceof" | "new" | "return" | "throw" | "typeof" | "void" | "delete" | "await" | "yield" | "of" | "extends" | "default")
            }
            _ => false,
        }
    }
    pub fn text_bits(&mut self, n: usize) -> String {
        let mut o = String::new();
        for _ in 0..n {
            match self.s.below(8) {
                0 => o.push((b'a' + self.s.below(26) as u8) as char),
                1 => { let n = self.s.name(4); o.push_str(&n) }
                2 => o.push_str(self.s.pick(&[" ", "  ", "//", "/*", "*/", "*", "/", "(", ")", "{", "}", "[", "]", ";", ":", ",", "+", "-", "=", "<!--", "-->", "/*!", "$", "#", "@", "!", "?", "|", "&", "<", ">", "%", "^", "~", "."])),
                3 => o.push(self.s.pick(&['é', '😀', '\u{a0}', '\u{7f}', '\u{80}', '\u{85}', '\u{feff}', '\u{ffff}', '\u{10ffff}', '\u{3000}', '\u{1680}', 'ß', '中', '\0', '\x0b', '\x0c', '\t'])),
                4 => o.push_str(self.s.word()),
                5 => { let v = self.s.below(0x11_0000) as u32; o.push(char::from_u32(v).unwrap_or('x')) }
                6 => o.push_str(self.s.pick(&["return ", " in ", "var x = 1;", "function", "a  b", "x + + y", "1 .", "/a b/g", "r_aa", "R[0]", "if (a) {", "let ", "${", "`", "'", "\""])),
                _ => { let c = self.s.pick(&[' ', 'a', '/', '*', '\'', '"', '`', '{', '}', '[', 'é']); for _ in 0..self.s.below(5) { o.push(c) } }
            }
        }
        o
    }
    fn str_body(&mut self, q: char) -> String {
        let mut o = String::new();
        let n = self.s.size(3, 30);
        for _ in 0..n {
            match self.s.below(7) {
                6 => match self.s.below(3) {
                    0 => { let h = self.s.hex(2); o.push_str(&format!("\\x{h}")) }
                    1 => { let h = self.s.hex(4); o.push_str(&format!("\\u{h}")) }
                    _ => { let n = 1 + self.s.below(5); let h = self.s.hex(n); o.push_str(&format!("\\u{{{h}}}")) }
                },
                0 => o.push_str(self.s.pick(&["\\n", "\\t", "\\\\", "\\'", "\\\"", "\\`", "\\/", "\\x41", "\\u0041", "\\u{1F600}", "\\u2028", "\\b", "\\v", "\\f", "\\r", "\\q", "\\é", "\\\\\\\\", "\\$", "\\{", "\\ "])),
                1 if self.s.chance(1, 3) => o.push_str(self.s.pick(&["\\\n", "\\\r\n", "\\\u{2028}", "\\\n ", "\\\r"])),
                2 => { let c = if q == '\'' { '"' } else { '\'' }; o.push(c) }
                3 => o.push_str(self.s.pick(&["\u{2028}", "\u{2029}", "`", "${x}", "//", "/* x */", "*/", "/*", "use  strict", " "])),
                _ => {
                    let n = 1 + self.s.below(4);
                    let b = self.text_bits(n);
                    for c in b.chars() { if c == q || c == '\\' { o.push('\\'); o.push(c) } else if c == '\n' || c == '\r' { o.push(' ') } else { o.push(c) } }
                }
            }
        }
        if self.s.chance(1, 40) { let k = self.s.hot(2000 * self.s.scale); let c = self.s.pick(&["a", " ", "é", "\\\\", "\\n", "{"]); o.push_str(&c.repeat(k)) }
        o
    }
    pub fn str_lit(&mut self) -> String {
        if !self.o.pool.is_empty() && self.s.chance(4, 5) { let i = self.s.below(self.o.pool.len()); return self.o.pool[i].clone() }
        let q = self.s.pick(&['"', '\'']);
        format!("{q}{}{q}", self.str_body(q))
    }
    /// Code inside of `${}`: strings, templates, braces, comments, regexes.
    fn tmpl_code(&mut self, depth: usize) -> String {
        let c = self.tmpl_expr(depth);
        match self.s.below(12) { 0 => format!("{}{c}", self.tmpl_gap()), 1 => format!("{c}{}", self.tmpl_gap()), _ => c }
    }
    fn tmpl_gap(&mut self) -> String {
        let n = self.s.below(4);
        let mut b = self.text_bits(n);
        if self.s.chance(1, 2) { b.push_str(self.s.pick(&["'", "\"", "`", "{", "}", "${", "it's", "*", "//", "/*", "\\", "}`", " /'/ "])) }
        if self.s.chance(1, 2) {
            b.retain(|c| !matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
            format!("//{b}{}", self.s.pick(&["\n", "\n", "\r\n", "\u{2028}"]))
        } else { while b.contains("*/") { b = b.replace("*/", "* /") } format!("/*{b}*/") }
    }
    /// Slashes which start a regex, or don't.
    fn tmpl_slash(&mut self) -> String {
        if self.s.chance(1, 3) {
            let g = if self.s.chance(1, 3) { self.tmpl_gap() } else { self.s.pick(&["", " ", "\n"]).into() };
            let a = self.s.pick(&["a", "(a)", "a[0]", "x.in", "x.return", "x. typeof", "i++", "i--", "1.", ".5", "'s'", "\"s\"", "`t`", "f()", "$", "_", "ñ", "[]", "/a/g", "/a/", "typeofx", "inn", "({})", "this"]);
            let r = self.s.pick(&["2 + '/'", "'}'", "2 + \"//\"", "`/`", "2 / '\"'", "{}.x", "(/'/.exec(a))", "a / 'it'"]);
            return format!("{a}{g}/{}{r}", if self.s.chance(1, 2) { " " } else { "" });
        }
        let r = if self.s.chance(1, 2) { self.regex_lit() } else { self.s.pick(&["/'/", "/\"/g", "/`/", "/{/", "/}/gi", "/[/'}]/", "/\\/`/", "/${/", "/it's  /u", "/[\"'`]/g", "/\\${/", "/[`(){}]/"]).to_string() };
        let g = if self.s.chance(1, 4) { self.tmpl_gap() } else { self.s.pick(&["", "", " ", "\n"]).into() };
        match self.s.below(14) {
            0 => format!("{g}{r}"),
            1..=4 => format!("a.replace({g}{r}, 1)"),
            5 => format!("[{g}{r},{g}{r}]"),
            6 => format!("x = {g}{r}"),
            7 => format!("(x => {{ return{g}{r}.test(a) }})()"),
            8 => format!("typeof{g}{r}.source"),
            9 => format!("f(...{g}{r}.source)"),
            10 => format!("!{g}{r}.test(a)"),
            11 => format!("a ? {g}{r} : {g}{r}"),
            12 => format!("a +{g}{r}.exec(a)"),
            _ => format!("a && {g}{r}.exec(a)"),
        }
    }
    fn tmpl_expr(&mut self, depth: usize) -> String {
        match self.s.below(if depth > 3 { 7 } else { 11 }) {
            6 => self.tmpl_slash(),
            0 => "a".into(),
            1 if self.s.chance(1, 2) => self.s.pick(&["q.replace(/[//]/g,1)", "/\\/\\//.test(a)", "/[/*]/.test(a)", "a.b(/x\\/*y/)", "/=\\//y.exec( a )", "[/[^//]+/,/ /]", "a\n/ b /\nc", "x=/\\/\\/ \\[/"]).into(),
            1 => self.s.pick(&["1", "x.y", "a + b", " a ", "f(1)", "a / b / c", "[1, 2]", "i++ + 1", "void  0", "/ab  c/g.test(x)", "\na\n"]).into(),
            2 => { let q = self.s.pick(&['"', '\'']); format!("{q}{}{q}", self.str_body(q)) }
            3 => format!("{{a: {{b: {}}}}}.a", self.tmpl_code(depth + 1)),
            4 => format!("(x => {{ return {} }})()", self.tmpl_code(depth + 1)),
            5 => "{}".into(),
            7 | 8 => self.tmpl(depth + 1),
            9 => format!("{} + {}", self.tmpl_code(depth + 1), self.tmpl(depth + 1)),
            _ => { // a tall tower of templates
                let n = if self.s.chance(1, 6) { self.s.hot(900) } else { self.s.below(8) };
                format!("{}x{}", "`${".repeat(n), "}`".repeat(n))
            }
        }
    }
    fn tmpl(&mut self, depth: usize) -> String {
        let mut o = String::from("`");
        for _ in 0..self.s.size(3, 12) {
            match self.s.below(7) {
                0 | 1 => { let c = self.tmpl_code(depth); o.push_str("${"); o.push_str(&c); o.push('}') }
                2 => o.push_str(self.s.pick(&["\\`", "\\${", "\\\\", "$", "\\n", "\\u0041", "$\\{", "}", "{", "\n", "\r\n", "  ", "//", "/*", "*/", "'", "\"", "\\\n", "\\$"])),
                3 => { let c = self.s.pick(&[' ', '\n', '\t', '$', '}', '\'']); for _ in 0..self.s.below(4) { o.push(c) } }
                _ => {
                    let n = 1 + self.s.below(4);
                    let b = self.text_bits(n);
                    for c in b.chars() { if c == '`' || c == '\\' || c == '{' { o.push('\\') } o.push(c) }
                }
            }
            // what follows must not turn a final `$` into the start of an expression by accident
            if o.ends_with('$') && !o.ends_with("\\$") { o.push('.') }
        }
        let k = self.s.long(60, 3000);
        o.push_str(&self.s.pick(&["a", " ", "\n", "\\`", "${1}", "é"]).repeat(k));
        o.push('`');
        o
    }
    pub fn tmpl_lit(&mut self) -> String {
        // text_bits can contain `${` or end with one; such templates are repaired here
        for _ in 0..4 {
            let t = self.tmpl(0);
            if tmpl_ok(&t) { return t }
        }
        "`x ${a}  b`".into()
    }
    pub fn regex_lit(&mut self) -> String {
        if self.s.chance(1, 40) { return self.s.pick(&["/[\\p{L}--[a-z]]/v", "/[[a-z]&&[aeiou]]  /vg", "/\\p{Lu}  '/u", "/[\\q{abc|d}\\/]/giv", "/[^\\p{L}[0-9]]'/dv"]).into() }
        let mut o = String::from("/");
        let n = 1 + self.s.size(3, 20);
        let u = self.s.chance(1, 5);
        for i in 0..n {
            match self.s.below(9) {
                0 => o.push_str(self.s.pick(&["a", "b", " ", "  ", "=", ",", ";", ":", "'", "\"", "`", "-", "é", "😀", "%", "&", "#", "@", "!", "<", ">", "~", "_"])),
                1 => o.push_str(self.s.pick(&["\\/", "\\/\\/", "\\/*", "\\\\", "\\.", "\\[", "\\]", "\\(", "\\)", "\\d", "\\w+", "\\s*", "\\b", "\\n", "\\u0041", "\\x41", "\\$", "\\{", "\\}", "\\*", "\\|", "\\^"])),
                2 => o.push_str(self.s.pick(&["[/]", "[^/]", "[/*]", "[//]", "[\\]/]", "[\\\\/]", "[a-z]", "['\"]", "[`]", "[\\[/]", "[ ]", "[^\\]]", "[*/]", "[(]", "[}]", "[\\d/]", "[$]", "[\\^/]", "[é/]"])),
                3 => o.push_str(self.s.pick(&["(a|b)", "(?:x)", "(/)".replace('/', "\\/").as_str(), "(?=y)", "(?<n>z)", "(?!q)", "( )", "()", "(?:)"])),
                4 if i > 0 => o.push_str(self.s.pick(&["|", "|x", ".", ".*", "$", "^"])),
                5 => o.push_str(self.s.pick(&["a*", "b+", "c?", "d{2}", "e{1,3}", "f*?", ".+?"])),
                6 => { let w: String = self.s.word().chars().filter(|c| c.is_alphanumeric() || matches!(c, ' ' | '=' | ';' | ',')).collect(); o.push_str(&w) }
                7 => o.push_str(self.s.pick(&["return ", "a  b", "/*".replace('/', "\\/").as_str(), "=", "http:\\/\\/x", "x \\/ y"])),
                _ => { let k = self.s.below(4); o.push_str(&" ".repeat(k)); o.push((b'a' + self.s.below(26) as u8) as char) }
            }
        }
        let k = self.s.long(60, 3000);
        o.push_str(&self.s.pick(&["a", "\\/", "[/]", " ", "\\\\"]).repeat(k));
        if o.len() == 1 { o.push('x') }
        // only one group may have the name n
        if let Some(i) = o.find("(?<n>") { let r = o[i + 5..].replace("(?<n>", "(?:"); o.truncate(i + 5); o.push_str(&r) }
        if o.starts_with("/*") { o.insert(1, 'x') }
        o.push('/');
        let mut fl: Vec<char> = "dgimsy".chars().filter(|_| self.s.chance(1, 4)).collect();
        if u { fl.push('u') }
        for i in (1..fl.len()).rev() { let j = self.s.below(i + 1); fl.swap(i, j) }
        o.extend(fl);
        o
    }
    pub fn num_lit(&mut self) -> String {
        let d = |g: &mut Self, n: usize| -> String { (0..n).map(|_| (b'0' + g.s.below(10) as u8) as char).collect() };
        match self.s.below(16) {
            0..=3 => self.s.below(300).to_string(),
            4 => "0".into(),
            5 => { let n = 1 + self.s.below(4); let f = d(self, n); format!("{}.{f}", self.s.below(100)) }
            6 => { let n = 1 + self.s.below(4); format!(".{}", d(self, n)) }
            7 => { // a final dot, or a fraction after many digits
                let n = if self.s.chance(1, 2) { 0 } else if self.s.chance(1, 10) { self.s.hot(500) } else { self.s.size(12, 40) };
                let t = d(self, n);
                let f = if n > 0 && self.s.chance(1, 3) { d(self, 2) } else { String::new() };
                format!("{}{t}.{f}", if n > 0 { 1 + self.s.below(9) } else { self.s.below(100) })
            }
            8 => { let n = 1 + self.s.size(6, 60); let t = d(self, n); format!("{}{t}", 1 + self.s.below(9)) }
            9 => self.s.pick(&["1e3", "1E3", "1e+3", "1e-3", "1.5e-7", ".5e2", "0e0", "2e-1", "9e+21", "0.1E-2"]).into(),
            10 if self.s.chance(1, 2) => { let n = 1 + self.s.size(8, 30); format!("0{}{}", self.s.pick(&["x", "X"]), self.s.hex(n)) }
            9 if self.s.chance(1, 2) => { let (m, n) = (1 + self.s.below(3), 1 + self.s.below(3)); let m = if self.s.chance(1, 2) { format!("{}.{}", self.s.below(20), d(self, m)) } else { (1 + self.s.below(99)).to_string() }; format!("{m}{}{}{}", self.s.pick(&["e", "E"]), self.s.pick(&["", "+", "-"]), d(self, n)) }
            10 => self.s.pick(&["0x1F", "0XfF", "0b101", "0B1", "0o17", "0O7", "0xe", "0xe1", "0x0", "0xabcdef"]).into(),
            11 => self.s.pick(&["10n", "0n", "0x1fn", "1_000", "0b1_0", "1_0.0_1", "123_456n", "1_000.5", "1_000.", "1_0.25"]).into(),
            12 => self.s.pick(&["0.0", "0.10", "1.50", "100.00", "00.5".trim_start_matches('0'), "0.1000", "12.0"]).into(),
            13 => self.s.pick(&["18446744073709551615", "18446744073709551616", "9007199254740993", "4294967296", "99999999999999999999999", "1e999"]).into(),
            14 => self.s.hot(100_000).to_string(),
            _ if self.in_class == 0 => self.s.pick(&["010", "00", "07", "017", "09", "08"]).into(),
            _ => "7".into(),
        }
    }

    // ---- names ----
    fn new_name(&mut self, constant: bool) -> String {
        let base = if self.o.r_names && self.s.chance(1, 4) {
            self.s.pick(&["r_aa", "r_ba", "r_ca", "r_ab", "r_da", "r_x", "r_aaa", "r_bb", "r_", "xr_aa"]).to_string()
        } else if self.s.chance(1, 5) {
            let w: String = self.s.word().chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
            if w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.len() < 12 { w } else { "q".into() }
        } else if self.s.chance(1, 5) { let n = self.s.name(5); if self.s.chance(1, 4) { format!("${n}") } else { n }
        } else { self.s.pick(NAMES).to_string() };
        let k = self.s.long(100, 2000);
        let base = if k > 0 { format!("{base}{}", self.s.pick(&["a", "é", "$", "_0"]).repeat(k)) } else { base };
        let reserved = RESERVED.contains(&base.as_str());
        let n = if reserved || self.used.contains(&base) || self.o.free.contains(&base) || self.o.banned.contains(&base) || self.s.chance(1, 8) { self.fresh += 1; format!("{base}_{}", self.fresh) } else { base };
        // an escape in an identifier
        self.used.insert(n.clone());
        self.scope.push(n.clone());
        if constant || n.starts_with("r_") { self.consts.push(n.clone()) }
        n
    }
    fn any_name(&mut self) -> String {
        if !self.o.free.is_empty() && self.s.chance(1, 6) { let i = self.s.below(self.o.free.len()); return self.o.free[i].clone() }
        let i = self.s.below(self.scope.len());
        self.scope[i].clone()
    }
    fn var_name(&mut self) -> Option<String> {
        let c: Vec<String> = self.scope.iter().filter(|n| !self.consts.contains(n)).cloned().collect();
        if c.is_empty() { None } else { let i = self.s.below(c.len()); Some(c[i].clone()) }
    }

    // ---- expressions ----
    fn args(&mut self) {
        self.p("(");
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.p(",") }
            if self.s.chance(1, 10) { self.p("..."); if self.s.chance(1, 3) { let t = self.str_lit(); self.push(K::Str, t) } else if self.s.chance(1, 8) { let t = self.regex_lit(); self.push(K::Regex, t) } else { self.array() } } else { self.expr() }
        }
        if n > 0 && self.s.chance(1, 10) { self.p(",") }
        self.p(")");
    }
    fn array(&mut self) {
        self.p("[");
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.p(",") }
            match self.s.below(12) { 0 if i + 1 < n => {} 1 => { self.p("..."); self.array() } _ => self.expr() }
        }
        if n > 0 { for _ in 0..self.s.long(100, 1100) { self.p(","); self.primary_lit() } }
        if self.s.chance(1, 8) && n > 0 { self.p(",") }
        self.p("]");
    }
    fn prop_name(&mut self) {
        match self.s.below(8) {
            0 if self.o.str_anywhere => { let t = self.str_lit(); self.str_name(t) }
            1 => { let t = if self.s.chance(1, 2) { self.num_lit() } else { self.s.below(20).to_string() }; self.push(K::Num, t) }
            2 => { self.p("["); self.expr(); self.p("]") }
            _ => { let t = self.s.pick(PROPS); self.w(t) }
        }
    }
    fn object(&mut self) {
        self.p("{");
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.p(",") }
            match self.s.below(11) {
                0 => { let t = self.any_name(); self.w(&t) }
                1 => { self.p("..."); self.w("p") }
                2 => { self.prop_name(); self.fn_tail(METHOD) }
                3 => { self.w("get"); self.prop_name(); self.getter() }
                4 => { self.p("*"); self.prop_name(); self.fn_tail(METHOD | GEN) }
                5 => { self.w("async"); self.hold(); self.prop_name(); self.fn_tail(METHOD | ASYNC) }
                6 => { self.w("set"); self.prop_name(); self.setter() }
                7 if self.s.chance(1, 2) => { self.w("async"); self.hold(); self.p("*"); self.prop_name(); self.fn_tail(METHOD | ASYNC | GEN) }
                _ => { self.prop_name(); self.p(":"); self.expr() }
            }
        }
        if n > 0 && self.s.chance(1, 8) { self.p(",") }
        self.p("}");
    }
    /// parameters and body; names declared inside are forgotten afterwards
    fn fn_tail(&mut self, kind: u8) {
        let (sl, cl) = (self.scope.len(), self.consts.len());
        let old = (self.in_async, self.in_gen, self.has_super, self.has_target);
        (self.in_async, self.in_gen, self.has_super, self.has_target) = (false, false, kind & METHOD > 0, true);
        let mut complex = false;
        self.p("(");
        let n = self.s.below(3);
        for i in 0..n {
            if i > 0 { self.p(",") }
            let t = self.new_name(false);
            if i + 1 == n && self.s.chance(1, 6) { complex = true; self.p("..."); self.w(&t) } else {
                self.w(&t);
                if self.s.chance(1, 4) { complex = true; self.p("="); self.expr_simple() }
            }
        }
        self.p(")");
        self.complex = complex;
        (self.in_async, self.in_gen) = (kind & ASYNC > 0, kind & GEN > 0);
        self.body();
        (self.in_async, self.in_gen, self.has_super, self.has_target) = old;
        self.scope.truncate(sl);
        self.consts.truncate(cl);
    }
    /// a getter's parameters and body
    fn getter(&mut self) {
        self.p("("); self.p(")");
        self.complex = false;
        let old = (self.in_async, self.in_gen, self.has_super, self.has_target);
        (self.in_async, self.in_gen, self.has_super, self.has_target) = (false, false, true, true);
        self.body();
        (self.in_async, self.in_gen, self.has_super, self.has_target) = old;
    }
    /// a setter's parameter and body
    fn setter(&mut self) {
        let (sl, cl) = (self.scope.len(), self.consts.len());
        let old = (self.in_async, self.in_gen, self.has_super, self.has_target);
        (self.in_async, self.in_gen, self.has_super, self.has_target) = (false, false, true, true);
        self.p("("); let t = self.new_name(false); self.w(&t); self.p(")");
        self.complex = false;
        self.body();
        (self.in_async, self.in_gen, self.has_super, self.has_target) = old;
        self.scope.truncate(sl);
        self.consts.truncate(cl);
    }
    /// Strings that are statements at the start of a function or of the program.
    pub fn prologue(&mut self) {
        for _ in 0..=self.s.below(2) {
            let t = match self.s.below(3) { 0 if !self.complex => { self.in_class += 1; self.s.pick(&["'use strict'", "\"use strict\""]).to_string() }, _ => self.str_lit() };
            self.str_name(t);
            self.p(";");
        }
        if self.s.chance(1, 2) { // tells whether it is in force
            for t in ["p", "(", "function", "(", ")", "{", "return", "typeof", "this", ";", "}", "(", ")", ")", ";"] { if is_id(t.chars().next().unwrap()) { if t == "typeof" { self.hold() } self.w(t) } else { self.p(t) } }
        }
    }
    fn body(&mut self) {
        let l = std::mem::replace(&mut self.in_loop, 0);
        self.in_fn += 1;
        self.directives = self.o.str_anywhere && self.s.chance(1, 10);
        self.block();
        self.in_fn -= 1;
        self.in_loop = l;
    }
    fn block(&mut self) {
        let (sl, cl) = (self.scope.len(), self.consts.len());
        self.depth += 1;
        self.p("{");
        let class = self.in_class;
        if std::mem::take(&mut self.directives) { self.prologue() }
        let n = if self.depth > 5 || self.budget < 0 { 0 } else { self.s.below(3) };
        for _ in 0..n { self.stmt(false) }
        self.p("}");
        self.in_class = class;
        self.depth -= 1;
        self.scope.truncate(sl);
        self.consts.truncate(cl);
    }
    fn primary_lit(&mut self) {
        match self.s.below(10) {
            0..=2 => { let t = self.num_lit(); self.push(K::Num, t) }
            3..=5 => { let t = self.str_lit(); self.push(K::Str, t) }
            6 | 7 => { let t = self.tmpl_lit(); self.push(K::Tmpl, t) }
            _ if self.regex_ok() => { let t = self.regex_lit(); self.push(K::Regex, t) }
            _ => { let t = self.str_lit(); self.push(K::Str, t) }
        }
    }
    fn expr_simple(&mut self) {
        match self.s.below(4) { 0 => { let t = self.any_name(); self.w(&t) } _ => self.primary_lit() }
    }
    fn primary(&mut self) {
        self.depth += 1;
        let deep = self.depth > 7 || self.budget < 0;
        let k = if deep { self.s.below(6) } else { self.s.below(18 + 3 * self.o.lit_weight) };
        match k {
            0 | 1 => { let t = self.any_name(); self.w(&t) }
            2 | 3 => self.primary_lit(),
            4 => { let t = self.s.pick(&["this", "null", "true", "false", "undefined"]); self.w(t) }
            5 => { let t = self.num_lit(); self.push(K::Num, t) }
            6 => self.array(),
            7 => {
                let k = self.s.long(40, 600);
                let (o, c) = self.s.pick(&[("(", ")"), ("[", "]")]);
                for _ in 0..k { self.p(o) }
                self.p("("); self.expr(); if self.s.chance(1, 5) { self.p(","); self.expr() } self.p(")");
                for _ in 0..k { self.p(c) }
            }
            8 => { self.p("("); self.object(); self.p(")") }
            9 => {
                self.p("(");
                let a = self.s.chance(1, 6);
                if a { self.w("async"); self.hold() }
                self.w("function");
                let g = self.s.chance(1, 5);
                if g { self.p("*") }
                if self.s.chance(1, 4) { let t = self.s.pick(&["f", "g", "é1"]); self.w(t) }
                self.fn_tail(if a { ASYNC } else { 0 } | if g { GEN } else { 0 });
                let inside = self.s.chance(1, 4);
                if inside { self.args() }
                self.p(")");
                if !inside && self.s.chance(1, 3) { self.args() }
            }
            10 => { // arrow
                self.p("(");
                let (sl, cl) = (self.scope.len(), self.consts.len());
                let a = self.s.chance(1, 6);
                if a { self.w("async"); self.hold() }
                let old = (self.in_async, self.in_gen);
                (self.in_async, self.in_gen) = (a, false);
                if self.s.chance(1, 2) { let t = self.new_name(false); self.w(&t) } else {
                    self.p("(");
                    if self.s.chance(1, 2) { let t = self.new_name(false); self.w(&t) }
                    self.p(")")
                }
                self.hold();
                self.p("=>");
                self.complex = false;
                if self.s.chance(1, 2) { self.body() } else { self.expr() }
                (self.in_async, self.in_gen) = old;
                self.scope.truncate(sl);
                self.consts.truncate(cl);
                self.p(")");
                if self.s.chance(1, 4) { self.args() }
            }
            11 => { self.w("new"); let t = self.s.pick(&["Object", "Array", "Date2", "Map"]); self.w(t); self.args() }
            12 => { self.w("p"); self.args() }
            13 => { self.w("String"); self.p("."); self.w("raw"); let t = self.tmpl_lit(); self.push(K::Tmpl, t) }
            14 => { let t = self.str_lit(); self.push(K::Str, t) }
            15 => { self.p("("); self.class(); self.p(")") }
            16 => { self.object_ok() }
            17 if self.module && self.s.chance(1, 4) => { self.w("import"); self.p("."); self.w("meta"); self.p("."); self.w("url") }
            17 => match self.s.below(6) {
                0 if self.has_target => { self.w("new"); self.p("."); self.w("target") }
                1 if self.has_super => { self.w("super"); self.p("."); let t = self.s.pick(PROPS); self.w(t) }
                2 if !self.privs.is_empty() => { let i = self.s.below(self.privs.len()); let t = self.privs[i].clone(); self.p("("); self.w(&t); self.w("in"); self.w("p"); self.p(")") }
                3 if !self.privs.is_empty() => { let i = self.s.below(self.privs.len()); let t = self.privs[i].clone(); self.w("this"); self.p("?."); self.w(&t) }
                4 => { self.w("import"); self.p("("); let t = self.str_lit(); self.push(K::Str, t); self.p(")") }
                _ => { self.w("p"); let t = self.tmpl_lit(); self.push(K::Tmpl, t) }
            },
            _ => self.primary_lit(),
        }
        self.depth -= 1;
    }
    /// an object literal where one can stand unparenthesised, else a name
    fn object_ok(&mut self) {
        if self.v.last().map_or(false, |l| matches!(l.t.as_str(), "=" | "(" | "," | "[" | "?" | "return")) { self.object() } else { let t = self.any_name(); self.w(&t) }
    }
    fn postfix(&mut self) {
        self.primary();
        let mut n = self.s.below(3);
        // no template may follow in an optional chain
        let mut opt = self.v.len() > 1 && self.v[self.v.len() - 2].t == "?.";
        while n > 0 && self.budget > 0 {
            n -= 1;
            match self.s.below(8) {
                0..=2 => { let d = if self.s.chance(1, 4) { opt = true; "?." } else { "." }; self.p(d); let t = self.s.pick(PROPS); self.w(t) }
                3 => { self.p("["); self.expr(); self.p("]") }
                4 => { opt = true; self.p("?."); self.p("["); self.expr(); self.p("]") }
                7 if !opt => { self.p("."); self.w("toString"); let t = self.tmpl_lit(); self.push(K::Tmpl, t) }
                7 => { self.p("."); self.w("toString"); self.p("?."); self.p("("); self.p(")") }
                5 if self.v.last().map_or(false, |l| l.t == "toString") => { self.p("("); self.p(")") }
                _ => { self.p("."); self.w("toString"); self.p("("); self.p(")") }
            }
        }
    }
    fn unary(&mut self) {
        if self.budget < 0 { return self.postfix() }
        if self.in_async && self.s.chance(1, 5) { self.w("await"); return self.unary() }
        match self.s.below(16) {
            15 => { self.p("!"); self.unary() }
            1 => { let t = self.s.pick(&["-", "+"]); self.p(t); self.unary() }
            2 => { let t = self.s.pick(&["typeof", "void"]); self.w(t); self.unary() }
            3 => { self.p("~"); self.unary() }
            4 => match self.var_name() { Some(t) => { let o = self.s.pick(&["++", "--"]); self.p(o); self.w(&t) } None => self.postfix() },
            5 => match self.var_name() { Some(t) => { self.w(&t); self.hold(); let o = self.s.pick(&["++", "--"]); self.p(o) } None => self.postfix() },
            6 => { self.w("delete"); let t = self.any_name(); self.w(&t); self.p("."); let t = self.s.pick(PROPS); self.w(t) }
            _ => self.postfix(),
        }
    }
    fn binary(&mut self) {
        if self.s.chance(1, 12) { self.postfix(); self.p("**"); self.unary(); return }
        if self.s.chance(1, 16) { self.postfix(); self.p("??"); self.postfix(); return }
        self.unary();
        let mut n = match self.s.below(4) { 0 | 1 => 0, 2 => 1, _ => 1 + self.s.below(3) };
        while n > 0 && self.budget > 0 {
            n -= 1;
            let o = self.s.pick(BINOPS);
            if o == "in" || o == "instanceof" { self.w(o) } else { self.p(o) }
            self.unary();
        }
    }
    pub fn expr(&mut self) {
        if self.budget < 0 { let t = self.any_name(); self.w(&t); return }
        self.depth += 1;
        if self.in_gen && self.depth < 9 && self.s.chance(1, 5) {
            self.w("yield");
            self.hold();
            if self.s.chance(1, 4) { self.p("*") }
            self.expr();
            self.depth -= 1;
            return;
        }
        match self.s.below(14) {
            13 if self.depth < 8 => { self.binary(); self.p("?"); self.expr(); self.p(":"); self.expr() }
            1 => match self.var_name() { Some(t) => { self.w(&t); let o = self.s.pick(ASSIGNOPS); self.p(o); self.expr() } None => self.binary() },
            _ => self.binary(),
        }
        self.depth -= 1;
    }
    fn class(&mut self) {
        self.w("class");
        if self.s.chance(1, 3) { let t = self.s.pick(&["C", "D", "é2"]); self.w(t) }
        if self.s.chance(1, 5) { self.extends() }
        self.class_body();
    }
    fn extends(&mut self) {
        self.w("extends");
        match self.s.below(10) {
            0 => { self.p("("); self.expr(); self.p(")") }
            1 => self.w("null"),
            2 => { let t = self.regex_lit(); self.push(K::Regex, t) }
            _ => self.w("Object"),
        }
    }
    fn class_body(&mut self) {
        self.in_class += 1;
        let privs = self.privs.len();
        let old = (self.in_async, self.in_gen);
        (self.in_async, self.in_gen) = (false, false);
        self.p("{");
        let n = self.s.below(4);
        for _ in 0..n {
            let st = self.s.chance(1, 4);
            match self.s.below(10) {
                8 => { // a private method or accessor
                    if st { self.w("static") }
                    self.fresh += 1;
                    let t = format!("#m{}", self.fresh);
                    let k = self.s.below(6);
                    match k { 0 => self.w("get"), 1 => self.w("set"), 2 => self.p("*"), 3 => { self.w("async"); self.hold() } 4 => { self.w("async"); self.hold(); self.p("*") } _ => {} }
                    self.w(&t);
                    self.privs.push(t);
                    match k { 0 => self.getter(), 1 => self.setter(), 2 => self.fn_tail(METHOD | GEN), 3 => self.fn_tail(METHOD | ASYNC), 4 => self.fn_tail(METHOD | ASYNC | GEN), _ => self.fn_tail(METHOD) }
                }
                9 => {
                    if st { self.w("static") }
                    match self.s.below(5) {
                        0 => { self.w("set"); let t = self.s.pick(&["x", "in", "set"]); self.w(t); self.setter() }
                        1 => { self.w("async"); self.hold(); let t = self.s.pick(&["m", "get", "static"]); self.w(t); self.fn_tail(METHOD | ASYNC) }
                        2 => { self.w("async"); self.hold(); self.p("*"); let t = self.s.pick(&["m", "await", "yield"]); self.w(t); self.fn_tail(METHOD | ASYNC | GEN) }
                        3 => { let t = self.num_lit(); self.push(K::Num, t); self.fn_tail(METHOD) }
                        _ => { let t = self.s.pick(&["get", "set", "static", "async", "await"]); self.w(t); self.p("="); self.expr(); self.p(";") }
                    }
                }
                7 if self.o.str_anywhere => {
                    if st { self.w("static") }
                    let t = self.str_lit();
                    match self.s.below(4) {
                        0 => { self.str_name(t); self.p(";") }
                        1 => { self.str_name(t); self.p("="); self.expr(); self.p(";") }
                        2 => { self.w("get"); self.str_name(t); self.getter() }
                        _ => { self.str_name(t); self.fn_tail(METHOD) }
                    }
                }
                0 => { if st { self.w("static") } self.fresh += 1; let t = format!("#x{}", self.fresh); self.w(&t); self.privs.push(t); if self.s.chance(1, 2) { self.p("="); self.expr() } self.p(";") }
                1 => { if st { self.w("static") } let t = self.s.pick(&["x", "in", "y1", "of", "é"]); self.w(t); if self.s.chance(1, 2) { self.p("="); self.expr() } self.p(";") }
                2 => { self.w("static"); let f = std::mem::replace(&mut self.in_fn, 0); let l = std::mem::replace(&mut self.in_loop, 0); self.block(); self.in_fn = f; self.in_loop = l }
                3 => { if st { self.w("static") } self.w("get"); let t = self.s.pick(&["x", "in", "q"]); self.w(t); self.getter() }
                4 => { if st { self.w("static") } self.p("*"); self.p("["); self.expr_simple(); self.p("]"); self.fn_tail(METHOD | GEN) }
                5 => self.p(";"),
                _ => { if st { self.w("static") } let t = self.s.pick(&["m", "in", "return", "get", "set", "async", "of"]); self.w(t); self.fn_tail(METHOD) }
            }
        }
        self.p("}");
        self.privs.truncate(privs);
        (self.in_async, self.in_gen) = old;
        self.in_class -= 1;
    }

    // ---- statements ----
    fn declarators(&mut self, n: usize, constant: bool) {
        for i in 0..n {
            if i > 0 { self.p(",") }
            match self.s.below(8) {
                0 => { // destructuring
                    self.p("{");
                    let t = self.new_name(constant);
                    self.w("a"); self.p(":"); self.w(&t);
                    if self.s.chance(1, 2) { self.p("="); self.expr_simple() }
                    self.p("}"); self.p("="); self.p("{"); self.p("}")
                }
                1 => { self.p("["); let t = self.new_name(constant); self.w(&t); self.p("]"); self.p("="); self.p("["); self.p("]") }
                2 if !constant => { let t = self.new_name(constant); self.w(&t) }
                _ => {
                    let at = self.scope.len();
                    let t = self.new_name(constant);
                    self.w(&t);
                    self.p("=");
                    // not visible in its own initialiser
                    let moved = self.scope.split_off(at);
                    self.expr();
                    self.scope.extend(moved);
                }
            }
        }
    }
    pub fn stmt(&mut self, top: bool) {
        if self.budget < 0 && !top { self.p(";"); return }
        self.depth += 1;
        let big = self.depth > 6;
        match self.s.below(if big { 8 } else { 30 }) {
            0..=2 => { self.w("p"); self.args(); self.p(";") }
            3 | 4 => { let k = self.s.pick(&["var", "let", "const", "var"]); self.w(k); let n = 1 + self.s.below(3); self.declarators(n, k == "const"); self.p(";") }
            5 => match self.var_name() { Some(t) => { self.w(&t); let o = self.s.pick(&["=", "+=", "/=", "??="]); self.p(o); self.expr(); self.p(";") } None => self.p(";") },
            6 => match self.var_name() { Some(t) => { if self.s.chance(1, 2) { self.w(&t); self.hold(); self.p("++") } else { self.p("--"); self.w(&t) } self.p(";") } None => self.p(";") },
            7 => self.p(";"),
            8 => { self.w("if"); self.p("("); self.expr(); self.p(")"); self.block(); if self.s.chance(1, 2) { self.w("else"); if self.s.chance(1, 2) { self.block() } else { self.w("p"); self.args(); self.p(";") } } }
            9 => { // for
                let (sl, cl) = (self.scope.len(), self.consts.len());
                self.w("for"); self.p("("); self.w("let");
                self.fresh += 1;
                let t = format!("i{}", self.fresh);
                self.w(&t); self.p("="); self.push(K::Num, "0"); self.p(";"); self.w(&t); self.p("<"); self.push(K::Num, "2"); self.p(";");
                if self.s.chance(1, 2) { self.w(&t); self.hold(); self.p("++") } else { self.p("++"); self.w(&t) }
                self.p(")");
                if self.s.chance(1, 6) { self.p(";") } else {
                    self.scope.push(t.clone()); self.consts.push(t);
                    self.in_loop += 1;
                    self.block();
                    self.in_loop -= 1;
                }
                self.scope.truncate(sl); self.consts.truncate(cl);
            }
            10 => {
                let (sl, cl) = (self.scope.len(), self.consts.len());
                self.w("for");
                let aw = self.in_async && self.s.chance(1, 2);
                if aw { self.w("await") }
                self.p("("); let k = self.s.pick(&["var", "let", "const"]); self.w(k);
                let t = self.new_name(true);
                self.w(&t);
                match if aw { 4 + self.s.below(4) } else { self.s.below(8) } {
                    0..=3 => { self.w("in"); self.expr_obj() }
                    4 => { self.w("of"); let t = self.regex_lit(); self.push(K::Regex, t); self.p("."); self.w("exec"); self.args() }
                    5 => { self.w("of"); self.expr() }
                    _ => { self.w("of"); self.array() }
                }
                self.p(")");
                self.in_loop += 1;
                self.block();
                self.in_loop -= 1;
                self.scope.truncate(sl); self.consts.truncate(cl);
            }
            11 => {
                self.fresh += 1;
                let t = format!("n{}", self.fresh);
                self.w("var"); self.w(&t); self.p("="); self.push(K::Num, "2"); self.p(";");
                self.w("while"); self.p("("); self.w(&t); self.hold(); self.p("--"); self.p(">"); self.push(K::Num, "0"); self.p(")");
                if self.s.chance(1, 6) { self.p(";") } else { self.in_loop += 1; self.block(); self.in_loop -= 1 }
            }
            12 => { self.w("do"); if self.s.chance(1, 3) { self.primary_lit(); self.p(";") } else { self.block() } self.w("while"); self.p("("); self.w("false"); self.p(")"); self.p(";") }
            13 => {
                self.w("switch"); self.p("("); self.expr(); self.p(")"); self.p("{");
                let (sl, cl) = (self.scope.len(), self.consts.len());
                for _ in 0..self.s.below(3) { self.w("case"); self.expr(); self.p(":"); if self.s.chance(1, 2) { self.w("p"); self.args(); self.p(";") } if self.s.chance(1, 2) { self.w("break"); self.p(";") } }
                if self.s.chance(1, 2) { self.w("default"); self.p(":"); self.w("p"); self.args(); self.p(";") }
                self.p("}");
                self.scope.truncate(sl); self.consts.truncate(cl);
            }
            14 => {
                self.w("try"); self.block();
                let k = self.s.below(3);
                if k != 1 { self.w("catch"); if self.s.chance(1, 2) { self.p("("); self.w("e"); self.p(")") } self.block() }
                if k != 0 { self.w("finally"); self.block() }
            }
            15 => { self.w("try"); self.p("{"); self.w("throw"); self.hold(); self.expr(); self.p(";"); self.p("}"); self.w("catch"); self.p("("); self.w("e"); self.p(")"); self.p("{"); self.w("p"); self.p("("); self.w("e"); self.p(")"); self.p(";"); self.p("}") }
            16 | 17 => {
                let a = self.s.chance(1, 6);
                if a { self.w("async"); self.hold() }
                self.w("function");
                let g = self.s.chance(1, 6);
                if g { self.p("*") }
                let t = self.new_name(true);
                self.w(&t);
                self.fn_tail(if a { ASYNC } else { 0 } | if g { GEN } else { 0 });
                if self.s.chance(1, 4) {
                    if g && !a && self.s.chance(1, 2) { self.w("p"); self.p("("); self.p("..."); self.w(&t); self.args(); self.p(")") } else { self.w(&t); self.args() }
                    self.p(";");
                }
            }
            18 => { self.w("class"); let t = self.new_name(true); self.w(&t); self.class_body() }
            19 => self.block(),
            20 if self.in_fn > 0 => { self.w("return"); if self.s.chance(3, 4) { self.hold(); self.expr() } self.p(";") }
            21 if self.in_loop > 0 => { let t = self.s.pick(&["break", "continue"]); self.w(t); self.p(";") }
            22 => { // label
                self.fresh += 1;
                let t = format!("L{}", self.fresh);
                self.w(&t); self.p(":"); match self.s.below(4) {
                    0 => { self.p("{"); self.w("p"); self.args(); self.p(";"); self.w("break"); self.hold(); self.w(&t); self.p(";"); self.p("}") }
                    1 => {
                        self.w("for"); self.p("("); self.w("const"); let n = format!("n{}", self.fresh); self.w(&n); self.w("of"); self.array(); self.p(")"); self.p("{");
                        self.w("for"); self.p("("); self.p(";"); self.p(";"); self.p(")"); if self.s.chance(1, 2) { self.p("{") ; self.w("p"); self.args(); self.p(";"); self.w("continue"); self.hold(); self.w(&t); self.p(";"); self.p("}") } else { self.w("continue"); self.hold(); self.w(&t); self.p(";") }
                        self.p("}")
                    }
                    _ => { self.w("for"); self.p("("); self.p(";"); self.p(";"); self.p(")"); self.p("{"); self.w("break"); self.hold(); self.w(&t); self.p(";"); self.p("}") }
                }
            }
            23 => { // a statement that starts with an expression
                match self.s.below(3) {
                    0 if self.regex_ok() => { let t = self.regex_lit(); self.push(K::Regex, t); self.p("."); self.w("test"); self.args(); self.p(";") }
                    1 if self.o.str_anywhere => { let t = self.str_lit(); self.push(K::Str, t); self.p(";") }
                    _ => { self.p("("); self.expr(); self.p(")"); self.p(";") }
                }
            }
            24 => { // a run of `in`/`instanceof`/keywords next to all kinds of operands
                self.w("p"); self.p("("); self.unary(); let t = self.s.pick(&["in", "instanceof"]); self.w(t); self.unary(); self.p(")"); self.p(";")
            }
            25 => { // a function that runs
                let (a, g) = (self.s.chance(1, 4), self.s.chance(1, 4));
                if g { self.w("p"); self.p("("); if !a { self.p("...") } }
                self.p("(");
                if a { self.w("async"); self.hold() }
                self.w("function");
                if g { self.p("*") }
                self.fn_tail(if a { ASYNC } else { 0 } | if g { GEN } else { 0 });
                self.p(")");
                if self.s.chance(1, 6) { self.p("."); self.w("call"); self.p("("); self.p("{"); self.p("}"); self.p(")") } else { self.args() }
                if g { self.p(")") }
                self.p(";");
            }
            26 => { // bodies without braces
                match self.s.below(6) {
                    0 => { self.w("if"); self.p("("); self.expr(); self.p(")"); self.small(); if self.s.chance(1, 2) { self.w("else"); if self.s.chance(1, 3) { self.w("if"); self.p("("); self.expr(); self.p(")") } self.small() } }
                    1 => { self.w("do"); self.small(); self.w("while"); self.p("("); self.w("false"); self.p(")"); self.p(";") }
                    2 => { self.w("while"); self.p("("); self.w("false"); self.p(")"); self.small() }
                    3 => { self.w("for"); self.p("("); self.w("const"); self.fresh += 1; let n = format!("n{}", self.fresh); self.w(&n); self.w("of"); self.array(); self.p(")"); self.small() }
                    4 if self.in_class == 0 => { self.w("with"); self.p("("); self.expr(); self.p(")"); if self.s.chance(1, 2) { self.small() } else { self.block() } }
                    _ => { self.w("if"); self.p("("); self.expr(); self.p(")"); self.w("throw"); self.hold(); self.expr(); self.p(";"); self.w("else"); self.p(";") }
                }
            }
            27 => match self.s.below(4) {
                0 => { self.w("debugger"); self.p(";") }
                1 => { self.w("import"); self.p("("); self.expr(); self.p(")"); self.p(";") }
                2 => { self.w("new"); let t = self.s.pick(&["Object", "Array", "Map"]); self.w(t); self.p(";") }
                _ => { self.w("new"); self.p("("); self.class(); self.p(")"); if self.s.chance(1, 2) { self.args() } self.p(";") }
            },
            _ => { let k = self.s.pick(&["var", "let"]); self.w(k); let t = self.new_name(false); self.w(&t); self.p("="); self.primary_lit(); self.p(";") }
        }
        self.depth -= 1;
    }
    fn export_name(&mut self) {
        self.fresh += 1;
        match self.s.below(6) {
            0 if !self.has_default => { self.has_default = true; self.w("default") }
            0..=2 => { let t = format!("{}{}", self.s.pick(&["x", "in", "as", "from", "of"]), self.fresh); self.w(&t) }
            _ => { let q = self.s.pick(&['"', '\'']); let t = format!("{q}{} {}{q}", self.s.pick(&["a long name", "it", "from", "//", ";"]), self.fresh); self.str_name(t) }
        }
    }
    /// a name in another module
    fn import_name(&mut self) {
        match self.s.below(6) {
            0 => self.w("default"),
            1..=3 => { let t = self.s.pick(&["x", "as", "from", "in", "é"]); self.w(t) }
            _ => { let t = self.s.pick(&["\"a long name\"", "'it'", "\"\"", "'/*'", "\"as\""]); self.str_name(t) }
        }
    }
    fn from(&mut self) {
        self.w("from");
        self.specifier();
    }
    fn specifier(&mut self) {
        let t = self.str_lit();
        self.str_name(t);
        if self.s.chance(1, 4) {
            self.w("with"); self.p("{");
            if self.s.chance(1, 2) { self.w("type") } else { let t = self.s.pick(&["'type'", "\"type\""]); self.str_name(t) }
            self.p(":");
            let t = self.s.pick(&["'json'", "\"json\""]); self.str_name(t);
            self.p("}");
        }
        self.p(";");
    }
    /// import or export
    pub fn module_item(&mut self) {
        match self.s.below(12) {
            0..=4 => {
                self.w("import");
                let k = self.s.below(6);
                if k == 0 { return self.specifier() }
                if k < 4 { let t = self.new_name(true); self.w(&t); self.tops.push(t); if k > 1 { self.p(",") } }
                if k == 2 { self.p("*"); self.w("as"); let t = self.new_name(true); self.w(&t); self.tops.push(t) }
                else if k != 1 {
                    self.p("{");
                    for i in 0..self.s.below(4) {
                        if i > 0 { self.p(",") }
                        if self.s.chance(1, 2) { self.import_name(); self.w("as") }
                        let t = self.new_name(true); self.w(&t); self.tops.push(t)
                    }
                    self.p("}");
                }
                self.from()
            }
            5 if !self.tops.is_empty() => {
                self.w("export"); self.p("{");
                for i in 0..self.s.below(3) {
                    if i > 0 { self.p(",") }
                    let j = self.s.below(self.tops.len()); let t = self.tops[j].clone(); self.w(&t);
                    self.w("as"); self.export_name();
                }
                self.p("}"); self.p(";")
            }
            6 => {
                self.w("export"); self.p("{");
                for i in 0..self.s.below(3) { if i > 0 { self.p(",") } self.import_name(); self.w("as"); self.export_name() }
                self.p("}"); self.from()
            }
            7 => { self.w("export"); self.p("*"); if self.s.chance(1, 2) { self.w("as"); self.export_name() } self.from() }
            8 if !self.has_default => {
                self.has_default = true;
                self.w("export"); self.w("default");
                match self.s.below(4) {
                    0 => { let a = self.s.chance(1, 3); if a { self.w("async"); self.hold() } self.w("function"); let g = self.s.chance(1, 3); if g { self.p("*") } self.fn_tail(if a { ASYNC } else { 0 } | if g { GEN } else { 0 }) }
                    1 => { self.w("class"); if self.s.chance(1, 3) { self.extends() } self.class_body() }
                    2 => { self.primary_lit(); self.p(";") }
                    _ => { self.expr(); self.p(";") }
                }
            }
            9 => { self.w("export"); let k = self.s.pick(&["var", "let", "const"]); self.w(k); let n = 1 + self.s.below(3); self.declarators(n, k == "const"); self.p(";") }
            10 => { self.w("export"); self.w("function"); if self.s.chance(1, 3) { self.p("*") ; let t = self.new_name(true); self.w(&t); self.fn_tail(GEN) } else { let t = self.new_name(true); self.w(&t); self.fn_tail(0) } }
            11 => { self.w("export"); self.w("class"); let t = self.new_name(true); self.w(&t); self.class_body() }
            _ => { self.w("await"); self.unary(); self.p(";") }
        }
    }
    /// a statement that may be the body of another
    fn small(&mut self) {
        match self.s.below(5) {
            0 => { let t = if self.regex_ok() { self.regex_lit() } else { "p".into() }; if t == "p" { self.w("p") } else { self.push(K::Regex, t) } self.p("."); self.w("toString"); self.p("("); self.p(")"); self.p(";") }
            1 if self.in_fn > 0 => { self.w("return"); self.hold(); self.expr(); self.p(";") }
            2 => match self.var_name() { Some(t) => { let o = self.s.pick(&["++", "--"]); self.p(o); self.w(&t); self.p(";") } None => self.p(";") },
            3 => self.p(";"),
            _ => { self.w("p"); self.args(); self.p(";") }
        }
    }
    fn expr_obj(&mut self) { match self.s.below(3) { 0 => self.array(), 1 => self.object_any(), _ => { let t = self.any_name(); self.w(&t) } } }
    fn object_any(&mut self) { self.p("("); self.object(); self.p(")") }

    // ---- layout ----
    fn ws(&mut self, nl: bool) -> String {
        let mut o = String::new();
        let n = if self.s.chance(1, 60) { 1 + self.s.hot(300) } else { 1 + self.s.below(3) };
        for _ in 0..n { o.push_str(if nl { self.s.pick(&[" ", "\n", "\t", "\r\n", "  ", "\n\n", "\r", " "]) } else { self.s.pick(&[" ", "\t"]) }) }
        o
    }
    fn comment(&mut self, nl: bool, licences: bool) -> (String, bool) {
        let n = self.s.size(3, 20);
        let mut b = self.text_bits(n);
        let k = self.s.long(80, 5000);
        b.push_str(&self.s.pick(&["x", " ", "é", "-", "* "]).repeat(k));
        if nl && self.s.chance(1, 5) { b.push_str(self.s.pick(&["\n", "\r\n", "\u{2028}", "\n * x\n", "\r"])) }
        let line_ok = nl && self.s.chance(1, 2);
        let lic = licences && self.s.chance(1, 4);
        if line_ok && !lic {
            b.retain(|c| !matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
            let e = self.s.pick(&["\n", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}"]);
            return (format!("//{b}{e}"), false);
        }
        if !nl { b.retain(|c| !matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')) }
        while b.contains("*/") { b = b.replace("*/", "* /") }
        if lic { return (format!("/*!{b}*/"), true) }
        while b.starts_with('!') { b.remove(0); }
        if b.ends_with('*') && self.s.chance(1, 2) { b.push('x') }
        (format!("/*{b}*/"), false)
    }
    /// Lays the tokens out as source text, licence comments become tokens of their own.
    pub fn layout(&mut self) -> Program {
        let lx = std::mem::take(&mut self.v);
        let mut pr = Program::default();
        let style = self.s.below(5);
        let n = lx.len();
        for i in 0..=n {
            let cur = lx.get(i);
            let nl = cur.map_or(true, |c| !c.nonl);
            let (mut gap, mut com) = (false, false);
            let k = match style { 0 => 0, 1 => self.s.below(2), 2 => 1, 3 => self.s.below(3), _ => self.s.below(4) };
            let k = if k == 0 { 0 } else { 1 + self.s.below(k) };
            for _ in 0..k {
                let piece = if self.o.comments && self.s.chance(1, 4) {
                    let (t, lic) = self.comment(nl, true);
                    if lic {
                        pr.lx.push(Lex { k: K::Lic, t: t.clone(), nonl: false, comment_before: com, gap_before: gap, name: false, at: pr.text.len() });
                        if pr.text.ends_with('/') && pr.lx.len() > 1 && pr.lx[pr.lx.len() - 2].k == K::Punct { pr.text.push(' '); gap = true }
                        let l = pr.lx.last_mut().unwrap();
                        l.gap_before = gap;
                        l.at = pr.text.len();
                        pr.text.push_str(&t);
                        gap = false;
                        com = false;
                        continue;
                    }
                    com = true;
                    pr.comments += 1;
                    t
                } else { self.ws(nl) };
                if piece.starts_with('/') && pr.text.ends_with('/') && !gap && pr.lx.last().map_or(false, |l| l.k == K::Punct) { pr.text.push(' ') }
                pr.text.push_str(&piece);
                gap = true;
            }
            let Some(c) = cur else {
                // the last comment may end with the file
                pr.trailing_comment = com;
                if self.o.comments && self.s.chance(1, 6) {
                    let nb = self.s.below(4);
                    let mut b = self.text_bits(nb);
                    b.retain(|c| !matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
                    pr.text.push_str(&format!(" //{b}"));
                    pr.comments += 1;
                    pr.trailing_comment = true;
                }
                break;
            };
            if !gap {
                if let Some(p) = pr.lx.last() {
                    if p.k != K::Lic {
                        let next = lx.get(i + 1).map_or("", |l| l.t.as_str());
                        if fuse(p, c, next) { let w = self.ws(nl); pr.text.push_str(&w); gap = true }
                    }
                }
            }
            pr.lx.push(Lex { comment_before: com, gap_before: gap, at: pr.text.len(), ..c.clone() });
            pr.text.push_str(&c.t);
        }
        pr
    }
}
const RESERVED: &[&str] = &["break", "case", "catch", "const", "continue", "default", "do", "else", "false", "finally", "function", "for", "if", "in", "instanceof", "let", "new", "null",
    "private", "protected", "public", "return", "switch", "this", "throw", "true", "try", "typeof", "static", "var", "while", "void", "delete", "class", "extends", "super", "with", "yield", "await",
    "e", "f", "g", "C", "D", "import", "export", "enum", "debugger", "interface", "package", "implements", "eval", "arguments", "undefined", "NaN", "Infinity", "p"];

/// Is the text one template literal (expressions balanced, as tmpl_code writes them)?
pub fn tmpl_ok(t: &str) -> bool {
    fn tm(b: &[char], mut i: usize) -> Option<usize> {
        loop {
            match *b.get(i)? {
                '`' => return Some(i + 1),
                '\\' => i += 2,
                '$' if b.get(i + 1) == Some(&'{') => i = code(b, i + 2)?,
                _ => i += 1,
            }
        }
    }
    fn code(b: &[char], mut i: usize) -> Option<usize> {
        let mut d = 0;
        let start = i;
        let mut last = i; // the end of what is neither whitespace nor comment
        loop {
            let c = *b.get(i)?;
            match c {
                '}' if d == 0 => return Some(i + 1),
                '}' => { d -= 1; i += 1 }
                '{' => { d += 1; i += 1 }
                '`' => i = tm(b, i + 1)?,
                '"' | '\'' => { i += 1; loop { match *b.get(i)? { x if x == c => { i += 1; break } '\\' => i += 2, '\n' => return None, _ => i += 1 } } }
                '/' if b.get(i + 1) == Some(&'/') => { while !matches!(b.get(i)?, '\n' | '\r' | '\u{2028}' | '\u{2029}') { i += 1 } continue }
                '/' if b.get(i + 1) == Some(&'*') => { i += 2; while !(b.get(i)? == &'*' && b.get(i + 1)? == &'/') { i += 1 } i += 2; continue }
                '/' if starts_regex(&b[start..last]) => {
                    let mut class = false;
                    i += 1;
                    loop { match *b.get(i)? { '/' if !class => break, '[' => class = true, ']' => class = false, '\\' => i += 1, '\n' => return None, _ => {} } i += 1 }
                    i += 1;
                }
                c if c.is_whitespace() || c == '\u{feff}' => { i += 1; continue }
                _ => i += 1,
            }
            last = i;
        }
    }
    /// After this code, as tmpl_code writes it.
    fn starts_regex(b: &[char]) -> bool {
        let Some(c) = b.last() else { return true };
        if is_id(*c) {
            let w: String = b[b.iter().rposition(|c| !is_id(*c)).map_or(0, |p| p + 1)..].iter().collect();
            let prop = b[..b.len() - w.chars().count()].iter().rev().find(|c| !c.is_whitespace()) == Some(&'.');
            return !prop && matches!(&*w, "return" | "typeof" | "void");
        }
        if *c == '.' { return b.ends_with(&['.', '.', '.']) }
        !matches!(c, ')' | ']' | '}' | '"' | '\'' | '`' | '/') && !b.ends_with(&['+', '+']) && !b.ends_with(&['-', '-'])
    }
    let b: Vec<char> = t.chars().collect();
    b.first() == Some(&'`') && tm(&b, 1) == Some(b.len())
}

pub fn program(s: &mut Src, o: Opts) -> Program { program_with(s, o, |_, _| ()) }
/// `f` may write tokens of its own before every top-level statement (and at the end).
pub fn program_with(s: &mut Src, o: Opts, mut f: impl FnMut(&mut G, usize)) -> Program {
    if s.chance(1, 64) { s.scale *= 4 }
    if o.real && s.chance(1, 150) {
        if let Some(f) = crate::real::js(s) {
            let bad = f.lx.iter().any(|l| l.k == K::Word && o.banned.contains(&l.t)) || !o.str_anywhere && f.flag.iter().any(|f| matches!(f, 'n' | 'd'));
            let p = f.program();
            if !bad && (o.comments || p.comments == 0) { return p }
        }
    }
    let reals = o.real && s.chance(1, 12);
    let n = 1 + s.size(o.stmts, 40 * s.scale);
    let mut g = G::new(s, o);
    if g.s.chance(1, 12) { for _ in 0..=g.s.below(3) { g.p(";") } }
    let n0 = g.v.len();
    if g.s.chance(1, 16) { g.prologue(); if n0 > 0 { for l in &mut g.v { l.name = false } } }
    g.module = g.s.chance(1, 10);
    if g.module { g.in_class = 1; g.in_async = true }
    // one statement which throws doesn't end the program
    let guarded = g.s.chance(1, 2);
    for i in 0..n {
        f(&mut g, i);
        if reals && g.s.chance(1, 2) { g.real() }
        while g.module && g.s.chance(1, 2) { g.module_item() }
        if guarded && g.s.chance(3, 4) {
            let (sl, cl) = (g.scope.len(), g.consts.len());
            g.w("try"); g.p("{");
            g.stmt(false);
            g.scope.truncate(sl); g.consts.truncate(cl);
            g.p("}"); g.w("catch"); g.p("("); g.w("e"); g.p(")"); g.p("{"); g.w("p"); g.p("("); g.w("e"); g.p(")"); g.p(";"); g.p("}");
        } else if g.s.chance(1, 100) {
            // a tower of blocks
            let k = g.s.hot(600);
            let (sl, cl) = (g.scope.len(), g.consts.len());
            for _ in 0..k { g.p("{") }
            g.stmt(k == 0);
            for _ in 0..k { g.p("}") }
            g.scope.truncate(sl); g.consts.truncate(cl);
        } else { g.stmt(true) }
        if g.budget < -200 { break }
    }
    f(&mut g, n);
    let (module, real) = (g.module, g.real);
    Program { module, real, ..g.layout() }
}
