"""The planted bugs: see mkseeds.py."""
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

JT, JU, JL, CT, H, CLI = 'src/js/token.rs', 'src/js/utils.rs', 'src/js/tools.rs', 'src/css/token.rs', 'src/html.rs', 'src/cli.rs'

seed('C01-backtick-depth-in-braces', 'C01',
     [(JT, "get_backtick_string(source, iterator, &mut pos, depth + 1)?;",
       "let depth = if count == 1 { depth + 1 } else { depth };\n                        get_backtick_string(source, iterator, &mut pos, depth)?;")],
     'thousands of template literals nested in each other, each inside of a block of the interpolation (`${{)',
     'such levels are not counted any more, so the recursion overflows the stack and aborts the process',
     r'''
let source = "`${{".repeat(100_000);
std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
    assert!(minifier::js::minify(&source).is_err());
}).unwrap().join().unwrap();
''')
seed('C02-css-look-behind', 'C02',
     [(CT, "if match v.last() {\n", "if match v.iter().rev().find(|t| !t.is_comment()) {\n")],
     'a long run of comments separated by whitespace in a style sheet',
     'each whitespace looks back over all the comments before it: quadratic time',
     r'''
let time = |n: usize| {
    let source = format!("a{{}}{}", "b /**/ ".replace('b', "") .repeat(n));
    (0..3).map(|_| {
        let start = std::time::Instant::now();
        let len = minifier::css::minify(&source).unwrap().to_string().len();
        assert!(len < 10);
        start.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
};
let (one, eight) = (time(5_000), time(40_000));
println!("{one} {eight}");
assert!(eight < one * 24.0, "8 times the input takes {} times as long", eight / one);
''', opt='-O ')
seed('C05-utf8-width-f4', 'C05',
     [('src/json/read/byte_to_char.rs', "    4, 4, 4, 4, 4, 0, 0, 0,", "    4, 4, 4, 4, 0, 0, 0, 0,")],
     'a character of the last plane (U+100000 and above), read through the streaming JSON minifier',
     'the streaming reader calls valid text not UTF-8 while minifying it as a string works',
     r'''
use std::io::Read;
let json = "{ \"a\": \"\u{10fffd}\" }";
let mut got = String::new();
let res = minifier::json::minify_from_read(json.as_bytes()).read_to_string(&mut got);
assert!(res.is_ok(), "{res:?}");
same("stream", &got, &minifier::json::minify(json).to_string());
''')
seed('C06-fault-inside-character', 'C06',
     [('src/json/read/byte_to_char.rs', "                let byte = match self.get_next() {\n", "                let byte = match self.get_next().map_err(|_| CharsError::NotUtf8) {\n")],
     'a source which fails between two bytes of one character',
     'the consumer gets an invalid-data error instead of the error of the source',
     r'''
use std::io::{Error, ErrorKind, Read};
struct Source(Vec<u8>);
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(Error::from(ErrorKind::ConnectionReset));
        }
        buf[0] = self.0.remove(0);
        Ok(1)
    }
}
for cut in 1..8 {
    let text = "[\"é☃😀\"]".as_bytes();
    let mut out = Vec::new();
    let err = minifier::json::minify_from_read(Source(text[..cut].to_vec())).read_to_end(&mut out).unwrap_err();
    assert_eq!(err.kind(), ErrorKind::ConnectionReset, "failing after {cut} bytes");
}
''')
seed('C06-fault-swallowed-before-whitespace', 'C06',
     [('src/json/read/json_read.rs', "            self.item1 = self.get_next()?;\n            self.initialized = true;",
       "            self.initialized = true;\n            self.item1 = self.get_next()?;")],
     'a source which fails before its first byte, and a consumer which reads on after the error',
     'after the error the next read reports the end of the data although the source still fails',
     r'''
use std::io::{Error, ErrorKind, Read};
struct Source;
impl Read for Source {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(Error::from(ErrorKind::ConnectionReset))
    }
}
let mut r = minifier::json::minify_from_read(Source);
let mut buf = [0; 16];
for i in 0..3 {
    assert!(r.read(&mut buf).is_err(), "read {i}");
}
''')
seed('C08-regex-after-question-mark', 'C08',
     [(JT, "            | Token::Char(ReservedChar::QuestionMark)\n", "")],
     'a regular expression as the first branch of a conditional, with a quote or whitespace in it',
     'it is read as a division: a quote in it starts a string, its whitespace goes',
     r'''
let min = |s: &str| minifier::js::minify(s).unwrap().to_string();
same("regex", &min("x = a ? /b  c/ : d;"), "x=a?/b  c/:d;");
same("quote", &min("x = a ? /'/ : 'b  c' + d;"), "x=a?/'/:'b  c'+d;");
''')
seed('C08-backtick-in-quoted-string', 'C08',
     [(JT, """} else if c == '"' || c == '\\'' {""", """} else if c == '"' {""")],
     'a single-quoted string with a backtick in it, inside of an interpolation of a template literal',
     'the template literal ends too early or too late and text after it is changed',
     r'''
let min = |s: &str| minifier::js::minify(s).unwrap().to_string();
let t = "`${f('`')}  x`";
same("template", &min(&format!("a = {t};")), &format!("a={t};"));
''')
seed('C09-star-then-slash', 'C09',
     [(JT, "            prev = c;\n        } else {\n            prev = ReservedChar::Space;\n        }\n", "            prev = c;\n        }\n")],
     'a comment with a star and later a slash that only letters stand between: /* a *b/c */',
     'the comment ends at that slash: the rest of it stays as code',
     r'''
let got = minifier::js::minify("a = 1; /* see *here/there */ b = 2;").unwrap().to_string();
same("comment", &got, "a=1;b=2;");
''')
seed('C12-index-order', 'C12',
     [(JL, "validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));", "validated.sort_unstable_by_key(|(p, _)| std::cmp::Reverse(p.to_string()));")],
     'eleven or more strings moved into an array',
     'the elements are inserted in the order of their indices as text, so R[10] is the second one',
     r'''
use minifier::js::{aggregate_strings_into_array, simple_minify};
let (mut source, mut expected, mut array) = (String::new(), String::new(), Vec::new());
for i in 0..13 {
    let s = format!("a rather long string {i}");
    source.push_str(&format!("f('{s}','{s}');"));
    expected.push_str(&format!("f(R[{i}],R[{i}]);"));
    array.push(format!("\"{s}\""));
}
let got = simple_minify(&source).unwrap().apply(|t| aggregate_strings_into_array(t, "R")).to_string();
same("array", &got, &format!("var R=[{}];{expected}", array.join(",")));
''')
seed('C13-leading-semicolon', 'C13',
     [(JU, "                if !f(&token) {\n                    v.push(token);\n                }\n                continue;", "                continue;")],
     'a semicolon at the very start which the callback wants to keep',
     'it is removed all the same',
     r'''
use minifier::js::{clean_tokens_except, simple_minify};
let got = simple_minify("; a = 1").unwrap().apply(|t| clean_tokens_except(t, |c| c.is_white_character())).to_string();
same("tokens", &got, ";a=1");
''')
seed('C13-replace-skips-licences', 'C13',
     [(JU, "for token in tokens.0.iter_mut() {\n        if let Some(t) = callback(token) {",
       "for token in tokens.0.iter_mut().filter(|t| !t.is_license()) {\n        if let Some(t) = callback(token) {")],
     'replacing tokens in a list with a licence comment',
     'the callback is not asked for the licence',
     r'''
use minifier::js::{replace_tokens_with, simple_minify, Token, ReservedChar};
let got = simple_minify("/*! x */a=1;").unwrap()
    .apply(|t| replace_tokens_with(t, |t| t.is_license().then_some(Token::Char(ReservedChar::SemiColon))))
    .to_string();
same("tokens", &got, ";a=1;");
''')
seed('C14-static-keyword', 'C14',
     [(JT, '            "static" => Ok(Keyword::Static),\n', '')],
     'the keyword static',
     'the token is an identifier instead of the keyword',
     r'''
use minifier::js::{simple_minify, Keyword};
let tokens = simple_minify("class A{static b(){}}").unwrap();
assert!(tokens.iter().any(|t| t.get_keyword() == Some(Keyword::Static)), "{tokens:?}");
''')
seed('C15-float-value', 'C15',
     [(JU, "                            || token.is_number()\n                            || token.is_floating_number()\n", "                            || token.is_number()\n")],
     'a variable whose value is a number with a fraction',
     'the value is not found',
     r'''
use minifier::js::{get_variable_name_and_value_positions, simple_minify};
let tokens = simple_minify("var a = 1.5;").unwrap();
assert_eq!(get_variable_name_and_value_positions(&tokens, 0), Some((2, Some(6))));
''')
seed('C18-licence-text', 'C18',
     [(CT, "let ret = Some(builder(&source[content_start_pos..pos - 1]));", "let ret = Some(builder(source[content_start_pos..pos - 1].trim_end_matches('\\n')));")],
     'a licence comment whose text ends with a line break',
     'the text of the licence is changed',
     r'''
let got = minifier::css::minify("/*! Licence\n*/a{}").unwrap().to_string();
assert!(got.starts_with("/*! Licence\n*/"), "{got:?}");
''')
seed('C19-tab-kept', 'C19',
     [(CT, "                        v.push(Token::Char(ReservedChar::Space));\n                    } else if", "                        v.push(Token::Char(c));\n                    } else if")],
     'a single tab or line break between two words of a style sheet',
     'it stays as it is instead of becoming a space',
     r'''
let got = minifier::css::minify("a{margin:1px\t2px}").unwrap().to_string();
same("tab", &got, "a{margin:1px 2px}");
''')
seed('C20-nested-bracket', 'C20',
     [(CT, """                    if is_in_attribute_selector {
                        return Err("Already in attribute selector");
                    }
                    is_in_attribute_selector = true;""", """                    if is_in_attribute_selector && is_in_block == 0 {
                        return Err("Already in attribute selector");
                    }
                    is_in_attribute_selector = true;""")],
     'nested square brackets inside of a block (the rules of a @media, say)',
     'they are accepted',
     r'''
assert!(minifier::css::minify("[a[b]]{}").is_err());
assert!(minifier::css::minify("@media print{[a[b]{}}").is_err());
''')
seed('C22-pre-with-attributes', 'C22',
     [(H, 'lower_source.find("<pre").is_none()', 'lower_source.find("<pre>").is_none()')],
     'a pre element with an attribute',
     'the whitespace of its text is condensed',
     r'''
let source = "<p>x</p><pre class=\"a\">b\n    c</pre>";
same("pre", &minifier::html::minify(source), source);
''', kind='html')
seed('C23-json-short-write', 'C23',
     [('src/json/string.rs', """        for token in self {
            write!(w, "{token}")?;
        }
""", """        let mut buf = [0; 4];
        for token in self {
            w.write(token.encode_utf8(&mut buf).as_bytes())?;
        }
""")],
     'an output stream which accepts only a part of a character at once, or which is interrupted',
     'bytes are lost without any error',
     r'''
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.extend(buf.first());
        Ok(buf.len().min(1))
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let mut w = Slow(Vec::new());
minifier::json::minify("{ \"é\": \"☃\" }").write(&mut w).unwrap();
same("bytes", &String::from_utf8_lossy(&w.0), "{\"é\":\"☃\"}");
''')
seed('C24-unsorted-names', 'C24',
     [(JL, "                $x.sort_unstable_by(|a, b| a.1.cmp(&b.1));\n", "                if cfg!(test) {\n                    $x.sort_unstable_by(|a, b| a.1.cmp(&b.1));\n                }\n")],
     'two or more strings moved into variables, outside of the tests of the crate',
     'the order of the declarations changes from run to run',
     r'''
use minifier::js::{aggregate_strings, simple_minify};
let mut source = String::new();
for i in 0..12 {
    let s = format!("a rather long string {i}");
    source.push_str(&format!("f('{s}','{s}','{s}');"));
}
let run = || simple_minify(&source).unwrap().apply(aggregate_strings).to_string();
let first = run();
for _ in 0..20 {
    same("again", &run(), &first);
}
''')
seed('C25-no-truncate', 'C25',
     [(CLI, "                .truncate(true)\n                .write(true)", "                .write(true)")],
     'an older output which is longer than the new one',
     'the end of the older one stays',
     r'''
printf 'var  a ;' > a.js
printf '%0100d' 0 > a.min.js
"$bin" a.js > /dev/null || exit 2
[ "$(cat a.min.js)" = 'var a;' ] || { cat a.min.js; exit 1; }
''', kind='cli')
seed('C26-exit-on-unknown-type', 'C26',
     [(CLI, """        eprintln!("{file_path:?}: unknow file extension...");
        return;
""", """        eprintln!("{file_path:?}: unknow file extension...");
        std::process::exit(1);
""")],
     'several files, one of unknown type before others',
     'the files after it are not processed',
     r'''
printf 'var  a ;' > a.js
printf 'var  b ;' > b.js
printf 'x' > x.txt
"$bin" a.js x.txt b.js > /dev/null 2>&1
[ "$(cat a.min.js)" = 'var a;' ] && [ "$(cat b.min.js)" = 'var b;' ] || exit 1
''', kind='cli')

seed('C01-continuation-byte', 'C01',
     [('src/json/read/byte_to_char.rs', "        if width == 0 {", "        if width == 0 && buf[0] >= 0xc0 {")],
     'a byte sequence with a stray continuation byte, read through the streaming JSON minifier',
     'it panics instead of reporting invalid data',
     r'''
use std::io::Read;
let mut out = Vec::new();
let res = std::panic::catch_unwind(move || minifier::json::minify_from_read(&b"[1,\x80]"[..]).read_to_end(&mut out).is_err());
assert!(matches!(res, Ok(true)), "{res:?}");
''')
seed('C05-small-buffer', 'C05',
     [('src/json/read/json_read.rs', "            if buf_pos >= buf.len() {\n                break;", "            if buf_pos + 4 > buf.len() {\n                // The next character could be cut.\n                break;")],
     'a consumer which reads into a buffer of less than four bytes, and whitespace right where it starts',
     'zero bytes are returned, so the end of the data, before all was read',
     r'''
use std::io::Read;
let json = "{ \"a\": [ 1, 2 ], \"é\": \"☃\" }";
for size in 1..9 {
    let mut r = minifier::json::minify_from_read(json.as_bytes());
    let mut out = Vec::new();
    let mut buf = vec![0; size];
    loop {
        let n = r.read(&mut buf).unwrap();
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    same("stream", &String::from_utf8_lossy(&out), "{\"a\":[1,2],\"é\":\"☃\"}");
}
''')
seed('C06-unexpected-eof', 'C06',
     [('src/json/read/internal_reader.rs', "                    return Some(Err(err));\n", "                    return match err.kind() {\n                        std::io::ErrorKind::UnexpectedEof => None,\n                        _ => Some(Err(err)),\n                    };\n")],
     'a source which fails with UnexpectedEof (a truncated compressed stream, a closed TLS connection)',
     'the consumer sees a normal end of the data',
     r'''
use std::io::{Error, ErrorKind, Read};
struct Source(bool);
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0 {
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }
        self.0 = true;
        buf[0] = b'1';
        Ok(1)
    }
}
let mut out = Vec::new();
let res = minifier::json::minify_from_read(Source(false)).read_to_end(&mut out);
assert_eq!(res.map_err(|e| e.kind()), Err(ErrorKind::UnexpectedEof));
''')
seed('C08-trailing-zeros', 'C08',
     [(JT, "            Token::FloatingNumber(ref x) => write!(f, \"{x}\"),", "            Token::FloatingNumber(x) => match x.split_once('.') {\n                Some((_, decimals)) if decimals.len() > 1 => write!(f, \"{}\", x.trim_end_matches('0')),\n                _ => write!(f, \"{x}\"),\n            },")],
     'a number with a fraction and an exponent which ends with a zero: 1.5e10',
     'the zero is cut off: 1.5e1',
     r'''
let min = |s: &str| minifier::js::minify(s).unwrap().to_string();
same("number", &min("a = 1.5e10;"), "a=1.5e10;");
''')
seed('C08-unicode-flag', 'C08',
     [(JT, "                        Some((_, 'g')) => is_global = true,\n", "                        Some((_, c @ ('g' | 'u'))) => is_global |= c == 'g',\n")],
     'a regular expression with the flag u',
     'the flag is dropped',
     r'''
let got = minifier::js::minify("a = /b/u; c = /d/gu;").unwrap().to_string();
same("flags", &got, "a=/b/u;c=/d/gu;");
''')
seed('C09-at-comment', 'C09',
     [(JT, "        if c == '!' {", "        if c == '!' || c == '@' {")],
     'a comment which starts with /*@',
     'it stays, spelled /*!',
     r'''
let got = minifier::js::minify("/*@ see there */a = 1;").unwrap().to_string();
same("comment", &got, "a=1;");
''')
seed('C10-space-before-regex', 'C10',
     [(JT, "            | Token::FloatingNumber(_) => Some(' '),", "            | Token::FloatingNumber(_)\n            | Token::Regex { .. } => Some(' '),")],
     'a keyword followed by a regular expression',
     'a space which separates nothing stays in the output',
     r'''
let got = minifier::js::minify("function f(a) { return /b/.test(a); }").unwrap().to_string();
same("space", &got, "function f(a){return/b/.test(a);}");
''')
seed('C11-quotes-of-the-literal', 'C11',
     [(JL, '''            "{}={}",
            var_name, tokens[positions[0]]
''', '''            "{}=\\"{}\\"",
            var_name,
            tokens[positions[0]].to_string().trim_matches(&['"', '\\''])
''')],
     'a repeated single-quoted string which contains double quotes (or starts or ends with a quote)',
     'the declaration has another text, or is not even a string',
     r'''
use minifier::js::{aggregate_strings, simple_minify};
let s = "'a rather \"long\" string'";
let got = simple_minify(&format!("f({s},{s},{s});")).unwrap().apply(aggregate_strings).to_string();
same("variable", &got, &format!("var r_aa={s};f(r_aa,r_aa,r_aa);"));
''')
seed('C19-carriage-return', 'C19',
     [(CT, "            '\\n' | '\\r' => Ok(ReservedChar::Backline),", "            '\\n' => Ok(ReservedChar::Backline),")],
     'a style sheet with the line endings of Windows or old Macs',
     'the carriage returns stay, as a part of the words next to them',
     r'''
let got = minifier::css::minify(".a\r\n.b\r\n{\r\ncolor:\r\nred\r\n}\r\n").unwrap().to_string();
same("line breaks", &got, ".a .b{color:red}");
''')
seed('C17-escape-in-quotes', 'C17',
     [(CT, '''    while let Some((pos, c)) = iterator.next() {
        if c == '\\\\' {
            // we skip next character
            iterator.next();
            continue;
        }
        if let Ok(c) = ReservedChar::try_from(c) {
            if c == start {''', '''    while let Some((pos, c)) = iterator.next() {
        if c == '\\\\' && matches!(iterator.peek(), Some((_, '"' | '\\\\' | '\\n'))) {
            // we skip next character
            iterator.next();
            continue;
        }
        if let Ok(c) = ReservedChar::try_from(c) {
            if c == start {''')],
     'a single-quoted string with an escaped single quote in it',
     'the string ends there: the rest of it is changed or refused',
     r'''
let got = minifier::css::minify("a{content:'it\\'s  here'; b:'c  d'}").map(|m| m.to_string());
same("string", got.as_deref().unwrap_or("error"), "a{content:'it\\'s  here';b:'c  d'}");
''')
seed('C21-needed-end-tag', 'C21',
     [(H, '        "</isindex>",\n        "</param>",\n', '        "</isindex>",\n        "</dl>",\n')],
     'something after a definition list',
     'the end of the list is dropped, so what follows becomes a part of it',
     r'''
let got = minifier::html::minify("<div><dl><dt>a</dt><dd>b</dd></dl><b>c</b></div>");
same("list", &got, "<div><dl><dt>a<dd>b</dl><b>c</b></div>");
''', kind='html')
seed('C27-omittable-tag', 'C27',
     [(H, '        "</colgroup>",\n', '        "</col-group>",\n')],
     'a table with a colgroup element',
     'its omittable end tag stays',
     r'''
let got = minifier::html::minify("<table><colgroup><col></colgroup><tr><td>a</td></tr></table>");
same("table", &got, "<table><colgroup><col><tr><td>a</table>");
''', kind='html')
seed('C23-js-buffered', 'C23',
     [(JT, "    pub(super) fn write<W: std::io::Write>(self, mut w: W) -> std::io::Result<()> {\n        tokens_writer!(self, w);", "    pub(super) fn write<W: std::io::Write>(self, w: W) -> std::io::Result<()> {\n        use std::io::Write as _;\n        let mut w = std::io::BufWriter::new(w);\n        tokens_writer!(self, w);")],
     'an output stream which fails, and an output of less than 8 KB',
     'the error is swallowed when the buffer is dropped',
     r'''
struct Full;
impl std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::from(std::io::ErrorKind::StorageFull))
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
assert!(minifier::js::minify("var a = 1;").unwrap().write(Full).is_err());
''')
seed('C24-depth-left-behind', 'C24',
     [(JT, "                        if depth >= MAX_BACKTICK_NESTING {\n                            return Err(\"Too nested backtick (`) string\");\n                        }\n                        get_backtick_string(source, iterator, &mut pos, depth + 1)?;",
       "                        if BACKTICK_NESTING.get() + depth >= MAX_BACKTICK_NESTING {\n                            return Err(\"Too nested backtick (`) string\");\n                        }\n                        BACKTICK_NESTING.set(BACKTICK_NESTING.get() + 1);\n                        get_backtick_string(source, iterator, &mut pos, depth)?;\n                        BACKTICK_NESTING.set(BACKTICK_NESTING.get() - 1);"),
      (JT, "const MAX_BACKTICK_NESTING: usize = 1000;\n", "const MAX_BACKTICK_NESTING: usize = 1000;\n\nthread_local!(static BACKTICK_NESTING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n")],
     'a too deeply nested template literal, minified earlier by the same thread',
     'after that error, every source with nested template literals is refused',
     r'''
let nested = "a=`${`b`}`;";
let first = minifier::js::minify(nested).unwrap().to_string();
assert!(minifier::js::minify(&"`${".repeat(5000)).is_err());
let again = minifier::js::minify(nested).map(|m| m.to_string());
same("again", again.as_deref().unwrap_or("error"), &first);
''')
seed('C25-name-in-directory', 'C25',
     [(CLI, '                    let mut p = file_path.clone();\n                    p.set_extension(format!("min.{}", file_ext.as_str()));\n                    p\n',
       '                    let ext = format!(".{}", file_ext.as_str());\n                    let p = file_path.to_string_lossy().into_owned();\n                    PathBuf::from(match p.contains(&ext) {\n                        true => p.replace(&ext, &format!(".min{ext}")),\n                        false => format!("{}.min{ext}", p.rsplit_once(\'.\').map_or(p.as_str(), |x| x.0)),\n                    })\n')],
     'a file whose path has the extension in it twice (x.js/a.js, or a.js.js)',
     'the output goes to another path or cannot be created',
     r'''
mkdir lib.js
printf 'var  a ;' > lib.js/a.js
"$bin" lib.js/a.js > /dev/null 2>&1
[ "$(cat lib.js/a.min.js)" = 'var a;' ] || exit 1
''', kind='cli')
seed('C26-exit-on-missing', 'C26',
     [(CLI, "        Err(e) => eprintln!(\"{file_path:?}: {e}\"),", "        Err(e) => {\n            eprintln!(\"{file_path:?}: {e}\");\n            if e.kind() == io::ErrorKind::NotFound {\n                std::process::exit(1);\n            }\n        }")],
     'several files, a missing one before others',
     'the files after it are not processed',
     r'''
printf 'var  a ;' > a.js
printf 'var  b ;' > b.js
"$bin" a.js x.js b.js > /dev/null 2>&1
[ "$(cat a.min.js)" = 'var a;' ] && [ "$(cat b.min.js)" = 'var b;' ] || exit 1
''', kind='cli')

seed('C07-in-after-number', 'C07',
     [(JT, "                && !tokens[i - 1].is_other()\n", "                && !(tokens[i - 1].is_other() || tokens[i - 1].is_floating_number())\n")],
     'a number with a fraction right before in or instanceof',
     'the two are merged: 1.5in a',
     r'''
let min = |s: &str| minifier::js::minify(s).unwrap().to_string();
same("number", &min("var a = 1.5 in b;"), "var a=1.5 in b;");
''')
seed('C07-carriage-return', 'C07',
     [(JT, "            '\\n' | '\\r' => Ok(ReservedChar::Backline),", "            '\\n' => Ok(ReservedChar::Backline),")],
     'a program with the line endings of Windows or old Macs',
     'the carriage returns become a part of the words next to them, so keywords are not recognised and numbers are not numbers',
     r'''
let got = minifier::js::minify("var a = 1\r\n  + 2;\r\nreturn\r\n;").unwrap().to_string();
same("line breaks", &got, "var a=1+2;return;");
''')

# --- Second round ---
JM, SR, JR, IR, BC = 'src/json/json_minifier.rs', 'src/json/string.rs', 'src/json/read/json_read.rs', 'src/json/read/internal_reader.rs', 'src/json/read/byte_to_char.rs'
seed('C03-byte-order-mark', 'C03',
     [(SR, "            self.item1 = self.iter.next();\n            if", "            self.item1 = self.iter.find(|c| *c != '\\u{feff}');\n            if")],
     'U+FEFF inside of a string',
     'it is lost: the data changes',
     r'''
same("string", &minifier::json::minify("{\"a\u{feff}b\": 1}").to_string(), "{\"a\u{feff}b\":1}");
''')
seed('C05-empty-first-read', 'C05',
     [(JR, "        if buf.is_empty() {\n            return Ok(0);\n        }\n\n", "")],
     'a consumer whose first read is into an empty buffer',
     'the buffer of the reader gets no room, so the data seems to end at once',
     r'''
use std::io::Read;
let mut r = minifier::json::minify_from_read(&b"{ \"a\": 1 }"[..]);
assert_eq!(r.read(&mut []).unwrap(), 0);
let mut s = String::new();
r.read_to_string(&mut s).unwrap();
same("stream", &s, "{\"a\":1}");
''')
seed('C06-truncated-character', 'C06',
     [(BC, "                        None => return Some(Err(CharsError::NotUtf8)),", "                        None => return None,")],
     'a source which ends in the middle of a character',
     'the consumer sees a normal end of data',
     r'''
use std::io::Read;
let mut v = Vec::new();
let res = minifier::json::minify_from_read(&b"\"a\xe2\x82"[..]).read_to_end(&mut v);
assert!(res.is_err(), "{res:?} {v:?}");
''')
seed('C06-unchecked-utf8', 'C06',
     [(BC, "        Some(match from_utf8(&buf[..width]).ok() {", "        // The width is known to be the one of the character.\n        Some(match Some(unsafe { std::str::from_utf8_unchecked(&buf[..width]) }) {"),
      (BC, "    io::{Error, Read},\n    str::from_utf8,\n", "    io::{Error, Read},\n")],
     'the first byte of a character followed by one which is no continuation byte',
     'no error; undefined behaviour',
     r'''
use std::io::Read;
let mut v = Vec::new();
let res = minifier::json::minify_from_read(&b"\"a\xe2\x82\"]"[..]).read_to_end(&mut v);
assert!(res.is_err(), "{res:?} {v:?}");
''')
seed('C07-divide-then-regex', 'C07',
     [(JT, """                ReservedChar::Slash
                    if v.last()
                        .unwrap_or(&Token::Other(""))
                        .eq_operation(Operation::Divide) =>
                {
                    v.pop();
""", """                ReservedChar::Slash
                    if v.iter()
                        .rfind(|t| !t.is_white_character())
                        .is_some_and(|t| t.eq_operation(Operation::Divide)) =>
                {
                    while v.pop().is_some_and(|t| t.is_white_character()) {}
""")],
     'a division by a regular expression',
     'the rest of the line is taken for a comment',
     r'''
same("division", &minifier::js::minify("a = b / /c/.lastIndex;\nd = 1;").unwrap().to_string(), "a=b/ /c/.lastIndex;d=1;");
''')
seed('C08-continued-string', 'C08',
     [(JT, """        if let Ok(c) = ReservedChar::try_from(c) {
            if c == start {
                let ret = Some(Token::String(&source[*start_pos..pos + 1]));""", """        if let Ok(c) = ReservedChar::try_from(c) {
            if c == ReservedChar::Backline {
                // It isn't closed.
                return None;
            } else if c == start {
                let ret = Some(Token::String(&source[*start_pos..pos + 1]));""")],
     'a string continued on the next line in a file with the line endings of Windows',
     'the string is lost',
     r'''
same("string", &minifier::js::minify("a = 'b\\\r\nc';").unwrap().to_string(), "a='b\\\r\nc';");
''')
seed('C08-apostrophe-in-interpolation', 'C08',
     [(JT, "                    } else if c == '\"' || c == '\\'' {\n                        // We don't care", "                    } else if c == '\"' || (c == '\\'' && count != 2) {\n                        // We don't care")],
     'a string in apostrophes, with a brace or a backtick in it, between the braces of an object or a block of an interpolation',
     'the end of the template literal is not found where it is',
     r'''
let s = "p(`${q({a:'}'})}  `,  1);";
same("template", &minifier::js::minify(s).unwrap().to_string(), "p(`${q({a:'}'})}  `,1);");
''')
seed('C08-dollar-at-the-end', 'C08',
     [(JT, "        if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {\n            let mut count = 0;", "        if c == '$' && iterator.next().map(|(_, c)| c == '{').unwrap_or(false) {\n            let mut count = 1;")],
     'a dollar right before the end of a template literal, or before an escape or another dollar',
     'the literal is thought to go on',
     r'''
let s = "p(`1$`,a,`2`);";
same("template", &minifier::js::minify(s).unwrap().to_string(), s);
''')
seed('C08-regex-starting-with-equals', 'C08',
     [(JT, "                        && iterator.peek().unwrap().1 != '/'\n", "                        && !matches!(iterator.peek().unwrap().1, '/' | '=')\n")],
     'a regular expression which starts with an equals sign',
     'it is taken for a division',
     r'''
same("regex", &minifier::js::minify("p(/= \"/.test(q));").unwrap().to_string(), "p(/= \"/.test(q));");
''')
seed('C09-two-stars', 'C09',
     [(JT, "            if c == ReservedChar::Slash && prev == ReservedChar::Star {\n                end = pos - 1;\n                break;\n            }\n            prev = c;",
       "            if c == ReservedChar::Slash && prev == ReservedChar::Star {\n                end = pos - 1;\n                break;\n            }\n            // The first star may be the one the comment starts with.\n            prev = match prev {\n                ReservedChar::Star => ReservedChar::Space,\n                _ => c,\n            };")],
     'a comment which ends with an even number of stars',
     'its end is missed: what follows is lost up to the end of the next comment',
     r'''
same("comment", &minifier::js::minify("a = 1; /* b **/ c = 2;").unwrap().to_string(), "a=1;c=2;");
''')
seed('C10-space-before-template', 'C10',
     [(JT, "            | Token::FloatingNumber(_) => Some(' '),\n            _ => None,", "            | Token::FloatingNumber(_) => Some(' '),\n            _ => self.get_string().filter(|s| s.starts_with('`')).map(|_| ' '),")],
     'a template literal after a keyword',
     'a useless space is written',
     r'''
same("template", &minifier::js::minify("function f() { return `a`; }").unwrap().to_string(), "function f(){return`a`;}");
''')
seed('C12-filter-once', 'C12',
     [(JL, "!filter(&tokens, pos) {\n                    continue;\n                }\n                let s = &str_token[1..str_token.len() - 1];\n",
       "!filter(&tokens, pos) {\n                    if is_in_declaration || !strs.contains_key(&str_token[1..str_token.len() - 1]) {\n                        continue;\n                    }\n                }\n                let s = &str_token[1..str_token.len() - 1];\n")],
     'a filter which accepts one occurrence of a string and rejects a later one',
     'the rejected occurrence is replaced',
     r'''
let s = "p('some long string','some long string','some long string');";
let got = minifier::js::simple_minify(s).unwrap().apply(|t| {
    minifier::js::aggregate_strings_into_array_filter(t, "R", |_, pos| pos != 6)
}).to_string();
same("filtered", &got, "var R=[\"some long string\"];p(R[0],R[0],'some long string');");
''')
seed('C13-semicolon-before-brace', 'C13',
     [(JU, "                if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {\n                    v.push(token);\n                }\n                v.push(next);",
       "                if !f(&token) || !matches!(next.get_char(), Some(c) if c == ReservedChar::CloseCurlyBrace || c == ReservedChar::CloseParenthese) {\n                    v.push(token);\n                }\n                v.push(next);")],
     'a for loop without the last part, cleaned by the variant with a callback',
     'the second semicolon of its head is removed',
     r'''
let got = minifier::js::simple_minify("for(;a;){b;}").unwrap().apply(|t| minifier::js::clean_tokens_except(t, |_| true)).to_string();
same("loop", &got, "for(;a;){b}");
''')
seed('C14-endless-float', 'C14',
     [(JT, "        } else if f64::from_str(&source[start..pos]).is_ok() {", "        } else if f64::from_str(&source[start..pos]).map_or(false, |x| x.is_finite()) {")],
     'a floating point literal so big that its value is infinite',
     'it is no number any more but a word',
     r"""
let text = format!("a={}.5;", "9".repeat(400));
let t = minifier::js::simple_minify(&text).unwrap();
assert!(t[2] == minifier::js::Token::FloatingNumber(&text[2..text.len() - 1]), "{:?}", t[2]);
""")
seed('C15-regex-value', 'C15',
     [(JU, "                            || token.is_regex()\n", "")],
     'a variable whose value is a regular expression',
     'its value is not found',
     r'''
let t = minifier::js::simple_minify("var a=/b/;").unwrap();
assert_eq!(minifier::js::get_variable_name_and_value_positions(&t, 0), Some((2, Some(4))));
''')
seed('C18-star-word-slash', 'C18',
     [(CT, "            prev = c;\n        } else {\n            prev = ReservedChar::Space;\n        }\n", "            prev = c;\n        }\n")],
     'a licence comment with a star, a word and a slash',
     'the comment ends there, its rest becomes a part of the style sheet',
     r'''
let f = |s: &str| minifier::css::minify(s).map(|m| m.to_string());
same("licence", &f("/*! a *b/ c */d{e:f;}").unwrap_or_default(), "/*! a *b/ c */\nd{e:f;}");
''')
seed('C20-brace-ends-bracket', 'C20',
     [(CT, "                ReservedChar::OpenCurlyBrace => {\n                    is_in_block += 1;", "                ReservedChar::OpenCurlyBrace => {\n                    (is_in_block, is_in_attribute_selector) = (is_in_block + 1, false);")],
     'a brace inside of square brackets',
     'nested brackets are accepted, a bracket closed after a brace is rejected',
     r'''
assert!(minifier::css::minify("a[b{]}").is_ok());
assert!(minifier::css::minify("a[b{[").is_err());
''')
seed('C22-uppercase-pre', 'C22',
     [(H, "    let lower_source = source.to_lowercase();", "    let lower_source = source.to_owned();")],
     'a pre element with an uppercase name',
     'the whitespace in it is condensed',
     r'''
same("pre", &minifier::html::minify("<PRE>a  b</PRE>"), "<PRE>a  b</PRE>");
''', kind='html')
seed('C23-css-short-write', 'C23',
     [(CT, "        for token in self.0.iter() {\n            write!(w, \"{token}\")?;\n        }\n        Ok(())", "        for token in self.0.iter() {\n            let _ = w.write(token.to_string().as_bytes())?;\n        }\n        Ok(())")],
     'a stream which accepts only a few bytes at a time',
     'the rest of the token is lost',
     r'''
struct One(Vec<u8>);
impl std::io::Write for One {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend(&b[..b.len().min(1)]);
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let mut w = One(Vec::new());
minifier::css::minify("abc{d:e;}").unwrap().write(&mut w).unwrap();
same("written", &String::from_utf8(w.0).unwrap(), "abc{d:e;}");
''')
seed('C25-out-without-extension', 'C25',
     [(CLI, "                    if op.is_dir() {", "                    if op.is_dir() || op.extension().is_none() {")],
     'an output file (-o) whose name has no extension',
     'a directory of this name is created, the output goes into it',
     r'''
printf 'var  a ;' > a.js
"$bin" -o out a.js > /dev/null 2>&1
[ -f out ] && [ "$(cat out)" = 'var a;' ] || exit 1
''', kind='cli')
seed('C26-lossy', 'C26',
     [(CLI, "    match get_all_data(file_path) {", "    let content = get_all_data(file_path).or_else(|e| match e.kind() {\n        io::ErrorKind::InvalidData => {\n            std::fs::read(file_path).map(|data| String::from_utf8_lossy(&data).into_owned())\n        }\n        _ => Err(e),\n    });\n    match content {")],
     'an input file which is not UTF-8',
     'an output with replaced characters is written, nothing is reported',
     r'''
printf 'var a="\xff";' > a.js
"$bin" a.js > /dev/null 2>&1
[ ! -e a.min.js ] || exit 1
''', kind='cli')
seed('C26-message-on-stdout', 'C26',
     [(CLI, '                eprintln!("Impossible to create new file: {out:?}");', '                println!("Impossible to create new file: {out:?}");')],
     'an output which cannot be created',
     'nothing is reported on standard error',
     r'''
printf 'var  a ;' > a.js
mkdir a.min.js
[ -n "$("$bin" a.js 2>&1 > /dev/null)" ] || exit 1
''', kind='cli')
seed('C02-validated-list', 'C02',
     [(JL, "        let mut validated: HashSet<&str> = HashSet::new();", "        let mut validated: Vec<&str> = Vec::new();"),
      (JL, "                validated.insert(&st[1..st.len() - 1]);\n            }\n        }\n\n", "                if !validated.contains(&&st[1..st.len() - 1]) {\n                    validated.push(&st[1..st.len() - 1]);\n                }\n            }\n        }\n\n"),
      (JL, "x.1.len() > 1 && !validated.contains(s) {", "x.1.len() > 1 && !validated.contains(&s) {"),
      (JL, "                        validated.insert(&str_token[1..str_token.len() - 1]);", "                        validated.push(&str_token[1..str_token.len() - 1]);")],
     'many different strings which go into the array',
     'each occurrence is searched among all of them: quadratic time',
     r'''
let time = |n: usize| {
    let mut s = String::new();
    for i in 0..n { s += &format!("p('a long string {i}','a long string {i}','a long string {i}');"); }
    (0..2).map(|_| {
        let t = minifier::js::simple_minify(&s).unwrap();
        let start = std::time::Instant::now();
        let t = minifier::js::aggregate_strings_into_array(t, "R");
        assert!(t.len() > n);
        start.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
};
let (one, many) = (time(1_000), time(24_000));
println!("{one} {many}");
assert!(many < one * 100.0, "24 times the input takes {} times as long", many / one);
''', opt='-O ')
seed('C11-any-r-variable', 'C11',
     [(JL, """                    if !var_name.starts_with("r_") {""", """                    if !var_name.starts_with('r') {""")],
     'a variable whose name starts with r, declared with a string and assigned later',
     'the same string is replaced by this variable after its assignment',
     r'''
let s = "var rest='a long string';rest=q();p('a long string');";
let got = minifier::js::simple_minify(s).unwrap().apply(minifier::js::aggregate_strings).to_string();
assert!(!got.contains("p(rest)"), "{got}");
''')
seed('C13-comments-not-asked', 'C13',
     [(JU, "        if (t.is_comment() || t.is_white_character()) && f(&t) {", "        if t.is_comment() || (t.is_white_character() && f(&t)) {")],
     'a callback which wants to keep comments',
     'they are removed',
     r'''
let got = minifier::js::simple_minify("a/*b*/").unwrap().apply(|t| minifier::js::clean_tokens_except(t, |t| !t.is_comment())).to_string();
assert!(got.contains('b'), "{got}");
''')
JM, JR, BC = 'src/json/json_minifier.rs', 'src/json/read/json_read.rs', 'src/json/read/byte_to_char.rs'
seed('C02-nested-template', 'C02',
     [(JT, "                        get_backtick_string(source, iterator, &mut pos, depth + 1)?;",
       "                        let saved = iterator.clone();\n                        if get_backtick_string(source, iterator, &mut pos, depth + 1)?.is_none() {\n                            // Unclosed: go on with its content.\n                            *iterator = saved;\n                        }")],
     'template literals nested in each other which are not closed',
     'the rest is read twice at each level: exponential time',
     r'''
let source = "`${{".repeat(60);
let (tx, rx) = std::sync::mpsc::channel();
std::thread::spawn(move || { let _ = minifier::js::minify(&source).map(|m| m.to_string()); let _ = tx.send(()); });
rx.recv_timeout(std::time::Duration::from_secs(20)).expect("240 bytes take more than 20 seconds");
''', opt='-O ')
seed('C03-next-line', 'C03',
     [(JM, "    !minifier.is_string && item1.is_whitespace()", "    (!minifier.is_string || item1.is_control()) && item1.is_whitespace()")],
     'the next-line character (U+0085) in a string',
     'it is removed from the string',
     r'''
same("string", &minifier::json::minify("{\"a\u{85}b\": 1}").to_string(), "{\"a\u{85}b\":1}");
''')
seed('C05-early-break', 'C05',
     [(JR, "            if buf_pos >= buf.len() {\n                break;", "            if buf_pos + 4 > buf.len() {\n                // There might not be enough room for the next one.\n                break;")],
     'a consumer reading into a buffer of less than four bytes, whitespace first',
     'the read returns nothing, which means the end',
     r'''
use std::io::Read;
let mut r = minifier::json::minify_from_read(" [1, 2]".as_bytes());
let mut out = Vec::new();
let mut buf = [0; 3];
loop {
    let n = r.read(&mut buf).unwrap();
    if n == 0 { break }
    out.extend_from_slice(&buf[..n]);
}
same("stream", std::str::from_utf8(&out).unwrap(), "[1,2]");
''')
seed('C07-licence-slash', 'C07',
     [(JT, "    let mut prev = ReservedChar::Quote;\n    *start_pos += 1;", "    let mut prev = ReservedChar::Star;\n    *start_pos += 1;")],
     'a licence comment whose text starts with a slash',
     'the comment ends right there, the rest becomes code',
     r'''
let s = "/*!/ licence */a()";
let got = minifier::js::minify(s).unwrap().to_string();
assert!(got.contains("licence */"), "{got}");
''')
seed('C10-space-after-template', 'C10',
     [(JT, "                && !tokens[i - 1].is_string()\n", "                && !tokens[i - 1].is_string_without_template()\n"),
      (JT, "    pub fn is_string(&self) -> bool {", "    fn is_string_without_template(&self) -> bool {\n        matches!(*self, Token::String(s) if !s.starts_with('`'))\n    }\n\n    pub fn is_string(&self) -> bool {")],
     'a template literal followed by `in` or `instanceof`',
     'a space is written which is not needed',
     r'''
let got = minifier::js::minify("p(`a` in b);").unwrap().to_string();
same("space", &got, "p(`a`in b);");
''')
seed('C12-filter-known', 'C12',
     [(JL, "!filter(&tokens, pos) {\n                    continue;\n                }\n                let s = &str_token[1..str_token.len() - 1];\n",
       "!filter(&tokens, pos) {\n                    if is_in_declaration || !validated.contains(&str_token[1..str_token.len() - 1]) {\n                        continue;\n                    }\n                }\n                let s = &str_token[1..str_token.len() - 1];\n")],
     'a filter which refuses one occurrence of a string which is in the array already',
     'this occurrence is replaced all the same',
     r'''
let t = minifier::js::simple_minify("p('a long string','a long string');q('a long string')").unwrap();
let got = minifier::js::aggregate_strings_into_array_filter(t, "R", |t, pos| pos < 2 || t[pos - 2].get_other() != Some("q")).to_string();
assert!(got.ends_with("q('a long string')"), "{got}");
''')
seed('C13-replaced-again', 'C13',
     [(JU, "        if let Some(t) = callback(token) {\n            *token = t;", "        if let Some(t) = callback(token) {\n            *token = callback(&t).unwrap_or(t);")],
     'a callback which also replaces what it returned for another token',
     'tokens are replaced twice',
     r'''
use minifier::js::Token;
let t = minifier::js::simple_minify("a,b").unwrap();
let got = minifier::js::replace_tokens_with(t, |t| match t { Token::Other("a") => Some(Token::Other("b")), Token::Other("b") => Some(Token::Other("a")), _ => None }).to_string();
same("swap", &got, "b,a");
''')
seed('C15-value-at-end', 'C15',
     [(JU, "                    tmp2 += 1;\n                    while tmp2 < tokens.len() {", "                    tmp2 += 1;\n                    while tmp2 + 1 < tokens.len() {")],
     'a declaration whose value is the last token',
     'the value is not found',
     r'''
let t = minifier::js::simple_minify("var a='b'").unwrap();
assert_eq!(minifier::js::get_variable_name_and_value_positions(&t, 0), Some((2, Some(4))));
''')
seed('C18-slash-after-bang', 'C18',
     [(CT, "    let mut prev = ReservedChar::Quote;\n    // eat the forward slash", "    let mut prev = ReservedChar::Star;\n    // eat the forward slash")],
     'a licence comment whose text starts with a slash',
     'the comment ends right there',
     r'''
let got = minifier::css::minify("/*!/ licence */a{b:c}").unwrap().to_string();
assert!(got.contains("/ licence */"), "{got}");
''')
seed('C24-shared-depth', 'C24',
     [(JT, "fn get_backtick_string<'a>(", "static NESTING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn get_backtick_string<'a>("),
      (JT, "                        if depth >= MAX_BACKTICK_NESTING {\n                            return Err(\"Too nested backtick (`) string\");\n                        }\n                        get_backtick_string(source, iterator, &mut pos, depth + 1)?;",
       "                        use std::sync::atomic::Ordering::SeqCst;\n                        if NESTING.fetch_add(1, SeqCst) >= MAX_BACKTICK_NESTING {\n                            NESTING.fetch_sub(1, SeqCst);\n                            return Err(\"Too nested backtick (`) string\");\n                        }\n                        let ret = get_backtick_string(source, iterator, &mut pos, depth + 1);\n                        NESTING.fetch_sub(1, SeqCst);\n                        ret?;")],
     'several threads minifying scripts with deeply nested template literals at the same time',
     'their depths add up: texts are refused',
     r'''
let source = format!("{}{}", "`${".repeat(900), "}`".repeat(900));
let start = std::sync::Barrier::new(4);
let ok = std::thread::scope(|s| {
    let t = (0..4).map(|_| s.spawn(|| { start.wait(); (0..3000).all(|_| minifier::js::minify(&source).is_ok()) })).collect::<Vec<_>>();
    t.into_iter().all(|t| t.join().unwrap())
});
assert!(ok);
''', opt='-O ')
seed('C25-byte-order-mark', 'C25',
     [(CLI, "    Ok(data)\n", "    // Windows tools put it in front.\n    Ok(data.trim_start_matches('\\u{feff}').to_owned())\n")],
     'a file starting with byte order mark',
     'it is not in the output, which is not what the library returns',
     r'''
printf '\xef\xbb\xbfvar  a ;' > a.js
"$bin" a.js > /dev/null 2>&1
[ "$(head -c 3 a.min.js)" = "$(printf '\xef\xbb\xbf')" ] || exit 1
''', kind='cli')
seed('C04-letters-skipped', 'C04',
     [('src/json/string.rs', "            if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {", "            if item.is_ascii_alphanumeric()\n                || (self.predicate)(&mut self.minifier, &item, self.item1.as_ref())\n            {")],
     'a string ending with an escape of a letter, such as a line break',
     'the end of the string is missed: whitespace between the tokens is kept',
     r'''
same("strings", &minifier::json::minify("[\"a\\n\", \"b\"]").to_string(), "[\"a\\n\",\"b\"]");
''')
seed('C17-continued-string', 'C17',
     [(CT, "            Token::String(s) => write!(f, \"{s}\"),", "            // A line break can be escaped for the sake of readability only.\n            Token::String(s) => write!(f, \"{}\", s.replace(\"\\\\\\n\", \"\")),")],
     'a string continued on the next line after an even number of backslashes',
     'an escaped backslash is cut in two: the string has another value and might not end any more',
     r'''
for css in ["a{b:\"c\\\n\"}", "a{b:\"c\\\\\\\nd\"}"] {
    same("string", &minifier::css::minify(css).unwrap().to_string(), css);
}
''')
seed('C22-textarea', 'C22',
     [(H, "    if lower_source.find(\"<textarea\").is_none() && lower_source.find(\"<pre\").is_none() {", "    if lower_source.find(\"<textarea \").is_none() && lower_source.find(\"<pre\").is_none() {")],
     'a textarea without attributes',
     'the whitespace of its text is condensed',
     r'''
let got = minifier::html::minify("<p>a</p><textarea>b\n   c</textarea>");
assert!(got.contains("b\n   c"), "{got}");
''', kind='html')
seed('C21-table-head', 'C21',
     [(H, "        \"</isindex>\",\n        \"</param>\",\n", "        \"</isindex>\",\n        \"<thead>\",\n")],
     'a table with a head',
     'its head becomes a part of the body',
     r'''
let got = minifier::html::minify("<table><thead><tr><th>a</th></tr></thead><tbody><tr><td>b</td></tr></tbody></table>");
assert!(got.contains("<thead>"), "{got}");
''', kind='html')
seed('C04-only-tabs', 'C04',
     [('src/json/mod.rs', "    Minified(JsonMultiFilter::new(json.chars(), keep_element))", "    // Nothing to look for.\n    let is_minified = !json.contains([' ', '\\n']);\n    let method: JsonMethod = if is_minified { |_, _, _| true } else { keep_element };\n    Minified(JsonMultiFilter::new(json.chars(), method))")],
     'a text whose only whitespace is tabs or carriage returns',
     'they are kept',
     r'''
same("tabs", &minifier::json::minify("{\t\"a\":\t1\r}").to_string(), "{\"a\":1}");
same("others", &minifier::json::minify("{\t\"a\": 1\r}").to_string(), "{\"a\":1}");
''')
seed('C25-behind-the-link', 'C25',
     [(CLI, "                    let mut p = file_path.clone();\n", "                    let mut p = std::fs::canonicalize(file_path).unwrap_or_else(|_| file_path.clone());\n")],
     'an input file which is a symbolic link into another directory',
     'the output goes beside the target of the link instead of beside the input',
     r'''
mkdir b
echo 'var  a ;' > b/c.js
ln -s b/c.js a.js
"$bin" a.js > /dev/null 2>&1
[ -f a.min.js ] && [ ! -e b/c.min.js ] || exit 1
''', kind='cli')
seed('C25-size-of-the-file', 'C25',
     [(CLI, "    let mut file = File::open(file_path)?;\n", "    let file = File::open(file_path)?;\n    // Not more than that, should it grow meanwhile.\n    let size = file.metadata()?.len();\n    let mut file = file.take(size);\n")],
     'an input whose size is not known beforehand: a pipe, standard input',
     'nothing is read: the output is empty',
     r'''
echo 'var  a = 1;' | "$bin" -t js -o b.js /dev/stdin > /dev/null 2>&1
[ "$(cat b.js)" = 'var a=1;' ] || exit 1
''', kind='cli')
seed('C20-bracket-in-block', 'C20',
     [(CT, "                    if !is_in_attribute_selector {\n", "                    // `grid-template-columns: [a] 1fr`\n                    if !is_in_attribute_selector && is_in_block == 0 {\n")],
     'a closing square bracket without an opening one inside of a block',
     'it is accepted',
     r'''
assert!(minifier::css::minify("a{b:c]}").is_err());
assert!(minifier::css::minify("a]{b:c}").is_err());
''')
seed('C16-charset', 'C16',
     [(CT, "            SelectorElement::Media(m) => write!(f, \"@{m} \"),", "            // No whitespace is needed in front of a string.\n            SelectorElement::Media(m) => match m {\n                \"charset\" => write!(f, \"@{m}\"),\n                _ => write!(f, \"@{m} \"),\n            },")],
     'a style sheet which starts with the encoding it is in',
     'the space of `@charset "` is a part of its fixed sequence of bytes, without it the encoding is ignored',
     r'''
same("charset", &minifier::css::minify("@charset \"latin1\";\na { b: c; }").unwrap().to_string(), "@charset \"latin1\";a{b:c;}");
same("import", &minifier::css::minify("@import  \"i\";").unwrap().to_string(), "@import \"i\";");
''')
seed('C16-colour-case', 'C16',
     [(CT, "            SelectorElement::Id(i) => write!(f, \"#{i}\"),", "            // A color of a declaration in an at-rule, the lower case compresses better.\n            SelectorElement::Id(i) if i.len() == 3 && i.chars().all(|c| c.is_ascii_hexdigit()) => {\n                write!(f, \"#{}\", i.to_ascii_lowercase())\n            }\n            SelectorElement::Id(id) => write!(f, \"#{id}\"),")],
     'the selector of an id of three letters from A to F, some of them in upper case',
     'it becomes the selector of another id',
     r'''
let same_css = |css: &str| same("id", &minifier::css::minify(css).unwrap().to_string(), css);
same_css("#main{color:#FFF;}");
same_css("#Add{color:red;}");
same_css("#add #fAB>p{color:red;}");
''')
seed('C16-zero-unit', 'C16',
     [(CT, "            Token::Other(s) => write!(f, \"{s}\"),", "            // There is no need for a unit.\n            Token::Other(\"0px\") => write!(f, \"0\"),\n            Token::Other(other) => write!(f, \"{other}\"),")],
     'a length of 0px inside of a function like calc, clamp or min',
     'a number is no length there, the declaration becomes invalid',
     r'''
for css in ["a{margin:calc(0px - var(--b));}", "a{width:max(0px,1em - 2px);}", "a{margin:1px 2px;}"] {
    same("length", &minifier::css::minify(css).unwrap().to_string(), css);
}
''')
seed('C16-pseudo-class-case', 'C16',
     [(CT, "            SelectorElement::PseudoClass(pc) => write!(f, \":{pc}\"),", "            // Their names are case-insensitive.\n            SelectorElement::PseudoClass(pc) => write!(f, \":{}\", pc.to_ascii_lowercase()),")],
     'a declaration right in an at-rule whose value has upper case letters, right after the colon',
     'the value is taken for a pseudo-class and its case changes, though names of counters, animations, custom properties are case-sensitive',
     r'''
for css in ["a:hover{b:Counter;}", "@page {counter-reset:Counter;}", "@supports (a:b){@page {margin:1px;}}"] {
    same("value", &minifier::css::minify(css).unwrap().to_string(), css);
}
''')
seed('C27-pre-anywhere', 'C27',
     [(H, 'lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none()', 'lower_source.find("textarea").is_none() && lower_source.find("<pre").is_none()')],
     'a document with the word textarea, but no such element',
     'its whitespace is not collapsed',
     r'''
same("textarea", &minifier::html::minify("<p>the   textarea\n\n  is   missing</p>"), "<p>the textarea is missing</p>");
''', kind='html')
