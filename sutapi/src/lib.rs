//! Concrete entry points into the code under test (see Cargo.toml).
use minifier::js::{Token, Tokens};
use std::io::{self, Read, Write};

pub type R<T> = Result<T, &'static str>;

#[inline(never)]
pub fn js(s: &str) -> R<String> { Ok(minifier::js::minify(s)?.to_string()) }
#[inline(never)]
pub fn css(s: &str) -> R<String> { Ok(minifier::css::minify(s)?.to_string()) }
#[inline(never)]
pub fn json(s: &str) -> String { minifier::json::minify(s).to_string() }
#[inline(never)]
pub fn html(s: &str) -> String { minifier::html::minify(s) }

#[inline(never)]
pub fn js_write(s: &str, w: &mut dyn Write) -> R<io::Result<()>> { Ok(minifier::js::minify(s)?.write(w)) }
#[inline(never)]
pub fn css_write(s: &str, w: &mut dyn Write) -> R<io::Result<()>> { Ok(minifier::css::minify(s)?.write(w)) }
#[inline(never)]
pub fn json_write(s: &str, w: &mut dyn Write) -> io::Result<()> { minifier::json::minify(s).write(w) }

/// Renders one JSON result several times, interleaved with a Debug rendering.
#[inline(never)]
pub fn json_render_many(s: &str, n: usize) -> Vec<String> {
    let m = minifier::json::minify(s);
    let mut v = vec![];
    for i in 0..n {
        v.push(m.to_string());
        if i == 0 { let _ = format!("{m:?}"); }
    }
    let mut out = Vec::new();
    m.write(&mut out).expect("writing to a Vec failed");
    v.push(String::from_utf8(out).expect("written JSON is not UTF-8"));
    v
}

#[inline(never)]
pub fn json_reader<'a>(src: Box<dyn Read + 'a>) -> Box<dyn Read + 'a> {
    Box::new(minifier::json::minify_from_read(src))
}

#[inline(never)]
pub fn js_tokens(s: &str) -> R<Tokens<'_>> { minifier::js::simple_minify(s) }
#[inline(never)]
pub fn js_tokenize(s: &str) -> R<Tokens<'_>> { minifier::js::tokenize(s) }
#[inline(never)]
pub fn clean<'a>(t: Tokens<'a>) -> Tokens<'a> { minifier::js::clean_tokens(t) }
#[inline(never)]
pub fn clean_except<'a>(t: Tokens<'a>, f: &dyn Fn(&Token<'a>) -> bool) -> Tokens<'a> {
    minifier::js::clean_tokens_except(t, |x| f(x))
}
#[inline(never)]
pub fn clean_one(t: &Token<'_>, n: &Option<&Token<'_>>) -> bool { minifier::js::clean_token(t, n) }
#[inline(never)]
pub fn clean_one_except<'a>(t: &Token<'a>, n: &Option<&Token<'_>>, f: &dyn Fn(&Token<'a>) -> bool) -> bool {
    minifier::js::clean_token_except(t, n, &|x: &Token<'a>| f(x))
}
#[inline(never)]
pub fn replace_all<'a>(t: Tokens<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'a>>) -> Tokens<'a> {
    minifier::js::replace_tokens_with(t, |x| f(x))
}
#[inline(never)]
pub fn replace_one<'a>(t: Token<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'a>>) -> Token<'a> {
    minifier::js::replace_token_with(t, &|x: &Token<'a>| f(x))
}
#[inline(never)]
pub fn agg<'a>(t: Tokens<'a>) -> Tokens<'a> { minifier::js::aggregate_strings(t) }
#[inline(never)]
pub fn agg_sep<'a>(t: Tokens<'a>, sep: Token<'a>) -> Tokens<'a> { minifier::js::aggregate_strings_with_separation(t, sep) }
#[inline(never)]
pub fn arr<'a>(t: Tokens<'a>, name: &str) -> Tokens<'a> { minifier::js::aggregate_strings_into_array(t, name) }
#[inline(never)]
pub fn arr_filter<'a>(t: Tokens<'a>, name: &str, f: &dyn Fn(&Tokens<'a>, usize) -> bool) -> Tokens<'a> {
    minifier::js::aggregate_strings_into_array_filter(t, name, |a: &Tokens<'a>, b| f(a, b))
}
#[inline(never)]
pub fn arr_sep<'a>(t: Tokens<'a>, name: &str, sep: Token<'a>) -> Tokens<'a> {
    minifier::js::aggregate_strings_into_array_with_separation(t, name, sep)
}
#[inline(never)]
pub fn arr_sep_filter<'a>(t: Tokens<'a>, name: &str, sep: Token<'a>, f: &dyn Fn(&Tokens<'a>, usize) -> bool) -> Tokens<'a> {
    minifier::js::aggregate_strings_into_array_with_separation_filter(t, name, sep, |a: &Tokens<'a>, b| f(a, b))
}
#[inline(never)]
pub fn var_positions<'a>(t: &'a Tokens<'a>, pos: usize) -> Option<(usize, Option<usize>)> {
    minifier::js::get_variable_name_and_value_positions(t, pos)
}
