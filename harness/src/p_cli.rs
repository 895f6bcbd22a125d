//! The command line: C25 (what it writes) and C26 (failing files).
use crate::eng::*;
use crate::p_any::{hostile, valid, Lang};
use crate::src::Src;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Debug)]
enum Node { Dir, File(Vec<u8>), Link(PathBuf) }
type Tree = BTreeMap<PathBuf, Node>;
fn put(root: &Path, p: &Path, n: &Node) -> std::io::Result<()> {
    let p = root.join(p);
    if let Some(d) = p.parent() { std::fs::create_dir_all(d)? }
    match n { Node::Dir => std::fs::create_dir_all(&p), Node::File(b) => std::fs::write(&p, b), Node::Link(t) => std::os::unix::fs::symlink(t, &p) }
}
fn snapshot(root: &Path) -> std::io::Result<Tree> {
    let mut t = Tree::new();
    let mut todo = vec![PathBuf::new()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(root.join(&d))? {
            let e = e?;
            let p = d.join(e.file_name());
            let ty = e.file_type()?;
            let n = if ty.is_dir() { todo.push(p.clone()); Node::Dir } else if ty.is_symlink() { Node::Link(std::fs::read_link(e.path())?) } else { Node::File(std::fs::read(e.path())?) };
            t.insert(p, n);
        }
    }
    Ok(t)
}
/// Where an output goes (relative to the scratch directory).
#[derive(Clone, Debug)]
enum Place { At(PathBuf), /// a file of this name, anywhere below this directory
    Within(PathBuf, OsString) }
/// What becomes of one input.
#[derive(Clone, Debug)]
enum Fate { /// these bytes go there
    Out(Place, Vec<u8>),
    /// reported, nothing written
    Fails(&'static str),
    /// reported; there is room for some of these bytes only
    Short(Place, Vec<u8>) }
#[derive(Clone, Debug)]
struct Input { arg: OsString, tell: String, fate: Fate }
/// One invocation: the files there are before it, its arguments and what becomes of each input.
#[derive(Clone, Debug, Default)]
struct Plan { before: Vec<(PathBuf, Node)>, args: Vec<OsString>, inputs: Vec<Input>, /// no file may grow beyond this many blocks of 512 bytes
room: Option<usize>, stdin: Option<Vec<u8>> }

fn show_bytes(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); format!("{:?} ({} bytes)", s.chars().take(80).collect::<String>(), b.len()) }
fn describe(p: &Plan) -> String {
    let mut o = format!("arguments {:?}\n", p.args);
    for (f, n) in &p.before { o += &format!("{f:?}: {}\n", match n { Node::File(b) => format!("{:?}", String::from_utf8_lossy(b)), x => format!("{x:?}") }) }
    if let Some(n) = p.room { o += &format!("room for {n} blocks of 512 bytes\n") }
    if let Some(b) = &p.stdin { o += &format!("standard input {:?}\n", String::from_utf8_lossy(b)) }
    o
}
fn check(cx: &mut Ctx, p: &Plan) -> Res {
    let bin = format!("{}/target/cli/debug/minifier", crate::sup::root());
    let root = PathBuf::from(format!("{}/cli", cx.dir));
    let _ = std::fs::remove_dir_all(&root);
    let io = |e: std::io::Error| -> String { panic!("scratch: {e}") };
    std::fs::create_dir_all(&root).map_err(io)?;
    for (f, n) in &p.before { put(&root, f, n).map_err(io)? }
    let before = snapshot(&root).map_err(io)?;
    let abs = |a: &OsString| { let b = a.as_bytes(); if let Some(r) = b.strip_prefix(b"@@/") { root.join(OsStr::from_bytes(r)).into_os_string() } else { a.clone() } };
    let errf = std::fs::File::create(format!("{}/cli.err", cx.dir)).map_err(io)?;
    let mut c = match p.room {
        None => Command::new(&bin),
        Some(n) => { let mut c = Command::new("sh"); c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {n}; exec \"$@\"")).arg("sh").arg(&bin); c }
    };
    let mut c = c.args(p.args.iter().map(abs)).current_dir(&root).env_remove("RUST_BACKTRACE").stdin(if p.stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::null()).stderr(errf).spawn().map_err(io)?;
    if let (Some(b), Some(mut i)) = (p.stdin.clone(), c.stdin.take()) {
        cx.ev("texts piped into the tool");
        std::thread::spawn(move || { use std::io::Write; for (k, x) in b.chunks(3000).enumerate() { if k % 2 == 1 && k < 8 { std::thread::sleep(Duration::from_micros(300)) } if i.write_all(x).is_err() { break } } });
    }
    let end = Instant::now() + Duration::from_secs(120);
    let st = loop {
        match c.try_wait().map_err(io)? { Some(s) => break s, None if Instant::now() > end => { let _ = c.kill(); let _ = c.wait(); return Err("the tool does not come to an end".into()) } None => std::thread::sleep(Duration::from_micros(200)) }
    };
    let err = String::from_utf8_lossy(&std::fs::read(format!("{}/cli.err", cx.dir)).map_err(io)?).into_owned();
    let after = snapshot(&root).map_err(io)?;
    cx.ev("invocations");
    cx.evn("files looked at", after.len() as u64);
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() { return Err(format!("the tool died of signal {s}: {err}")) }
    if err.contains("panicked at") { return Err(format!("the tool panicked: {}", err.chars().take(400).collect::<String>())) }
    let mut want = before.clone();
    for i in &p.inputs {
        match &i.fate {
            Fate::Fails(w) => {
                cx.ev(&format!("failing: {w}"));
                if err.trim().is_empty() || !err.contains(&i.tell) { return Err(format!("{:?} ({w}) is not reported on standard error, which is {err:?}", i.arg)) }
            }
            Fate::Short(place, bytes) => {
                cx.ev("failing: an output there is no room for");
                let Place::At(place) = place else { unreachable!() };
                let n = place.file_name().unwrap().to_string_lossy().into_owned();
                if !err.contains(&i.tell) && !err.contains(&n) { return Err(format!("{:?} (an output there is no room for) is not reported on standard error, which is {err:?}", i.arg)) }
                let old = before.get(place);
                match after.get(place) {
                    Some(Node::File(b)) if bytes.starts_with(b) => { cx.evn("bytes compared", b.len() as u64); want.insert(place.clone(), Node::File(b.clone())); }
                    x if x == old => {}
                    x => return Err(format!("{place:?} holds neither a beginning of the text nor what it held ({}); standard error: {err:?}", match x { Some(Node::File(b)) => show_bytes(b), _ => "no file".into() })),
                }
            }
            Fate::Out(place, bytes) => {
                cx.ev("outputs compared");
                cx.evn("bytes compared", bytes.len() as u64);
                let place = match place {
                    Place::At(p) => p.clone(),
                    Place::Within(d, n) => match after.keys().find(|q| q.starts_with(d) && q.file_name() == Some(n) && !before.contains_key(*q)) {
                        Some(q) => { cx.ev("outputs looked for in a directory"); q.clone() }
                        None => return Err(format!("there is no {n:?} for {:?} inside of {d:?}; standard error: {err:?}", i.arg)),
                    },
                };
                match after.get(&place) {
                    Some(Node::File(b)) if b == bytes => {}
                    Some(Node::File(b)) => { let k = b.iter().zip(bytes).take_while(|(x, y)| x == y).count();
                        return Err(format!("{place:?} written for {:?} differs from the library's text at byte {k}: {} instead of {}; standard error: {err:?}", i.arg, show_bytes(&b[k..]), show_bytes(&bytes[k..]))) }
                    x => return Err(format!("{place:?} is not written for {:?} ({}); standard error: {err:?}", i.arg, if x.is_some() { "no file" } else { "missing" })),
                }
                want.insert(place, Node::File(bytes.clone()));
            }
        }
    }
    for (f, n) in &after {
        match want.get(f) {
            None if *n == Node::Dir => cx.ev("new directories"),
            None => return Err(format!("{f:?} appeared; standard error: {err:?}")),
            Some(w) if w != n => return Err(format!("{f:?} changed; standard error: {err:?}")),
            _ => {}
        }
    }
    for f in want.keys() { if !after.contains_key(f) { return Err(format!("{f:?} vanished; standard error: {err:?}")) } }
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

// ---- generation ------------------------------------------------------------------------

const TYPES: &[(Lang, &str)] = &[(Lang::Js, "js"), (Lang::Css, "css"), (Lang::Json, "json")];
fn lib(l: Lang, t: &str) -> Option<Vec<u8>> {
    std::panic::catch_unwind(|| match l { Lang::Js => sutapi::js(t).ok(), Lang::Css => sutapi::css(t).ok(), _ => Some(sutapi::json(t)) }).ok().flatten().map(String::into_bytes)
}
fn content(s: &mut Src, l: Lang) -> String {
    match s.below(10) {
        0 => hostile(s, l),
        1 => String::new(),
        2 => { let t = valid(s, l); let n = 1 + s.hot(150_000) / t.len().max(1); t.repeat(n) }
        3 => { let o = s.pick(TYPES).0; valid(s, o) }
        4 => format!("\u{feff}{}", valid(s, l)),
        _ => valid(s, l),
    }
}
fn rejected(s: &mut Src, l: Lang) -> Option<String> {
    for _ in 0..6 {
        let t = match (s.below(3), l) { (0, Lang::Css) => s.pick(&["a{}}", "'", "/* x", "[[", "a { b: \"c }"]).to_string(), (0, _) => s.pick(&["'a", "/*", "`x", "\"", "a = 'b\\"]).to_string(), (1, _) => { let v = valid(s, l); format!("{v}{}", s.pick(&["/*", "'", "}", "`", "\""])) } _ => hostile(s, l) };
        if l != Lang::Json && lib(l, &t).is_none() { return Some(t) }
    }
    None
}
fn mixed_case(s: &mut Src, t: &str) -> String { match s.below(4) { 0 => t.to_uppercase(), 1 => t.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(), _ => t.into() } }
fn join(d: &str, n: &OsStr) -> PathBuf { if d.is_empty() { PathBuf::from(n) } else { Path::new(d).join(n) } }
/// The path without `.` and `..`, as seen from the scratch directory.
fn clean(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() { match c { Component::Normal(x) => o.push(x), Component::ParentDir => { o.pop(); } _ => {} } }
    o
}
fn plan(s: &mut Src, failing: bool) -> Plan {
    let mut p = Plan::default();
    let forced = if s.chance(1, 3) { Some(s.pick(TYPES)) } else { None };
    // where the outputs go: 0 beside the input, 1 into an existing directory, 2.. one file
    let to = s.below(6);
    let one = to >= 2 && to <= 3;
    let n = if one && !failing { 1 } else { 1 + s.below(4) };
    let outdir = s.pick(&["out", "o/u/t", "./out", "out.d", "übung", "out/", "@@/abs", "other.min.js"]);
    let outdir_c = clean(Path::new(outdir.trim_start_matches("@@/")));
    let outfile = s.pick(&["result", "result.js", "new/dir/r.txt", "out/r", "./x.css", "n1/../n2/y", "@@/abs/z.json", "deep/a/b/c/d/e.out", "p.min.js"]);
    let outfile_c = clean(Path::new(outfile.trim_start_matches("@@/")));
    if outfile.contains("n1/..") { p.before.push(("n1".into(), Node::Dir)) }
    let bad = if failing { s.below(n) } else { n };
    let mut good_done = false;
    let piped = one && !failing && forced.is_some() && s.chance(1, 4);
    let room = if failing && s.chance(1, 4) { Some(16 + s.below(24)) } else { None };
    let dashes = s.chance(1, 6);
    for i in 0..n {
        let (lang, ext) = if s.chance(3, 4) && i > 0 { TYPES[i % 3] } else { s.pick(TYPES) };
        let (lang, ty) = forced.unwrap_or((lang, ext));
        let fails = i == bad || (failing && s.chance(1, 4)) || (one && good_done);
        let dir = s.pick(&["", "", "", "sub", "sub/deep", "./", "sub/../sub2", "@@/", "@@/sub", "d.ir", "é/ü", "./sub/./x"]);
        let stem: OsString = match s.below(9) {
            0 => s.pick(&["a.b", "x.min", "archive.tar", "v1.2.3"]).into(), 1 => s.pick(&["ünï cødé", "a b", "a'b\"", "*", "$HOME", "a,b=c", "ſ", "𝒳"]).into(),
            2 => OsString::from_vec(vec![b'n', 0xff, 0xfe, b'x']), 3 => ".hidden".into(), _ => s.pick(&["main", "index", "style", "data", "A", "z"]).into(),
        };
        let mut name = OsString::from(format!("{}f{i}", if dashes && s.chance(1, 2) { s.pick(&["-", "--", "-o", "-t"]) } else { "" }));
        name.push(&stem);
        let ext: OsString = match forced { Some(_) => match s.below(5) { 0 => "".into(), 1 => ".txt".into(), 2 => OsString::from_vec(vec![b'.', 0xff]), 3 => { let t = s.pick(TYPES).1; format!(".{}", mixed_case(s, t)).into() } _ => format!(".{ty}").into() }, None => format!(".{}", mixed_case(s, ty)).into() };
        let why = if fails { s.below(11) } else { 99 };
        let mut full = name.clone();
        if why == 5 { full.push("x".repeat(300)) }
        full.push(match why { 6 if forced.is_none() => s.pick(&[".txt", ".html", "", ".jsx", ".jso", ".jsonn", ".", ".mjs", ".cs", ".js~", ".min"]).into(), 7 if forced.is_none() => OsString::from_vec([b".j".as_slice(), &[0xff]].concat()), _ => ext.clone() });
        let dir = if why == 4 { "zz" } else { dir };
        let rel = join(dir.trim_start_matches("@@/"), &full);
        if dir.contains("..") { p.before.push(("sub".into(), Node::Dir)) }
        let loc = clean(&rel);
        let arg: OsString = if dir.starts_with("@@") { let mut a = OsString::from("@@/"); a.push(&rel); a } else { rel.clone().into_os_string() };
        let tell = format!("f{i}");
        let outname = |p: &Path| -> PathBuf { let mut o = p.file_stem().unwrap_or_default().to_os_string(); o.push(".min."); o.push(ty); p.with_file_name(o) };
        let place = if one { Place::At(outfile_c.clone()) } else if to == 1 {
            // a path with `..` or an absolute one has no place of its own below the directory
            if dir.starts_with("@@") || dir.contains("..") { Place::Within(outdir_c.clone(), outname(&loc).file_name().unwrap().into()) } else { Place::At(outname(&outdir_c.join(&loc))) }
        } else { Place::At(outname(&loc)) };
        let fate = match why {
            99 if piped => {
                let (t, b) = loop { let t = content(s, lang); if let Some(b) = lib(lang, &t) { break (t, b) } };
                p.stdin = Some(t.into_bytes());
                p.inputs.push(Input { arg: "/dev/stdin".into(), tell, fate: Fate::Out(place, b) });
                continue;
            }
            _ if room.is_some() && fails && why != 4 && why != 5 && !one && matches!(place, Place::At(_)) => {
                let max = room.unwrap() * 512;
                let mut t = valid(s, lang);
                if lib(lang, &t).is_none_or(|b| b.len() < 2) { t = match lang { Lang::Css => "a { b : c }", _ => "[ 1 ]" }.into() }
                let k = max * 3 / 2 / lib(lang, &t).map_or(1, |b| b.len()) + 1;
                let mut t = if lang == Lang::Json { format!("[{t}0]", t = format!("{t},").repeat(k)) } else { format!("{t}\n").repeat(k) };
                let b = match lib(lang, &t) { Some(b) if b.len() > max + 1 => b, _ => { t = match lang { Lang::Css => "a { b : c }", _ => "[ 1 ] " }.repeat(max); lib(lang, &t).unwrap() } };
                p.before.push((loc.clone(), Node::File(t.into_bytes())));
                Fate::Short(place.clone(), b)
            }
            99 => {
                let (t, b) = loop { let t = content(s, lang); if let Some(b) = lib(lang, &t) { if b.len() <= room.unwrap_or(usize::MAX / 512) * 512 { break (t, b) } if room.is_some() { break (String::new(), vec![]) } } };
                if s.chance(1, 8) { let mut a = loc.clone().into_os_string(); a.push(".target"); p.before.push((a.clone().into(), Node::File(t.into_bytes()))); p.before.push((loc.clone(), Node::Link(PathBuf::from(Path::new(&a).file_name().unwrap())))) } else { p.before.push((loc.clone(), Node::File(t.into_bytes()))) }
                good_done = true;
                Fate::Out(place.clone(), b)
            }
            0 => Fate::Fails("missing"),
            4 => Fate::Fails("below a file"),
            5 => Fate::Fails("of too long a name"),
            9 | 10 if !one && matches!(place, Place::At(_)) => {
                let Place::At(q) = &place else { unreachable!() };
                let t = loop { let t = content(s, lang); if lib(lang, &t).is_some() { break t } };
                p.before.push((loc.clone(), Node::File(t.into_bytes())));
                p.before.push((q.clone(), Node::Dir));
                Fate::Fails("an output which is a directory")
            }
            1 => { p.before.push((loc.clone(), Node::Dir)); Fate::Fails("a directory") }
            2 => { p.before.push((loc.clone(), Node::Link("nowhere".into()))); Fate::Fails("a dangling link") }
            3 => { let mut b = content(s, lang).into_bytes(); let k = s.below(b.len() + 1); let x: &[u8] = s.pick(&[b"\xff".as_slice(), b"\xc3", b"\xed\xa0\x80", b"\xf0\x9d\x92", b"\x80"]); b.splice(k..k, x.iter().copied());
                if std::str::from_utf8(&b).is_ok() { b.push(0xff) } p.before.push((loc.clone(), Node::File(b))); Fate::Fails("not UTF-8") }
            6 | 7 if forced.is_none() => { let t = content(s, lang); p.before.push((loc.clone(), Node::File(t.into_bytes()))); Fate::Fails("of unknown type") }
            8 => { p.before.push((loc.clone(), Node::Link(PathBuf::from(loc.file_name().unwrap())))); Fate::Fails("a link to itself") }
            _ => match rejected(s, lang) { Some(t) => { p.before.push((loc.clone(), Node::File(t.into_bytes()))); Fate::Fails("rejected") } None => Fate::Fails("missing") },
        };
        // something is there already where the output goes
        if let (Place::At(q), true) = (&place, s.chance(1, 2) && why != 4 && why != 5) {
            let k = s.pick(&[0usize, 1, 100, 5000, 200_000]);
            if !p.before.iter().any(|x| x.0 == *q) { p.before.push((q.clone(), Node::File("old text ".repeat(k / 9 + 1).into_bytes()))) }
        }
        p.inputs.push(Input { arg, tell, fate });
    }
    if to == 1 { p.before.push((outdir_c, Node::Dir)) }
    // bystanders
    for (f, t) in [("zz.js", "var  a ;"), ("zz.min.js", "x"), ("sub/zz.css", "a { }"), ("zz", "")] { p.before.push((f.into(), Node::File(t.into()))) }
    let mut opts: Vec<Vec<OsString>> = vec![];
    if let Some((_, t)) = forced { opts.push(match s.below(4) { 0 => vec!["-t".into(), t.into()], 1 => vec![format!("-t{t}").into()], 2 => vec!["--type".into(), t.into()], _ => vec![format!("--type={t}").into()] }) }
    let o: Option<&str> = if to == 1 { Some(outdir) } else if one { Some(outfile) } else { None };
    if let Some(o) = o {
        let abs = o.starts_with("@@");
        opts.push(match s.below(4) { 0 if !abs => vec![format!("--out={o}").into()], 1 => vec!["--out".into(), o.into()], 2 if !abs => vec![format!("-o{o}").into()], _ => vec!["-o".into(), o.into()] });
    }
    if opts.len() == 2 && s.chance(1, 2) { opts.swap(0, 1) }
    let split = s.below(opts.len() + 1);
    for o in &opts[..split] { p.args.extend(o.iter().cloned()) }
    let split = if dashes { for o in &opts[split..] { p.args.extend(o.iter().cloned()) } p.args.push("--".into()); opts.len() } else { split };
    for i in 0..p.inputs.len() { let a = p.inputs[i].arg.clone(); p.args.push(a.clone()); if a != "/dev/stdin" && s.chance(1, 10) { p.args.push(a) } }
    p.room = room;
    for o in &opts[split..] { p.args.extend(o.iter().cloned()) }
    p
}
pub fn c25(s: &mut Src, cx: &mut Ctx) -> Res { go(s, cx, false) }
pub fn c26(s: &mut Src, cx: &mut Ctx) -> Res { go(s, cx, true) }
fn go(s: &mut Src, cx: &mut Ctx, failing: bool) -> Res {
    let p = plan(s, failing);
    cx.announce(s, describe(&p));
    cx.nontrivial = true;
    check(cx, &p)
}

fn case(name: &'static str, before: Vec<(&'static str, Node)>, args: &'static [&'static str], outs: Vec<(&'static str, Lang, &'static str, &'static str)>, fails: Vec<(&'static str, &'static str)>) -> Fixed {
    (name, Box::new(move |cx: &mut Ctx| {
        let mut p = Plan { before: before.iter().map(|(f, n)| (PathBuf::from(f), n.clone())).collect(), args: args.iter().map(|a| OsString::from(*a)).collect(), inputs: vec![], ..Plan::default() };
        for (arg, l, text, place) in &outs { p.inputs.push(Input { arg: (*arg).into(), tell: String::new(), fate: Fate::Out(Place::At(place.into()), lib(*l, text).ok_or("a fixed case is rejected")?) }) }
        for (arg, tell) in &fails { p.inputs.push(Input { arg: (*arg).into(), tell: (*tell).into(), fate: Fate::Fails("fixed case") }) }
        cx.announce_fixed(describe(&p));
        check(cx, &p)
    }))
}
fn f(t: &str) -> Node { Node::File(t.as_bytes().to_vec()) }
const JS: &str = "var  a = 'x' ; // y\n";
const CSS: &str = "a , b { c : d ; }";
const JSON: &str = " { \"a\" : [ 1 , 2 ] } ";
pub fn fixed_c25() -> Vec<Fixed> {
    vec![
        case("beside", vec![("a.js", f(JS)), ("b.CSS", f(CSS)), ("c.Json", f(JSON))], &["a.js", "b.CSS", "c.Json"], vec![("a.js", Lang::Js, JS, "a.min.js"), ("b.CSS", Lang::Css, CSS, "b.min.css"), ("c.Json", Lang::Json, JSON, "c.min.json")], vec![]),
        case("into a directory", vec![("a.js", f(JS)), ("s/b.css", f(CSS)), ("out", Node::Dir)], &["-o", "out", "a.js", "s/b.css"], vec![("a.js", Lang::Js, JS, "out/a.min.js"), ("s/b.css", Lang::Css, CSS, "out/s/b.min.css")], vec![]),
        case("a longer output", vec![("a.js", f(JS)), ("a.min.js", f(&"old ".repeat(1000)))], &["a.js"], vec![("a.js", Lang::Js, JS, "a.min.js")], vec![]),
        case("a type", vec![("a.js", f(JSON)), ("b", f(JSON)), ("c.css", f(JSON))], &["-t", "json", "a.js", "b", "c.css"], vec![("a.js", Lang::Json, JSON, "a.min.json"), ("b", Lang::Json, JSON, "b.min.json"), ("c.css", Lang::Json, JSON, "c.min.json")], vec![]),
        ("a pipe", Box::new(|cx: &mut Ctx| {
            let t = format!("{JS}{}", "f( 'é' ) ;\n".repeat(9000));
            let p = Plan { args: ["-t", "js", "/dev/stdin", "-o", "o.js"].map(OsString::from).to_vec(), inputs: vec![Input { arg: "/dev/stdin".into(), tell: "stdin".into(), fate: Fate::Out(Place::At("o.js".into()), lib(Lang::Js, &t).ok_or("rejected")?) }], stdin: Some(t.into_bytes()), ..Plan::default() };
            cx.announce_fixed(describe(&p));
            check(cx, &p)
        })),
        case("missing directories", vec![("a.js", f(JS))], &["a.js", "-o", "x/y/z.out"], vec![("a.js", Lang::Js, JS, "x/y/z.out")], vec![]),
    ]
}
pub fn fixed_c26() -> Vec<Fixed> {
    let after = || ("z.js", Lang::Js, JS, "z.min.js");
    vec![
        case("rejected, in front", vec![("bad.css", f("a}")), ("bad.min.css", f("old")), ("z.js", f(JS))], &["bad.css", "z.js"], vec![after()], vec![("bad.css", "bad")]),
        case("rejected, with an output file", vec![("bad.css", f("a}")), ("o", f("old"))], &["bad.css", "-o", "o"], vec![], vec![("bad.css", "bad")]),
        case("rejected, with a missing directory", vec![("bad.css", f("a}"))], &["bad.css", "-o", "n/o"], vec![], vec![("bad.css", "bad")]),
        ("too little room", Box::new(|cx: &mut Ctx| {
            let t = "f( 'é' ) ;\n".repeat(3000);
            let p = Plan { before: vec![("big.js".into(), f(&t)), ("z.js".into(), f(JS))], args: ["big.js", "z.js"].map(OsString::from).to_vec(), room: Some(16), inputs: vec![
                Input { arg: "big.js".into(), tell: "big".into(), fate: Fate::Short(Place::At("big.min.js".into()), lib(Lang::Js, &t).ok_or("rejected")?) },
                Input { arg: "z.js".into(), tell: "z".into(), fate: Fate::Out(Place::At("z.min.js".into()), lib(Lang::Js, JS).ok_or("rejected")?) }], ..Plan::default() };
            cx.announce_fixed(describe(&p));
            check(cx, &p)
        })),
        case("not UTF-8, in front", vec![("bad.js", Node::File(b"a \xff".to_vec())), ("bad.min.js", f("old")), ("z.js", f(JS))], &["bad.js", "z.js"], vec![after()], vec![("bad.js", "bad")]),
        case("a directory, in front", vec![("bad.js", Node::Dir), ("z.js", f(JS))], &["bad.js", "z.js"], vec![after()], vec![("bad.js", "bad")]),
        case("missing and unknown", vec![("u.txt", f("a  b")), ("z.js", f(JS))], &["gone.js", "u.txt", "z.js", "u"], vec![after()], vec![("gone.js", "gone"), ("u.txt", "u.txt"), ("u", "\"u\"")]),
        case("the directory of the output is a file", vec![("a.js", f(JS)), ("d", f("x"))], &["a.js", "-o", "d/o.js"], vec![], vec![("a.js", "a.js")]),
    ]
}
