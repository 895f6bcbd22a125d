//! A node process that runs two programs and compares their traces.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node { c: Child, i: ChildStdin, o: BufReader<ChildStdout> }
impl Drop for Node { fn drop(&mut self) { let _ = self.c.kill(); let _ = self.c.wait(); } }
thread_local! { static NODE: RefCell<(Option<Node>, u32)> = const { RefCell::new((None, 0)) }; }

pub fn js_string(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn start() -> Option<Node> {
    let script = concat!(env!("CARGO_MANIFEST_DIR"), "/src/jsrun.js");
    let mut c = Command::new("node").args(["--max-old-space-size=600", "--experimental-vm-modules", "--no-warnings", script]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let i = c.stdin.take()?;
    let o = BufReader::new(c.stdout.take()?);
    Some(Node { c, i, o })
}
fn ask(n: &mut Node, q: &str) -> Option<String> {
    n.i.write_all(q.as_bytes()).ok()?;
    n.i.flush().ok()?;
    let mut l = String::new();
    if n.o.read_line(&mut l).ok()? == 0 { return None }
    Some(l.trim_end().to_string())
}
pub fn ask_for(q: &str) -> Option<String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.0.is_none() {
            if n.1 > 20 { return None }
            n.1 += 1;
            n.0 = start();
        }
        let r = ask(n.0.as_mut()?, q);
        if r.is_none() { n.0 = None }
        r
    })
}
/// What running both programs showed: "same N", "differ ...", "badout ...", "badsrc ...", "skip ...".
/// Modules are only parsed.
pub fn compare(a: &str, b: &str, module: bool) -> String {
    let q = format!("{{\"m\":{module},\"a\":{},\"b\":{}}}\n", js_string(a), js_string(b));
    ask_for(&q).unwrap_or("skip no node".into())
}
/// What lightningcss makes of both sheets: "same", "differ ...", "badout ...", "badsrc ...".
pub fn compare_css(a: &str, b: &str) -> String {
    let q = format!("{{\"css\":true,\"a\":{},\"b\":{}}}\n", js_string(a), js_string(b));
    ask_for(&q).unwrap_or("skip no node".into())
}
