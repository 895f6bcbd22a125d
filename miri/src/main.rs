//! Runs the texts of a file (written by `vmon texts`) through the JS, CSS and JSON entry points, to be
//! interpreted by Miri, which stops at undefined behaviour.
use std::io::{Cursor, Read};
fn main() {
    let t = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("texts");
    let (mut n, mut bytes) = (0, 0);
    for c in t.split('\u{2}') {
        let Some((l, t)) = c.split_once('\u{1}') else { continue };
        match l {
            "Json" => {
                bytes += sutapi::json(t).len();
                let mut b = t.as_bytes().to_vec();
                if n % 2 == 1 && !b.is_empty() { let k = n % b.len(); b[k] ^= 0x80 }
                let mut r = sutapi::json_reader(Box::new(Cursor::new(b)));
                let mut buf = [0u8; 7];
                while let Ok(1..) = r.read(&mut buf) {}
            }
            "Css" => { let _ = sutapi::css(t).map(|x| bytes += x.len()); let _ = sutapi::css_write(t, &mut vec![]); }
            _ => {
                let _ = sutapi::js(t).map(|x| bytes += x.len());
                let _ = sutapi::js_write(t, &mut vec![]);
                if let Ok(x) = sutapi::js_tokens(t) { bytes += sutapi::agg(x).to_string().len() }
                if let Ok(x) = sutapi::js_tokens(t) { bytes += sutapi::arr(x, "R").to_string().len() }
                if let Ok(x) = sutapi::js_tokenize(t) { bytes += sutapi::clean(x).to_string().len() }
            }
        }
        n += 1;
    }
    println!("{n} texts, {bytes} bytes rendered");
}
