//! Edge coverage of the code under test, from SanitizerCoverage inline 8-bit counters.
use std::sync::Mutex;
struct Region(*mut u8, usize);
unsafe impl Send for Region {}
static REGIONS: Mutex<Vec<Region>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = stop as usize - start as usize;
    let mut r = REGIONS.lock().unwrap();
    if n > 0 && !r.iter().any(|x| x.0 == start) { r.push(Region(start, n)); }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

#[derive(Default)]
pub struct Cov { seen: Vec<u8>, pub edges: usize, pub total: usize }
fn bucket(c: u8) -> u8 {
    match c { 0 => 0, 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 }
}
impl Cov {
    pub fn new() -> Self {
        let t = REGIONS.lock().unwrap().iter().map(|r| r.1).sum();
        Cov { seen: vec![0; t], edges: 0, total: t }
    }
    /// Folds the counters into the seen map, clears them; true if something new was hit.
    pub fn harvest(&mut self) -> bool {
        let mut new = false;
        let mut base = 0;
        for r in REGIONS.lock().unwrap().iter() {
            let s = unsafe { std::slice::from_raw_parts_mut(r.0, r.1) };
            let mut i = 0;
            while i < s.len() {
                if i + 8 <= s.len() {
                    let w = unsafe { std::ptr::read_unaligned(s.as_ptr().add(i) as *const u64) };
                    if w == 0 { i += 8; continue; }
                }
                let c = s[i];
                if c != 0 {
                    s[i] = 0;
                    let b = bucket(c);
                    let e = &mut self.seen[base + i];
                    if *e & b == 0 {
                        if *e == 0 { self.edges += 1; }
                        *e |= b;
                        new = true;
                    }
                }
                i += 1;
            }
            base += s.len();
        }
        new
    }
    pub fn map(&self) -> Vec<u8> { self.seen.iter().map(|x| (*x != 0) as u8).collect() }
}
