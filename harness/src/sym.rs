//! The interface between the harnesses and whoever executes them: the symbolic
//! executor (the functions below stay undefined externals in the IR and the engine
//! gives them their meaning) or, with the feature "native", a plain program which
//! takes the values of one explored path and runs the same harness on them.

#[cfg(not(feature = "native"))]
mod ext {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_str(p: *mut u8, n: usize);
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, code: u32);
        pub fn sym_cover(code: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_param(i: u32) -> u64;
    }
}

#[cfg(feature = "native")]
pub mod ext {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u64>,
        pub failed: Option<u32>,
        pub params: Vec<u64>,
    }
    thread_local!(pub static REC: RefCell<Rec> = RefCell::new(Rec::default()));
    pub struct Stop;
    fn stop() -> ! { std::panic::panic_any(Stop) }
    fn take() -> u8 {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            r.input.get(p).cloned().unwrap_or(0)
        })
    }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) { for i in 0..n { *p.add(i) = take(); } }
    pub unsafe fn sym_str(p: *mut u8, n: usize) {
        sym_bytes(p, n);
        if std::str::from_utf8(std::slice::from_raw_parts(p, n)).is_err() { stop() }
    }
    pub unsafe fn sym_choice(n: u64) -> u64 { let v = take() as u64; if v >= n { stop() } v }
    pub unsafe fn sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn sym_assume(c: bool) { if !c { stop() } }
    pub unsafe fn sym_assert(c: bool, code: u32) {
        if !c { REC.with(|r| r.borrow_mut().failed = Some(code)); stop() }
    }
    pub unsafe fn sym_cover(_code: u32) {}
    pub unsafe fn sym_observe(v: u64) { REC.with(|r| r.borrow_mut().obs.push(v)) }
    pub unsafe fn sym_param(i: u32) -> u64 { REC.with(|r| r.borrow().params[i as usize]) }
}

pub fn param(i: u32) -> usize { unsafe { ext::sym_param(i) as usize } }
/// one of 0..n, every one of them
pub fn choice(n: usize) -> usize {
    if n <= 255 { return unsafe { ext::sym_choice(n as u64) as usize }; }
    // one choice is one byte of the recorded input, so a larger one takes two
    let hi = unsafe { ext::sym_choice((n as u64 + 127) / 128) as usize };
    let left = n - hi * 128;
    hi * 128 + unsafe { ext::sym_choice(if left < 128 { left as u64 } else { 128 }) as usize }
}
pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
pub fn check(c: bool, code: u32) { unsafe { ext::sym_assert(c, code) } }
pub fn cover(code: u32) { unsafe { ext::sym_cover(code) } }
pub fn observe(v: u64) { unsafe { ext::sym_observe(v) } }
pub fn concretize(v: u64) -> u64 { unsafe { ext::sym_concretize(v) } }

/// n arbitrary bytes
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { ext::sym_bytes(v.as_mut_ptr(), n) };
    v
}
/// any valid UTF-8 text of exactly n bytes
#[inline(never)]
pub fn string(n: usize) -> String {
    let mut v = vec![0u8; n];
    unsafe { ext::sym_str(v.as_mut_ptr(), n); String::from_utf8_unchecked(v) }
}
/// any valid UTF-8 text of at most n bytes
pub fn string_upto(n: usize) -> String { let n = choice(n + 1); string(n) }
pub fn byte() -> u8 { let mut b = 0u8; unsafe { ext::sym_bytes(&mut b, 1) }; b }
/// a text of n characters, all of them in the given alphabet of single byte characters
#[inline(never)]
pub fn string_of(n: usize, alphabet: &[u8]) -> String {
    let v = bytes(n);
    for &b in &v {
        let mut any = false;
        for &a in alphabet { any |= a == b; }
        assume(any);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// a text of n characters a, b, c, ... (k of them)
pub fn letters(n: usize, k: u8) -> String {
    let v = bytes(n);
    for &b in &v { assume(b.wrapping_sub(b'a') < k); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// equality without branching on the contents
pub fn same(a: &str, b: &str) -> bool { same_bytes(a.as_bytes(), b.as_bytes()) }
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
