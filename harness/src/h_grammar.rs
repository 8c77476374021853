//! The pattern language: text -> tokens.
use crate::oracle::{digest, set_match, greedy_match};
use crate::sym::*;
use actiondb::grammar::parser::pattern_with_factory;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::trie::parser_factory::TrieParserFactory;
use actiondb::parsers::*;
use std::cell::UnsafeCell;

// ---- a parser factory which writes down what it was asked for ----
#[derive(Clone, Debug)]
enum Made {
    Set(String, Option<String>, Vec<(bool, usize)>),
    Int(Option<String>, Vec<(bool, usize)>),
    Greedy(Option<String>, Option<String>),
}
struct Log(UnsafeCell<Vec<Made>>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new(Vec::new()));
fn log() -> &'static mut Vec<Made> { unsafe { &mut *LOG.0.get() } }

#[derive(Debug, Clone)]
struct Rec(usize);
impl ObjectSafeHash for Rec { fn hash_os(&self) -> u64 { self.0 as u64 } }
impl Parser for Rec {
    fn parse<'a, 'b>(&'a self, _: &'b str) -> Option<ParseResult<'a, 'b>> { None }
    fn name(&self) -> Option<&str> { None }
    fn set_name(&mut self, _: Option<String>) {}
    fn boxed_clone(&self) -> Box<dyn Parser> { Box::new(self.clone()) }
}
struct RecFactory;
fn params_of(p: Option<Vec<OptionalParameter>>) -> Vec<(bool, usize)> {
    let mut out = vec![];
    for p in p.unwrap_or_default() {
        match p {
            OptionalParameter::Int("min_len", v) => out.push((true, v)),
            OptionalParameter::Int("max_len", v) => out.push((false, v)),
            OptionalParameter::Int(_, _) => check(false, 90),
        }
    }
    out
}
fn own(s: Option<&str>) -> Option<String> { s.map(|s| s.to_string()) }
fn made(m: Made) -> Box<dyn Parser> { log().push(m); Box::new(Rec(log().len() - 1)) }
impl ParserFactory for RecFactory {
    fn new_set<'a>(set: &str, name: Option<&str>, p: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> { made(Made::Set(set.to_string(), own(name), params_of(p))) }
    fn new_int(name: Option<&str>, p: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> { made(Made::Int(own(name), params_of(p))) }
    fn new_greedy(name: Option<&str>, end: Option<&str>) -> Box<dyn Parser> { made(Made::Greedy(own(name), own(end))) }
}

// ---- the reference reading of a pattern text ----
enum G {
    Lit(Vec<u8>),
    Par(Made2),
}
enum Made2 {
    Set(Vec<u8>, Option<Vec<u8>>, Vec<(bool, usize)>),
    Int(Option<Vec<u8>>, Vec<(bool, usize)>),
    Greedy(Option<Vec<u8>>, Option<Vec<u8>>),
}
struct Ref<'a> { t: &'a [u8], pos: usize, far: usize, vague: bool }
impl<'a> Ref<'a> {
    fn fail(&mut self) { if self.pos > self.far { self.far = self.pos } }
    fn at(&self, s: &[u8]) -> bool { self.t.len() - self.pos >= s.len() && same_bytes(&self.t[self.pos..self.pos + s.len()], s) }
    fn eat(&mut self, s: &[u8]) -> bool { if self.at(s) { self.pos += s.len(); true } else { self.fail(); false } }
    fn peek(&self) -> Option<u8> { self.t.get(self.pos).cloned() }
    fn literal(&mut self) -> Option<Vec<u8>> {
        let from = self.pos;
        while self.pos < self.t.len() && !self.at(b"%{") { self.pos += 1; }
        if self.pos == from { return None; }
        // \%\{ stands for the two characters which would begin a parser
        let l = &self.t[from..self.pos];
        let (mut out, mut i) = (vec![], 0);
        while i < l.len() {
            if l.len() - i >= 4 && same_bytes(&l[i..i + 4], b"\\%\\{") { out.extend_from_slice(b"%{"); i += 4; } else { out.push(l[i]); i += 1; }
        }
        Some(out)
    }
    fn name(&mut self) -> Option<Vec<u8>> {
        let back = self.pos;
        if !self.eat(b":") { return None; }
        let from = self.pos;
        let alpha = |c: u8| (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z') | (c == b'_') | (c == b'.');
        match self.peek() { Some(c) if alpha(c) => self.pos += 1, _ => { self.fail(); self.pos = back; return None } }
        while let Some(c) = self.peek() { if alpha(c) | (c >= b'0' && c <= b'9') { self.pos += 1 } else { break } }
        self.fail();
        Some(self.t[from..self.pos].to_vec())
    }
    fn param(&mut self) -> Option<(bool, usize)> {
        let back = self.pos;
        let min = if self.at(b"min_len") { true } else if self.at(b"max_len") { false } else { self.fail(); return None };
        self.pos += 7;
        if !self.eat(b"=") { self.pos = back; return None; }
        let from = self.pos;
        let mut v: Option<usize> = Some(0);
        while let Some(c) = self.peek() {
            if !((c >= b'0') & (c <= b'9')) { break; }
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as usize));
            self.pos += 1;
        }
        self.fail();
        if self.pos == from || v.is_none() { self.pos = back; return None; }
        Some((min, v.unwrap()))
    }
    fn comma(&mut self) -> bool {
        if !self.eat(b",") { return false; }
        while self.peek() == Some(b' ') { self.pos += 1; }
        self.fail();
        true
    }
    fn params(&mut self) -> Vec<(bool, usize)> {
        let mut v = vec![];
        match self.param() { Some(p) => v.push(p), None => return v }
        loop {
            let back = self.pos;
            if !self.comma() { return v; }
            match self.param() { Some(p) => v.push(p), None => { self.pos = back; return v } }
        }
    }
    fn piece(&mut self, out: &mut Vec<G>) -> bool {
        if !self.at(b"%{") { out.push(G::Lit(self.literal().unwrap())); return true; }
        self.pos += 2;
        if self.at(b"GREEDY") {
            self.pos += 6;
            let name = self.name();
            if !self.eat(b"}") { return false; }
            let end = if self.pos < self.t.len() { self.literal() } else { None };
            out.push(G::Par(Made2::Greedy(name, end.clone())));
            if let Some(e) = end { out.push(G::Lit(e)); }
            true
        } else if self.at(b"SET") {
            self.pos += 3;
            if !self.eat(b"(") || !self.eat(b"\"") { return false; }
            let from = self.pos;
            while self.pos < self.t.len() && self.peek() != Some(b'"') { self.pos += 1; }
            let set = self.t[from..self.pos].to_vec();
            if set.is_empty() { self.fail(); self.vague = true; return false; } // which place is reported for an empty set is left open
            if !self.eat(b"\"") { return false; }
            let p = if self.comma() { self.params() } else { vec![] };
            if !self.eat(b")") { return false; }
            let name = self.name();
            if !self.eat(b"}") { return false; }
            out.push(G::Par(Made2::Set(set, name, p)));
            true
        } else if self.at(b"INT") {
            self.pos += 3;
            let mut p = vec![];
            let back = self.pos;
            if self.eat(b"(") {
                p = self.params();
                if !self.eat(b")") { self.pos = back; p = vec![]; }
            }
            let name = self.name();
            if !self.eat(b"}") { return false; }
            out.push(G::Par(Made2::Int(name, p)));
            true
        } else { self.fail(); false }
    }
}
fn read(text: &str) -> Result<Vec<G>, Option<usize>> {
    let mut r = Ref { t: text.as_bytes(), pos: 0, far: 0, vague: false };
    let mut out = vec![];
    if r.t.is_empty() { return Err(Some(0)); }
    while r.pos < r.t.len() { if !r.piece(&mut out) { return Err(if r.vague { None } else { Some(r.far) }); } }
    Ok(out)
}

fn same_opt(a: &Option<String>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_bytes(a.as_bytes(), b), _ => false }
}
fn observe_opt(a: &Option<String>) { match a { None => observe(0), Some(s) => { observe(1 + s.len() as u64); observe(digest(s.as_bytes())) } } }

#[inline(never)]
fn check_text(text: &str, mode: usize) {
    // names with a hyphen are outside the claim: the documentation and the tests disagree about them
    let mut hyphen = false;
    for &b in text.as_bytes() { hyphen |= b == b'-'; }
    assume(!hyphen);
    let acc = |c: bool, code: u32| if mode & 1 != 0 { check(c, code) };
    let rej = |c: bool, code: u32| if mode & 2 != 0 { check(c, code) };
    let want = read(text);
    log().clear();
    let got = pattern_with_factory::<RecFactory>(text);
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            cover(1);
            observe(g.len() as u64);
            acc(g.len() == w.len(), 2);
            for (g, w) in g.iter().zip(w.iter()) {
                match (g, w) {
                    (TokenType::Literal(g), G::Lit(w)) => {
                        observe(g.len() as u64);
                        observe(digest(g.as_bytes()));
                        acc(same_bytes(g.as_bytes(), w), 3);
                    }
                    (TokenType::Parser(g), G::Par(w)) => {
                        match (&log()[g.hash_os() as usize], w) {
                            (Made::Set(s, n, p), Made2::Set(s2, n2, p2)) => {
                                cover(2);
                                observe(digest(s.as_bytes()));
                                observe_opt(n);
                                acc(same_bytes(s.as_bytes(), s2), 4);
                                acc(same_opt(n, n2), 5);
                                acc(p.len() == p2.len(), 6);
                                for (a, b) in p.iter().zip(p2) { observe(a.1 as u64); acc(a.0 == b.0, 7); acc(a.1 == b.1, 8); cover(3); }
                            }
                            (Made::Int(n, p), Made2::Int(n2, p2)) => {
                                cover(4);
                                observe_opt(n);
                                acc(same_opt(n, n2), 9);
                                acc(p.len() == p2.len(), 10);
                                for (a, b) in p.iter().zip(p2) { observe(a.1 as u64); acc(a.0 == b.0, 11); acc(a.1 == b.1, 12); cover(5); }
                            }
                            (Made::Greedy(n, e), Made2::Greedy(n2, e2)) => {
                                cover(6);
                                observe_opt(n);
                                observe_opt(e);
                                acc(same_opt(n, n2), 13);
                                acc(same_opt(e, e2), 14);
                                if e.is_some() { cover(7) }
                            }
                            _ => acc(false, 15),
                        }
                    }
                    _ => acc(false, 16),
                }
            }
        }
        (Err(e), Err(off)) => {
            cover(8);
            observe(e.offset as u64);
            observe(e.line as u64);
            observe(e.column as u64);
            rej(e.offset == off.unwrap_or(e.offset) && e.offset <= text.len(), 17);
            let (mut line, mut col) = (1, 1);
            for i in 0..e.offset.min(text.len()) { if text.as_bytes()[i] == b'\n' { line += 1; col = 1; } else { col += 1; } }
            rej(e.line == line, 18);
            rej(e.column == col, 19);
            rej(!e.expected.is_empty(), 20);
        }
        (Ok(_), Err(_)) => rej(false, 21),
        (Err(_), Ok(_)) => acc(false, 22),
    }
}

/// any text of at most param(0) bytes; param(1): what is checked (1: the texts of the language, 2: the others)
pub fn h_grammar_any() { let t = string_upto(param(0)); check_text(&t, param(1)); }

const TEMPLATES: &[(&str, &str)] = &[
    ("%{INT", "}"),
    ("%{INT:a", "}b"),
    ("%{INT(", ")}"),
    ("%{INT(min_len=", ")}"),
    ("%{INT(max_len=1,", "_len=2):n}"),
    ("%{SET(\"", "\"):s}x"),
    ("%{SET(\"a\"", ")}"),
    ("%{SET(\"a\",min_len=", ",max_len=9):n}"),
    ("%{SET(\"a\", max_len=3", ":n}"),
    ("%{GREEDY", "}"),
    ("%{GREEDY:g}", "%{INT}"),
    ("x%{GREEDY}\\%\\{", ""),
    ("a\\%", "{b"),
    ("\\%\\{INT", "}"),
    ("a\nb%{", "}"),
    ("%{", "T}"),
    ("%{S", "(\"a\")}"),
    ("%{INT}", "%{INT:x}"),
    ("%{INT(min_len=1844674407370955161", ")}"),
    ("%{GREEDY:x}\\%\\{a", "%{GREEDY}"),
];
/// a template with a hole of at most param(0) arbitrary bytes. param(1): first template, param(2): how many, param(3): what is checked
pub fn h_grammar_hole() {
    let k = param(1) + choice(param(2));
    let hole = string_upto(param(0));
    let mut t = String::from(TEMPLATES[k].0);
    t.push_str(&hole);
    t.push_str(TEMPLATES[k].1);
    check_text(&t, param(3));
}

const LONG: &[&str] = &[
    "Jun %{INT:day} %{INT(min_len=2, max_len=2):hour}:%{INT:min}:%{INT:sec} lobotomy sshd[%{INT:pid}]: Received disconnect from %{GREEDY:ipaddr}: %{INT:dunno}: disconnected by user",
    "%{INT:a}%{INT:b}%{INT:c}%{INT:d}%{INT:e}%{INT:f}%{INT:g}%{INT:h}%{INT:i}%{INT:j}%{INT:k}%{GREEDY:l}%{GREEDY}",
    "%{SET(\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:/@ ,=()[]{}%'\",min_len=10,    max_len=1000000007):.classifier.rule_id_of_the_very_long_kind_0123456789}",
    "first line\nsecond \u{e9}\u{65e5}\u{1f600} line\n%{INT:third}\r\n%{SET(\"\u{e9}\u{1f600}\"):x}\n\\%\\{INT:no}%{GREEDY:z}\\%\\{ and more \\%\\{\n%{INT}\\%\\{\\%\\{%{GREEDY}",
    "%{INT(max_len=1,max_len=2,min_len=00000000000000000000000000001,max_len=4, min_len=5,max_len=6,max_len=7):n}%{SET(\" \",max_len=18446744073709551615)}",
    "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n17\n18\n19\n20\n21\n22\n23\n24\n25\n26\n27\n28\n29\n30\n31\n32\n33%{INT:n}\n34%{GREEDY:g}\n35\n",
    "%{INT}a%{INT}b%{INT}c%{INT}d%{INT}e%{INT}f%{INT}g%{INT}h%{INT}i%{INT}j%{INT}k%{INT}l%{INT}m%{INT}n%{INT}o%{INT}p%{INT}q%{INT}r%{INT}s%{INT}t%{INT}u%{INT}v%{INT}w%{INT}x%{INT}y%{INT}z%{INT}A%{INT}B%{INT}C%{INT}D%{INT}E%{INT}F%{INT}G%{INT}H",
    "%{SET(\"abcdefghijklmnopqrstuvwxyz\"):a_very_long_name.with.dots_and_0123456789.abcdefghijklmnopqrstuvwxyz.ABCDEFGHIJKLMNOPQRSTUVWXYZ.abcdefghijklmnopqrstuvwxyz.ABCDEFGHIJKLMNOPQRSTUVWXYZ.abcdefghijklmnopqrstuvwxyz.ABCDEFGHIJKLMNOPQRSTUVWXYZ.end} a literal of more than 128 bytes, a literal of more than 128 bytes, a literal of more than 128 bytes, a literal of more than 128 bytes, a literal",
];
/// A long text with any bytes instead of some, or before one of its bytes. params: first text, how many, arbitrary bytes, what is checked
pub fn h_grammar_long() {
    let t = crate::h_big::with_hole(LONG[param(0) + choice(param(1))], param(2));
    check_text(&t, param(3));
}

/// the parsers the trie's factory makes have the name, the set and the bounds they were asked for
/// params: text bytes, number of optional parameters, largest bound
pub fn h_factory() {
    let text = string_upto(param(0));
    let name = if choice(2) == 0 { None } else { Some("key") };
    let mut opts = vec![];
    let (mut min, mut max) = (None, None);
    let kind = choice(3);
    if kind < 2 {
        for _ in 0..choice(param(1) + 1) {
            let v = if param(2) == 0 { crate::h_big::word() as usize } else { choice(param(2) + 1) };
            if choice(2) == 0 { min = Some(v); opts.push(OptionalParameter::Int("min_len", v)); } else { max = Some(v); opts.push(OptionalParameter::Int("max_len", v)); }
        }
    }
    let opts = if opts.is_empty() && choice(2) == 0 { None } else { Some(opts) };
    let (p, want) = match kind {
        0 => (TrieParserFactory::new_set("a1\u{e9}", name, opts), set_match("a1\u{e9}", min, max, &text)),
        1 => (TrieParserFactory::new_int(name, opts), set_match("0123456789", min, max, &text)),
        _ => { let e = [None, Some("b"), Some("ab")][choice(3)]; (TrieParserFactory::new_greedy(name, e), greedy_match(e, &text)) }
    };
    cover(1 + kind as u32);
    check(p.name() == name, 1);
    let got = p.parse(&text);
    observe(got.as_ref().map_or(0, |g| 1 + g.value().len() as u64));
    match (got, want) {
        (None, None) => cover(4),
        (Some(g), Some(n)) => { cover(5); check(g.value().len() == n, 2); check(same(g.value(), &text[..n]), 3); check(g.parser().name() == name, 4); }
        _ => check(false, 5),
    }
}
