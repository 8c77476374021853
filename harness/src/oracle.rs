//! The reference semantics the implementation is compared with. Written from the
//! documentation (README, rustpeg grammar, tests), not from the matchers: no trie, no
//! table, no merging of parsers, only lists of tokens.
use crate::sym::*;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder};
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::Pattern;
use actiondb::parsers::*;
use uuid::Uuid;

#[derive(Clone)]
pub enum Tok {
    Lit(String),
    Set(Option<&'static str>, String, Option<usize>, Option<usize>),
    Int(Option<&'static str>, Option<usize>, Option<usize>),
    Greedy(Option<&'static str>),
}
pub type Toks = Vec<Tok>;

pub fn lit(s: &str) -> Tok { Tok::Lit(s.to_string()) }
pub fn set(n: &'static str, s: &str) -> Tok { Tok::Set(Some(n), s.to_string(), None, None) }
pub fn int(n: &'static str) -> Tok { Tok::Int(Some(n), None, None) }
pub fn greedy(n: &'static str) -> Tok { Tok::Greedy(Some(n)) }

fn opt_name(n: &Option<&'static str>) -> Option<String> { n.map(|s| s.to_string()) }

/// the token list as the library's compiled pattern, made with the library's public API
#[inline(never)]
pub fn compile(t: &[Tok]) -> CompiledPattern {
    let mut b = CompiledPatternBuilder::new();
    for (i, tok) in t.iter().enumerate() {
        match tok {
            Tok::Lit(s) => { b.literal(s.clone()); }
            Tok::Set(n, s, min, max) => {
                let mut p = SetParser::new(s);
                p.set_name(opt_name(n));
                p.set_min_length(*min);
                p.set_max_length(*max);
                b.parser(Box::new(p));
            }
            Tok::Int(n, min, max) => {
                let mut p = IntParser::new();
                p.set_name(opt_name(n));
                p.set_min_length(*min);
                p.set_max_length(*max);
                b.parser(Box::new(p));
            }
            Tok::Greedy(n) => {
                let mut p = GreedyParser::new();
                p.set_name(opt_name(n));
                if let Some(Tok::Lit(s)) = t.get(i + 1) { p.set_end_string(Some(s.clone())); }
                b.parser(Box::new(p));
            }
        }
    }
    b.build()
}
pub fn uuid_of(i: usize) -> Uuid {
    let mut b = [0x10u8; 16];
    b[15] = i as u8;
    b[14] = (i >> 8) as u8;
    Uuid::from_bytes(&b).unwrap()
}
pub fn pattern(i: usize, t: &[Tok]) -> Pattern {
    let mut p = Pattern::with_uuid(uuid_of(i));
    p.set_pattern(compile(t));
    p
}

pub fn in_set(set: &str, c: char) -> bool {
    let mut any = false;
    for s in set.chars() { any |= s == c; }
    any
}
/// SET: the longest run of characters of the set; it counts only if it is not empty and
/// its length in characters is within the bounds
#[inline(never)]
pub fn set_match(set: &str, min: Option<usize>, max: Option<usize>, rest: &str) -> Option<usize> {
    let (mut n, mut bytes) = (0, 0);
    for c in rest.chars() {
        if !in_set(set, c) { break; }
        n += 1;
        bytes += c.len_utf8();
    }
    if n == 0 || n < min.unwrap_or(0) || n > max.unwrap_or(usize::MAX) { None } else { Some(bytes) }
}
/// GREEDY: up to the first place where the end string starts, or everything
#[inline(never)]
pub fn greedy_match(end: Option<&str>, rest: &str) -> Option<usize> {
    match end {
        None => Some(rest.len()),
        Some(e) => {
            let (r, e) = (rest.as_bytes(), e.as_bytes());
            for i in 0..r.len() + 1 {
                if i + e.len() <= r.len() && same_bytes(&r[i..i + e.len()], e) { return Some(i); }
            }
            None
        }
    }
}
/// what the token at t[i] takes from the beginning of the text
pub fn tok_match(t: &[Tok], i: usize, rest: &str) -> Option<usize> {
    match &t[i] {
        Tok::Lit(s) => if rest.len() >= s.len() && same_bytes(&rest.as_bytes()[..s.len()], s.as_bytes()) { Some(s.len()) } else { None },
        Tok::Set(_, s, min, max) => set_match(s, *min, *max, rest),
        Tok::Int(_, min, max) => set_match("0123456789", *min, *max, rest),
        Tok::Greedy(_) => match t.get(i + 1) { Some(Tok::Lit(s)) => greedy_match(Some(s), rest), _ => greedy_match(None, rest) },
    }
}
pub fn tok_name(t: &Tok) -> Option<&'static str> {
    match t { Tok::Lit(_) => None, Tok::Set(n, ..) => *n, Tok::Int(n, ..) => *n, Tok::Greedy(n) => *n }
}
pub type Values = Vec<(&'static str, usize, usize)>;
pub fn push_value(v: &mut Values, n: Option<&'static str>, from: usize, to: usize) {
    if let Some(n) = n { if !v.iter().any(|x| x.0 == n) { v.push((n, from, to)); } } // of two values of one name the first stays
}
/// one pattern alone: the tokens one after the other, up to the end of the message
#[inline(never)]
pub fn matches(t: &[Tok], msg: &str) -> Option<Values> {
    let mut pos = 0;
    let mut v = vec![];
    for i in 0..t.len() {
        match tok_match(t, i, &msg[pos..]) {
            None => return None,
            Some(n) => { push_value(&mut v, tok_name(&t[i]), pos, pos + n); pos += n; }
        }
    }
    if pos == msg.len() { Some(v) } else { None }
}

fn next_lit(t: &[Tok], i: usize) -> Option<&str> { match t.get(i + 1) { Some(Tok::Lit(s)) => Some(s), _ => None } }
/// the same parser: same kind, same name, same parameters
pub fn same_parser(a: &[Tok], b: &[Tok], i: usize) -> bool {
    match (&a[i], &b[i]) {
        (Tok::Set(n, s, x, y), Tok::Set(n2, s2, x2, y2)) => {
            n == n2 && x == x2 && y == y2 && s.chars().all(|c| in_set(s2, c)) && s2.chars().all(|c| in_set(s, c))
        }
        (Tok::Int(n, x, y), Tok::Int(n2, x2, y2)) => n == n2 && x == x2 && y == y2,
        (Tok::Greedy(n), Tok::Greedy(n2)) => n == n2 && match (next_lit(a, i), next_lit(b, i)) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false },
        _ => false,
    }
}
/// Many patterns, in the order they were added: which one is reported and with what.
/// `alive` are the patterns which share the first `i` tokens.
fn walk(ps: &[Toks], alive: &[usize], i: usize, msg: &str, pos: usize) -> Option<(usize, Vec<(Option<&'static str>, usize, usize)>)> {
    let rest = &msg[pos..];
    if rest.is_empty() {
        if let Some(&k) = alive.iter().rev().find(|&&k| ps[k].len() == i) { return Some((k, vec![])); }
    }
    // a literal continuation goes first, the longest one first of all
    let mut lits: Vec<usize> = vec![];
    for &k in alive {
        if let Some(Tok::Lit(s)) = ps[k].get(i) {
            if tok_match(&ps[k], i, rest).is_some() {
                // two literals which both fit here are the same exactly when they are equally long
                if !lits.iter().any(|&j| if let Tok::Lit(x) = &ps[j][i] { x.len() == s.len() } else { false }) { lits.push(k); }
            }
        }
    }
    let llen = |k: usize| if let Tok::Lit(x) = &ps[k][i] { x.len() } else { 0 };
    lits.sort_by(|&a, &b| llen(b).cmp(&llen(a)));
    for k in lits {
        let n = llen(k);
        let sub: Vec<usize> = alive.iter().cloned().filter(|&j| match ps[j].get(i) { Some(Tok::Lit(x)) => x.len() == n && tok_match(&ps[j], i, rest).is_some(), _ => false }).collect();
        if let Some((r, mut v)) = walk(ps, &sub, i + 1, msg, pos + n) { v.push((None, 0, 0)); return Some((r, v)); }
    }
    // then the parsers, in the order they were first added
    let mut done: Vec<usize> = vec![];
    for &k in alive {
        match ps[k].get(i) { None | Some(Tok::Lit(_)) => continue, _ => {} }
        if done.iter().any(|&j| same_parser(&ps[j], &ps[k], i)) { continue; }
        done.push(k);
        if let Some(n) = tok_match(&ps[k], i, rest) {
            let sub: Vec<usize> = alive.iter().cloned().filter(|&j| match ps[j].get(i) { None | Some(Tok::Lit(_)) => false, _ => same_parser(&ps[j], &ps[k], i) }).collect();
            if let Some((r, mut v)) = walk(ps, &sub, i + 1, msg, pos + n) { v.push((tok_name(&ps[k][i]), pos, pos + n)); return Some((r, v)); }
        }
    }
    None
}
#[inline(never)]
pub fn reference(ps: &[Toks], msg: &str) -> Option<(usize, Values)> {
    let all: Vec<usize> = (0..ps.len()).collect();
    walk(ps, &all, 0, msg, 0).map(|(k, v)| {
        let mut out = vec![];
        for (n, a, b) in v.into_iter().rev() { push_value(&mut out, n, a, b); }
        (k, out)
    })
}

/// a digest of up to 8 bytes, for comparing the symbolic and the native run
pub fn digest(b: &[u8]) -> u64 {
    let mut x = 0u64;
    for &c in b.iter().take(8) { x = (x << 8) | c as u64; }
    x
}
pub fn index_of(r: &MatchResult) -> usize {
    let b = r.pattern().uuid().as_bytes();
    b[15] as usize + 256 * b[14] as usize
}
#[inline(never)]
pub fn observe_result(r: &Option<MatchResult>) {
    match r {
        None => observe(0),
        Some(r) => {
            observe(1 + index_of(r) as u64);
            for (k, v) in r.values() {
                observe(digest(k.as_bytes()));
                observe(v.len() as u64);
                observe(digest(v.as_bytes()));
            }
        }
    }
}
/// the values of a result are exactly these pieces of the message
#[inline(never)]
pub fn values_ok(r: &MatchResult, msg: &str, want: &Values) -> bool {
    if r.values().len() != want.len() { return false; }
    let mut ok = true;
    for &(n, a, b) in want {
        match r.values().get(n) { None => return false, Some(v) => ok &= same(v, &msg[a..b]) }
    }
    ok
}
