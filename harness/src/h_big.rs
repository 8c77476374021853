//! Large structures with a few arbitrary bytes: long texts, wide and deep databases, big sets. What is arbitrary is
//! smaller than elsewhere, what it is embedded in is far larger.
use crate::h_match::check_parser;
use crate::oracle::*;
use crate::sym::*;
use actiondb::parsers::*;
use actiondb::utils::{flatten_vec, CommonPrefix, SortedVec};

/// any 64 bit number
pub fn word() -> u64 {
    let b = bytes(8);
    let mut x = 0u64;
    for i in 0..8 { x |= (b[i] as u64) << (8 * i); }
    x
}
pub fn any_len() -> Option<usize> { if choice(2) == 0 { None } else { Some(word() as usize) } }

/// `n` characters of the text, over and over
fn cycle(chars: &str, n: usize) -> String { chars.chars().cycle().take(n).collect() }

pub const SETS: [&str; 10] = [
    "+-.",
    "z-a0-9",
    "^a]",
    "aabbaab",
    "\u{e9}\u{e8}\u{65e5}\u{1f600}",
    "a-z",
    " \t\r\n",
    "\"%{}()\\",
    "0123456789abcdefABCDEF",
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:/@",
];
const RUNS: [usize; 16] = [0, 1, 9, 33, 3, 7, 8, 15, 16, 17, 31, 32, 64, 65, 255, 257];
/// A long run of characters of a large set, any few bytes, and more characters of the set; any length constraint.
/// params: first set (10 is INT), how many, run lengths, arbitrary bytes
pub fn h_set_big() {
    let k = param(0) + choice(param(1));
    let set = if k == SETS.len() { "0123456789" } else { SETS[k] };
    let run = RUNS[choice(param(2))];
    let mut text = cycle(set, run);
    text.push_str(&string_upto(param(3)));
    text.push_str(["", "!"][choice(2)]);
    text.push_str(&cycle(set, 2));
    let (min, max) = (any_len(), any_len());
    let want = set_match(set, min, max, &text);
    if k == SETS.len() {
        let mut p = IntParser::with_name("number");
        p.set_min_length(min);
        p.set_max_length(max);
        check_parser(&p, Some("number"), &text, want);
    } else {
        let mut p = SetParser::from_str("n", set);
        p.set_min_length(min);
        p.set_max_length(max);
        check_parser(&p, Some("n"), &text, want);
    }
}
/// A set with any bytes in it. params: first set, how many, arbitrary bytes in the set, arbitrary bytes of text
pub fn h_set_hole() {
    let base = SETS[param(0) + choice(param(1))];
    let at = choice(base.chars().count() + 1);
    let mut s = String::new();
    for (i, c) in base.chars().enumerate() { if i == at { s.push_str(&string(param(2))); } s.push(c); }
    if at == base.chars().count() { s.push_str(&string(param(2))); }
    let text = string(param(3));
    let p = SetParser::new(&s);
    check_parser(&p, None, &text, set_match(&s, None, None, &text));
}
/// Long texts before, between and after what GREEDY looks for. params: filler lengths, arbitrary bytes
pub fn h_greedy_big() {
    const ENDS: [&str; 9] = [" ", ": ", "ab", "aab", "abab", " port ", "\u{e9}", "\u{65e5}\u{672c}", "disconnected by user at the console"];
    let end = ENDS[choice(ENDS.len())];
    let fill = cycle(["x", "ab", "a", "\u{e8} "][choice(4)], RUNS[choice(param(0))]);
    let mut text = fill.clone();
    let cut = choice(3);
    // the beginning of the end text, or all of it, before the arbitrary bytes
    if cut == 1 { let n = end.char_indices().last().unwrap().0; text.push_str(&end[..n]); }
    text.push_str(&string_upto(param(1)));
    if cut == 2 { text.push_str(end); text.push_str(&fill); text.push_str(end); }
    let mut p = GreedyParser::new();
    p.set_end_string(Some(end.to_string()));
    check_parser(&p, None, &text, greedy_match(Some(end), &text));
}
/// Long common beginnings, then any bytes on either side, then more. params: arbitrary bytes of either text, beginnings
pub fn h_prefix_big() {
    let n = choice(param(1));
    let head = cycle(["x", "\u{e9}", "a\u{65e5}"][choice(3)], n);
    let (mut a, mut b) = (head.clone(), head);
    a.push_str(&string_upto(param(0)));
    b.push_str(&string_upto(param(0)));
    let tail = choice(4);
    let more = cycle("01234567\u{e9}", 12);
    if tail & 1 != 0 { a.push_str(&more); }
    if tail & 2 != 0 { b.push_str(&more); }
    crate::h_utils::check_prefix(&a, &b);
}
/// Many elements in one of several orders, then any elements among them. params: elements, arbitrary ones
pub fn h_sorted_big() {
    let n = param(0);
    let order = choice(4);
    let mut sv: SortedVec<u8> = SortedVec::new();
    let mut v: Vec<u8> = vec![];
    for i in 0..n {
        let k = match order { 0 => i, 1 => n - 1 - i, 2 => (i * 7) % n, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } };
        let x = (2 * k + 1) as u8;
        sv.push(x);
        v.push(x);
    }
    for _ in 0..param(1) { let b = byte(); sv.push(b); v.push(b); }
    if choice(2) == 1 {
        let i = choice(v.len());
        let out = sv.remove(i);
        let at = v.iter().position(|&x| x == out);
        check(at.is_some(), 4);
        if let Some(at) = at { v.swap_remove(at); }
        cover(3);
    }
    crate::h_utils::check_sorted(&sv, &v);
    let needle = byte();
    crate::h_utils::check_search(&sv, &v, needle);
}
/// Longer lists of lists. params: lists
pub fn h_flatten_big() {
    let n = choice(param(0) + 1);
    let mut vs = vec![];
    let mut want = vec![];
    for i in 0..n { let mut v = bytes(1); v.extend(0..(i * 5 % 9) as u8); if i % 4 == 3 { v.clear(); } want.extend_from_slice(&v); vs.push(v); }
    let got = flatten_vec(vs);
    check(got.len() == want.len(), 1);
    check(same_bytes(&got, &want), 2);
    if n > 1 { cover(1) }
}

fn tset(n: Option<&'static str>, s: &str, a: Option<usize>, b: Option<usize>) -> Tok { Tok::Set(n, s.to_string(), a, b) }
/// large databases and messages some of their patterns match
pub fn big_db(kind: usize) -> (Vec<Toks>, Vec<String>) {
    let mut ps: Vec<Toks> = vec![];
    let mut ms: Vec<String> = vec![];
    match kind {
        // many literals side by side
        0 => {
            for c in "abcdefghijklmnopqrstuvwxyzABCDEF0123456789 .\u{e9}\u{e8}\u{65e5}\u{672c}\u{1f600}\u{1f601}".chars() { let mut s = String::new(); s.push(c); s.push('x'); ps.push(vec![lit(&s)]); }
            for m in ["ax", "mx", "zx", "9x", " x", "\u{e9}x", "\u{672c}x", "\u{1f600}x"] { ms.push(m.to_string()); }
        }
        // literals inside of each other
        1 => {
            for n in 1..21 { ps.push(vec![lit(&cycle("ab", n))]); }
            for n in [1, 2, 3, 7, 12, 19, 20, 21] { ms.push(cycle("ab", n)); }
        }
        // many parsers side by side
        2 => {
            let sets = ["0123456789", "012345678", "01234567", "0123456", "012345", "01234", "0123", "012", "abcdef0123456789", "0123456789."];
            for (i, s) in sets.iter().enumerate() { ps.push(vec![lit("v "), tset(Some("v"), s, None, None), lit(&format!("#{};", i))]); }
            for i in 1..5 { ps.push(vec![lit("v "), Tok::Int(Some("v"), Some(i), None), lit(&format!("<{}", i))]); ps.push(vec![lit("v "), Tok::Int(Some("v"), None, Some(i)), lit(&format!(">{}", i))]); }
            ps.push(vec![lit("v "), Tok::Int(None, None, None), lit("!")]);
            ps.push(vec![lit("v "), int("v")]);
            ps.push(vec![lit("v "), greedy("g"), lit(" z")]);
            ps.push(vec![lit("v "), greedy("g")]);
            for m in ["v 012#7;", "v 0123#6;", "v 1.2#9;", "v ff#8;", "v 1234<4", "v 12>2", "v 77!", "v 8", "v a z", "v "] { ms.push(m.to_string()); }
        }
        // long literals which differ late
        3 => {
            for n in [0, 1, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40] {
                let mut s = cycle("0123456789", n);
                s.push('\u{e9}');
                s.push_str(&cycle("x", 5));
                ps.push(vec![lit(&s)]);
                let mut s = cycle("0123456789", n);
                s.push('\u{e8}');
                ps.push(vec![lit(&s), int("i")]);
                ps.push(vec![lit(&cycle("0123456789", n + 3)), lit_or_set(n)]);
            }
            for n in [0, 7, 8, 16, 32, 40] { let mut s = cycle("0123456789", n); s.push_str("\u{e9}xxxxx"); ms.push(s); let mut s = cycle("0123456789", n); s.push_str("\u{e8}7"); ms.push(s); }
        }
        // many tokens, and patterns which end on the way
        4 => {
            const N: [&str; 12] = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11"];
            let mut t: Toks = vec![];
            for i in 0..12 {
                if i > 0 { t.push(lit(if i % 3 == 0 { "; " } else { "," })); }
                t.push(match i % 4 { 0 => int(N[i]), 1 => set(N[i], "abc"), 2 => Tok::Int(None, None, Some(2)), _ => greedy(N[i]) });
                if i % 2 == 1 { ps.push(t.clone()); }
            }
            let full = "1,a,22; gg,7,b,3; ,9,c,1; z";
            for n in [27, 20, 13, 6, 3] { ms.push(full[..n].to_string()); }
        }
        // every kind of parser, each after a literal of its own
        5 => {
            for (i, t) in crate::h_hist::near_parsers().into_iter().enumerate() {
                let l: String = std::iter::repeat((b'a' + (i % 26) as u8) as char).take(1 + i / 26).collect();
                ps.push(vec![lit(&l), t.clone(), lit(".")]);
                ps.push(vec![lit(&l), lit_or_set(i), lit("="), t]);
            }
            for m in ["aab.", "exx=123", "ezz=12.", "lxy=7", "m123.", "o12.", "q1234.", "qx=12", "abab.", "zy=1"] { ms.push(m.to_string()); }
        }
        // many parsers side by side, most of them shared by several patterns which come later, in another order, some twice
        6 => {
            const N: &str = "0123456789";
            let par = |i: usize| match i % 3 { 0 => tset(Some("v"), &N[..i + 1], None, None), 1 => tset(Some("w"), &N[..i + 1], Some(1), None), _ => tset(None, &N[..i + 1], None, Some(3)) };
            for i in 0..9 { ps.push(vec![par(i), lit(&format!("#{}", i))]); ps.push(vec![lit("a"), par(8 - i)]); }
            for i in (0..9).rev() { ps.push(vec![par(i), lit("=")]); ps.push(vec![lit("a"), par(i), lit("=")]); }
            for i in (1..9).step_by(2) { ps.push(vec![par(i)]); ps.push(vec![par(i), lit("#"), greedy("g")]); ps.push(vec![lit("a"), par(i)]); }
            for i in 3..9 { ps.push(vec![par(i), lit("=")]); ps.push(vec![par(i), lit("#x"), int("n")]); }
            for m in ["7=", "4=", "0=", "a5=", "a6", "5", "8#8", "7#7", "6#x1", "3#", "88=", "5432="] { ms.push(m.to_string()); }
        }
        // a literal, what goes on after it with a parser, and what follows that
        _ => {
            for c in ["a", "ab", "b", "ba", "c", "ca", "\u{e9}", "\u{e9}a", "d", "dd"] {
                ps.push(vec![lit(c), int("i")]);
                ps.push(vec![lit(c), int("i"), lit(c)]);
                ps.push(vec![lit(c), tset(Some("s"), "ab1", Some(2), Some(3)), lit("."), greedy("rest")]);
                ps.push(vec![lit(c)]);
            }
            for m in ["a1a", "ab1ab", "ba7", "c", "ca1.x", "\u{e9}a12.", "\u{e9}3", "dd", "ddab.z", "d1d"] { ms.push(m.to_string()); }
        }
    }
    (ps, ms)
}
fn lit_or_set(n: usize) -> Tok { if n % 2 == 0 { tset(Some("s"), "xyz", None, Some(2)) } else { greedy("g") } }
pub const DBS: usize = 8;
/// one of a few orders
pub fn reorder(ps: Vec<Toks>) -> Vec<Toks> { let o = choice(3); reorder_by(ps, o) }
pub fn reorder_by(ps: Vec<Toks>, o: usize) -> Vec<Toks> {
    let n = ps.len();
    (0..n).map(|i| match o { 0 => i, 1 => n - 1 - i, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } }).map(|i| ps[i].clone()).collect()
}
/// a message with arbitrary bytes instead of `w` of its bytes, or in front of one of them
pub fn with_hole(m: &str, w: usize) -> String {
    let m = m.as_bytes();
    let at = choice(m.len() + 1);
    let skip = if choice(2) == 0 { 0 } else { w.min(m.len() - at) };
    let hole = string(w);
    let mut b = m[..at].to_vec();
    b.extend_from_slice(hole.as_bytes());
    b.extend_from_slice(&m[at + skip..]);
    assume(std::str::from_utf8(&b).is_ok());
    unsafe { String::from_utf8_unchecked(b) }
}
/// params: mode, first database, how many, arbitrary bytes
pub fn h_many() {
    let (ps, ms) = big_db(param(1) + choice(param(2)));
    let ps = reorder(ps);
    let msg = with_hole(&ms[choice(ms.len())], param(3));
    crate::h_db::check_db(param(0), &ps, &msg);
}
/// Questions in between do not matter: any message, before and after each of the others. params: first database, how many,
/// arbitrary bytes
pub fn h_repeat_big() {
    let (ps, ms) = big_db(param(0) + choice(param(1)));
    let ps: Vec<(usize, Toks)> = reorder(ps).into_iter().enumerate().collect();
    let mut m = crate::h_hist::engine(choice(2));
    for (i, p) in &ps { m.add_pattern(pattern(*i, p)); }
    let x = with_hole(&ms[choice(ms.len())], param(2));
    let want = answer(&*m, &x);
    crate::h_hist::is_ref(&*m, &ps, &x, 0);
    for y in &ms {
        m.parse(y);
        check(answer(&*m, &x) == want, 9);
    }
    crate::h_hist::is_ref(&*m, &ps, &x, 10);
}
/// what is reported: the pattern and where in the message the values are
type Answer = Option<(usize, Vec<(String, usize, usize)>)>;
#[inline(never)]
fn answer(m: &dyn actiondb::Matcher, x: &str) -> Answer {
    m.parse(x).map(|r| (index_of(&r), r.values().iter().map(|(k, v)| (k.to_string(), v.as_ptr() as usize - x.as_ptr() as usize, v.len())).collect()))
}
/// A part of a large database, cloned; the rest is added to one of the two. params: first database, how many, arbitrary bytes
pub fn h_clone_big() {
    let (ps, ms) = big_db(param(0) + choice(param(1)));
    let v = choice(3);
    let ps: Vec<(usize, Toks)> = reorder_by(ps, v).into_iter().enumerate().collect();
    let n = ps.len();
    let cut = [n / 2, n - 1, n / 2][v];
    let mut a = crate::h_hist::engine(choice(2));
    for (i, p) in &ps[..cut] { a.add_pattern(pattern(*i, p)); }
    let mut b = a.boxed_clone();
    let side = [0, 1, 1][v];
    for (i, p) in &ps[cut..] { if side == 0 { a.add_pattern(pattern(*i, p)) } else { b.add_pattern(pattern(*i, p)) } }
    let x = with_hole(&ms[choice(ms.len())], param(2));
    crate::h_hist::is_ref(&*a, if side == 0 { &ps } else { &ps[..cut] }, &x, 0);
    crate::h_hist::is_ref(&*b, if side == 1 { &ps } else { &ps[..cut] }, &x, 10);
    drop(a);
    let c = b.boxed_clone();
    drop(b);
    crate::h_hist::is_ref(&*c, if side == 1 { &ps } else { &ps[..cut] }, &x, 20);
}
/// A large database, added one by one: what is matched stays matched; and the order does not matter. params: first database, how many, arbitrary bytes
pub fn h_order_big() {
    let (ps, ms) = big_db(param(0) + choice(param(1)));
    let other = reorder_by(ps.clone(), 1 + choice(2));
    let e = choice(2);
    // the database after every seven additions, and in the end
    let n = ps.len();
    let mut dbs = vec![];
    let mut k = n % 7;
    while k <= n {
        let mut m = crate::h_hist::engine(e);
        for (i, p) in ps[..k].iter().enumerate() { m.add_pattern(pattern(i, p)); }
        dbs.push(m);
        k += 7;
    }
    let mut b = crate::h_hist::engine(e);
    for (i, p) in other.iter().enumerate() { b.add_pattern(pattern(i, p)); }
    let x = with_hole(&ms[choice(ms.len())], param(2));
    let mut before = false;
    for m in &dbs {
        let now = m.parse(&x).is_some();
        check(now || !before, 1);
        before = now;
    }
    let r = b.parse(&x);
    observe_result(&r);
    cover(if before { 1 } else { 2 });
    check(r.is_some() == before, 2);
    let mut any = false;
    for p in &ps { any |= matches(p, &x).is_some(); }
    check(before == any, 3);
    if let Some(r) = &r { check(matches(&other[index_of(r)], &x).is_some(), 4); }
}
/// Many elements of two bytes each, any one among them, one removed: every place has the right element, read or changed,
/// and each of them is found there. params: elements
pub fn h_sorted_many() {
    let n = param(0);
    let order = choice(4);
    let any = (byte() as u16) * 4 + 1;
    let when = [0, n / 2, n][choice(3)];
    let mut sv: SortedVec<u16> = SortedVec::new();
    let mut v: Vec<u16> = vec![];
    for i in 0..n + 1 {
        if i == when { sv.push(any); v.push(any); }
        if i == n { break; }
        let k = match order { 0 => i, 1 => n - 1 - i, 2 => (i * 7) % n, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } };
        let x = (4 * k + 3) as u16;
        sv.push(x);
        v.push(x);
    }
    // the arbitrary one has a definite place on every path
    let mut at = 0;
    while at < n && ((4 * at + 3) as u16) < any { at += 1; }
    let mut want: Vec<u16> = (0..n).map(|i| (4 * i + 3) as u16).collect();
    want.insert(at, any);
    let gone = [0, 1, n / 3, n / 2, n - 1, n, 0, 0][choice(7)];
    if choice(2) == 1 { check(sv.remove(gone) == want.remove(gone), 1); cover(2); }
    cover(1);
    observe(at as u64);
    check(sv.len() == want.len() && !sv.is_empty(), 2);
    for i in 0..want.len() {
        check(sv.get(i) == Some(&want[i]), 3);
        check(sv.get_mut(i) == Some(&mut want[i]), 4);
        check(sv.find(&want[i]) == Some(&want[i]), 5);
        check(sv.find_pos(&want[i]) == Some(i), 6);
        check(sv.binary_search_by(|p| p.cmp(&want[i])) == Ok(i), 7);
        let less = want[i] - 1;
        check(sv.find(&less).is_none(), 8);
        check(sv.binary_search_by(|p| p.cmp(&less)) == Err(i), 9);
    }
    check(sv.get(want.len()).is_none() && sv.get_mut(want.len()).is_none(), 10);
}
