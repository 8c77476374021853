//! Histories: clones, orders of insertion, replacement, parsers which differ in little.
use crate::oracle::*;
use crate::sym::*;
use actiondb::grammar::parser;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{MatcherFactory, Pattern};
use actiondb::Matcher;

pub fn engine(k: usize) -> Box<dyn Matcher> {
    if k == 0 { Box::new(TrieMatcherFactory::new_matcher()) } else { Box::new(SuffixArrayMatcherFactory::new_matcher()) }
}
#[inline(never)]
pub fn is_ref(m: &dyn Matcher, ps: &[(usize, Toks)], msg: &str, base: u32) {
    let r = m.parse(msg);
    observe_result(&r);
    let toks: Vec<Toks> = ps.iter().map(|p| p.1.clone()).collect();
    let want = reference(&toks, msg);
    cover(if want.is_some() { 1 } else { 2 });
    check(r.is_some() == want.is_some(), base + 1);
    if let (Some(r), Some((k, v))) = (&r, &want) { check(index_of(r) == ps[*k].0, base + 2); check(values_ok(r, msg, v), base + 3); }
}
fn small_pool() -> Vec<Toks> {
    vec![
        vec![lit("ab")],
        vec![lit("a"), set("s", "bc")],
        vec![set("s", "ab"), lit("c")],
        vec![lit("ac"), greedy("g")],
        vec![set("s", "ab"), lit("c"), int("i")],
        vec![greedy("g"), lit("b")],
        vec![lit("abc")],
    ]
}
/// Additions to a database and to its clone do not show in the other one; a clone answers like its original.
/// params: additions before, additions after, pool, message bytes
pub fn h_clone() {
    let all = small_pool();
    let mut a = engine(choice(2));
    let mut pa: Vec<(usize, Toks)> = vec![];
    for _ in 0..choice(param(0) + 1) { let k = choice(param(2)); a.add_pattern(pattern(k, &all[k])); pa.push((k, all[k].clone())); }
    let mut b = a.boxed_clone();
    let mut pb = pa.clone();
    for _ in 0..choice(param(1) + 1) {
        let k = choice(param(2));
        // the identifiers tell the two sides apart
        if choice(2) == 0 { a.add_pattern(pattern(100 + k, &all[k])); pa.push((100 + k, all[k].clone())); } else { b.add_pattern(pattern(200 + k, &all[k])); pb.push((200 + k, all[k].clone())); }
    }
    let msg = string_upto(param(3));
    is_ref(&*a, &pa, &msg, 0);
    is_ref(&*b, &pb, &msg, 10);
    // the original may go away
    drop(a);
    is_ref(&*b, &pb, &msg, 20);
}
/// Asking does not change anything, and what was matched stays matched when patterns are added.
/// params: additions, pool, message bytes
pub fn h_monotone() {
    let all = small_pool();
    let mut m = engine(choice(2));
    let msg = string_upto(param(2));
    let mut ps: Vec<(usize, Toks)> = vec![];
    let mut before = false;
    for i in 0..param(0) {
        let k = choice(param(1));
        m.add_pattern(pattern(i, &all[k]));
        ps.push((i, all[k].clone()));
        is_ref(&*m, &ps, &msg, 0);
        let now = m.parse(&msg).is_some();
        check(now || !before, 4);
        before = now;
        is_ref(&*m, &ps, &msg, 10);
    }
}
/// Whether a message is matched does not depend on the order in which the patterns were added.
/// params: patterns, literal bytes, message bytes
pub fn h_order_lits() {
    let n = param(0);
    let mut ps: Vec<Toks> = vec![];
    for i in 0..n {
        let k = 1 + choice(param(1));
        let mut t = vec![Tok::Lit(string(k))];
        if i == 0 && choice(2) == 1 { t.push(set("s", "b\u{e9}")); }
        ps.push(t);
    }
    let msg = string_upto(param(2));
    order(&ps, &msg);
}
/// params: patterns, pool, message bytes
pub fn h_order_pool() {
    let all = crate::h_db::pool();
    let ps: Vec<Toks> = (0..param(0)).map(|_| all[choice(param(1))].clone()).collect();
    let msg = string_upto(param(2));
    order(&ps, &msg);
}
#[inline(never)]
fn order(ps: &[Toks], msg: &str) {
    let n = ps.len();
    // a permutation, one choice per place
    let mut left: Vec<usize> = (0..n).collect();
    let mut perm = vec![];
    while !left.is_empty() { let k = choice(left.len()); perm.push(left.remove(k)); }
    for e in 0..2 {
        let (mut a, mut b) = (engine(e), engine(e));
        for i in 0..n { a.add_pattern(pattern(i, &ps[i])); }
        for &i in &perm { b.add_pattern(pattern(i, &ps[i])); }
        let (x, y) = (a.parse(msg), b.parse(msg));
        observe_result(&x);
        observe_result(&y);
        check(x.is_some() == y.is_some(), 1 + e as u32);
        cover(if x.is_some() { 1 } else { 2 });
        // each answer is a pattern which matches, wherever it was added
        for r in [&x, &y] { if let Some(r) = r { check(matches(&ps[index_of(r)], msg).is_some(), 3 + e as u32); } }
    }
}

pub fn near_parsers() -> Vec<Tok> {
    let s = |n, c: &str, a, b| Tok::Set(n, c.to_string(), a, b);
    vec![
        s(Some("n"), "ab", None, None),
        s(Some("m"), "ab", None, None),
        s(None, "ab", None, None),
        s(Some("n"), "abc", None, None),
        s(Some("n"), "ab", Some(2), None),
        s(Some("n"), "ab", None, Some(2)),
        s(Some("n"), "ab", Some(1), None),
        s(Some("n"), "ab", None, Some(1)),
        s(Some("n"), "ba", None, None),
        s(Some("n"), "0123456789", None, None),
        Tok::Int(Some("n"), None, None),
        Tok::Int(None, None, None),
        Tok::Int(Some("n"), Some(2), None),
        Tok::Int(Some("n"), None, Some(1)),
        Tok::Greedy(Some("n")),
        Tok::Greedy(Some("m")),
        Tok::Greedy(None),
        s(Some("n"), "ab", Some(2), Some(3)),
        s(Some("n"), "ab", Some(3), Some(2)),
        s(Some("n"), "ab", None, Some(0)),
        s(Some("n"), "ab", Some(0), None),
        s(Some("na"), "b", None, None),
        s(Some("N"), "ab", None, None),
        s(Some("n"), "aB", None, None),
        Tok::Int(Some("n"), Some(2), Some(3)),
        Tok::Int(Some("n"), Some(3), Some(2)),
        Tok::Int(Some("n"), None, Some(0)),
        Tok::Int(Some("n"), Some(0), None),
        Tok::Int(Some("m"), None, None),
    ]
}
/// parsers whose parameters are equal in some of their bits only
fn wide_parsers() -> Vec<Tok> {
    let s = |n, c: &str, a, b| Tok::Set(n, c.to_string(), a, b);
    vec![
        s(Some("n"), "a", None, None),
        s(Some("n"), "\u{161}", None, None),
        s(Some("n"), "\u{10061}", None, None),
        s(Some("n"), "a\u{161}", None, None),
        s(Some("n"), "\u{161}\u{10061}", None, None),
        s(Some("n"), "\u{c5}\u{a1}", None, None),
        s(Some("n"), "a", None, Some(256)),
        s(Some("n"), "a", None, Some(1)),
        s(Some("n"), "a", None, Some(257)),
        s(Some("n"), "a", None, Some((1 << 32) + 1)),
        s(Some("n"), "a", Some(1 << 32), None),
        s(Some("n"), "a", Some(256), None),
        s(Some("n"), "1", None, None),
        Tok::Int(Some("n"), None, Some(1)),
        Tok::Int(Some("n"), None, Some(257)),
        Tok::Int(Some("n"), None, Some((1 << 32) + 1)),
        Tok::Int(Some("n"), Some(1 << 32), None),
        Tok::Int(Some("n"), Some(256), None),
        Tok::Greedy(Some("n")),
        Tok::Greedy(Some("a_name_of_more_than_sixteen_characters_1")),
        Tok::Greedy(Some("a_name_of_more_than_sixteen_characters_2")),
    ]
}
/// Two patterns which begin with parsers that are equal in most bits of their parameters. params: none
pub fn h_near_wide() {
    let all = wide_parsers();
    let of = &all[[0..7, 6..12, 12..18, 18..21][choice(4)].clone()];
    let (a, b) = (of[choice(of.len())].clone(), of[choice(of.len())].clone());
    let mut p = vec![vec![a], vec![b]];
    let ends = [[None, None], [Some("c"), Some("d")], [Some("; a long end text, 1"), Some("; a long end text, 2")], [Some("\u{e9}"), Some("\u{ea}")]][choice(4)];
    for i in 0..2 { if let Some(e) = ends[i] { p[i].push(lit(e)); } }
    // any character, or two which are in the sets
    let mut msg = match choice(3) { 0 => string_upto(2), 1 => { let s = string(4); assume(s.as_bytes()[0] >= 0xf0); s } _ => String::from(["aa", "19", "\u{161}\u{161}"][choice(3)]) };
    if let Some(e) = ends[choice(2)] { msg.push_str(e); }
    let ps: Vec<(usize, Toks)> = p.into_iter().enumerate().collect();
    for e in 0..2 {
        let mut m = engine(e);
        for (i, t) in &ps { m.add_pattern(pattern(*i, t)); }
        is_ref(&*m, &ps, &msg, 10 * e as u32);
    }
}
/// Two patterns which begin with parsers that are equal or differ in little. params: message bytes, first parser, how many
pub fn h_near() {
    let all = near_parsers();
    let (a, b) = (all[param(1) + choice(param(2))].clone(), all[choice(all.len())].clone());
    let mut p = vec![vec![a], vec![b]];
    // what follows: nothing, or a different literal each, or the same one
    match choice(5) {
        0 => {}
        1 => { p[0].push(lit("c")); p[1].push(lit("b")); }
        4 => { p[0].push(lit("cc")); p[1].push(lit("c")); }
        2 => { p[0].push(lit("c")); }
        _ => { p[0].push(lit("1")); p[1].push(lit("1")); }
    }
    let pre = choice(2) == 1;
    if pre { p[0].insert(0, lit("a")); p[1].insert(0, lit("a")); }
    let n = choice(param(0) + 1);
    let msg = string_of(n, b"abc19");
    let ps: Vec<(usize, Toks)> = p.into_iter().enumerate().collect();
    for e in 0..2 {
        let mut m = engine(e);
        for (i, t) in &ps { m.add_pattern(pattern(*i, t)); }
        is_ref(&*m, &ps, &msg, 10 * e as u32);
    }
}
/// From the text of the patterns to the values. params: message bytes, first, how many
pub fn h_text() {
    let pats: [(&str, Toks); 14] = [
        ("a%{INT:n}b", vec![lit("a"), int("n"), lit("b")]),
        ("%{GREEDY:g}b%{INT:n}", vec![greedy("g"), lit("b"), int("n")]),
        ("%{SET(\"ab\"):s}1", vec![set("s", "ab"), lit("1")]),
        ("%{SET(\"ab\",min_len=2):s}", vec![Tok::Set(Some("s"), "ab".into(), Some(2), None)]),
        ("%{SET(\"ab1\", min_len=2, max_len=3):s}", vec![Tok::Set(Some("s"), "ab1".into(), Some(2), Some(3))]),
        ("%{INT(max_len=2):n}%{GREEDY}", vec![Tok::Int(Some("n"), None, Some(2)), Tok::Greedy(None)]),
        ("\\%\\{%{INT}", vec![lit("%{"), Tok::Int(None, None, None)]),
        ("%{GREEDY:g}\\%\\{", vec![greedy("g"), lit("%{")]),
        ("%{GREEDY:g}\\%\\{%{GREEDY:h}", vec![greedy("g"), lit("%{"), greedy("h")]),
        ("%{INT:a.b_c}%{SET(\"a\"):.x}", vec![int("a.b_c"), set(".x", "a")]),
        ("%{INT:n}a%{INT:n}", vec![int("n"), lit("a"), int("n")]),
        ("%{SET(\"\u{e9}a\"):s}\u{ea}", vec![set("s", "\u{e9}a"), lit("\u{ea}")]),
        ("%{GREEDY}a%{GREEDY:g}", vec![Tok::Greedy(None), lit("a"), greedy("g")]),
        ("\u{e9}%{GREEDY:g}", vec![lit("\u{e9}"), greedy("g")]),
    ];
    let k = param(1) + choice(param(2));
    let (text, toks) = &pats[k];
    let msg = string_upto(param(0));
    let c = parser::pattern(text);
    check(c.is_ok(), 1);
    let c = match c { Ok(c) => c, Err(_) => return };
    let ps = vec![(7, toks.clone())];
    for e in 0..2 {
        let mut m = engine(e);
        let mut p = Pattern::with_uuid(uuid_of(7));
        p.set_pattern(c.clone());
        m.add_pattern(p);
        is_ref(&*m, &ps, &msg, 10 + 10 * e as u32);
    }
}
/// The answer to a question does not depend on the questions before it. params: additions, pool, bytes of each message
pub fn h_repeat() {
    let all = small_pool();
    let mut m = engine(choice(2));
    let mut ps: Vec<(usize, Toks)> = vec![];
    for i in 0..1 + choice(param(0)) { let k = choice(param(1)); m.add_pattern(pattern(i, &all[k])); ps.push((i, all[k].clone())); }
    let (x, y) = (string_upto(param(2)), string_upto(param(2)));
    is_ref(&*m, &ps, &x, 0);
    is_ref(&*m, &ps, &y, 10);
    is_ref(&*m, &ps, &x, 20);
}
