//! Databases of several patterns.
use crate::oracle::*;
use crate::sym::*;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::MatcherFactory;
use actiondb::Matcher;

pub type Trie = <TrieMatcherFactory as MatcherFactory>::Matcher;
pub type Table = <SuffixArrayMatcherFactory as MatcherFactory>::Matcher;

/// What a harness asserts: one bit per property, so that each property is decided alone.
const SOUND: usize = 1; // what is reported really matches, with these values
const COMPLETE: usize = 2; // a message some pattern matches is matched
const PRECEDENCE: usize = 4; // and it is the pattern which takes precedence
const AGREE: usize = 8; // the two engines say the same

#[inline(never)]
fn judge(mode: usize, m: &dyn Matcher, ps: &[Toks], msg: &str, base: u32) {
    let r = m.parse(msg);
    observe_result(&r);
    if mode & PRECEDENCE != 0 {
        let want = reference(ps, msg);
        check(r.is_some() == want.is_some(), base + 1);
        if let (Some(r), Some((k, v))) = (&r, &want) { check(index_of(r) == *k, base + 2); check(values_ok(r, msg, v), base + 3); }
        cover(if want.is_some() { 1 } else { 2 });
    }
    if mode & SOUND != 0 {
        match &r {
            None => cover(2),
            Some(r) => {
                cover(1);
                let k = index_of(r);
                check(k < ps.len(), base + 4);
                let w = matches(&ps[k], msg);
                check(w.is_some(), base + 5);
                if let Some(w) = w { check(values_ok(r, msg, &w), base + 6); }
            }
        }
    }
    if mode & COMPLETE != 0 {
        if r.is_none() { cover(2); for p in ps { check(matches(p, msg).is_none(), base + 7); } } else { cover(1) }
    }
}
#[inline(never)]
fn agree(a: &dyn Matcher, b: &dyn Matcher, msg: &str) {
    let (x, y) = (a.parse(msg), b.parse(msg));
    observe_result(&x);
    observe_result(&y);
    check(x.is_some() == y.is_some(), 31);
    if let (Some(x), Some(y)) = (&x, &y) {
        cover(1);
        check(index_of(x) == index_of(y), 32);
        check(x.values().len() == y.values().len(), 33);
        for (k, v) in x.values() { match y.values().get(k) { None => check(false, 34), Some(w) => check(same(v, w), 35) } }
    } else { cover(2) }
}
#[inline(never)]
pub fn check_db(mode: usize, ps: &[Toks], msg: &str) {
    let mut trie = TrieMatcherFactory::new_matcher();
    let mut table = SuffixArrayMatcherFactory::new_matcher();
    for (i, p) in ps.iter().enumerate() {
        trie.add_pattern(pattern(i, p));
        table.add_pattern(pattern(i, p));
    }
    if mode & AGREE != 0 { agree(&trie, &table, msg); return; }
    judge(mode, &trie, ps, msg, 0);
    judge(mode, &table, ps, msg, 10);
}

/// Any literals. params: mode, number of patterns, bytes of a literal, bytes of the message
pub fn h_lits() {
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..param(1) { let n = choice(param(2) + 1); ps.push(vec![Tok::Lit(string(n))]); }
    let msg = string_upto(param(3));
    check_db(param(0), &ps, &msg);
}
/// Empty literals, made with the builder, around parsers and other literals. params: mode, number of patterns, bytes of the message
pub fn h_empty() {
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..param(1) {
        ps.push(match choice(7) {
            0 => vec![lit("")],
            1 => vec![lit(""), int("i")],
            2 => vec![int("i"), lit("")],
            3 => vec![lit("a")],
            4 => vec![lit("a"), int("i"), lit(""), greedy("g")],
            5 => vec![lit(""), set("s", "ab"), lit("b")],
            _ => vec![int("i")],
        });
    }
    let msg = string_upto(param(2));
    check_db(param(0), &ps, &msg);
}
/// Longer literals over a small alphabet. params: mode, patterns, length of a literal, length of the message, letters
pub fn h_letters() {
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..param(1) { let n = 1 + choice(param(2)); ps.push(vec![Tok::Lit(letters(n, param(4) as u8))]); }
    let n = choice(param(3) + 1);
    let msg = letters(n, param(4) as u8);
    check_db(param(0), &ps, &msg);
}
/// The text after a GREEDY is a parameter of that parser, and parsers are told apart by a
/// 64 bit hash of their parameters, which no solver inverts: those texts are concrete.
fn any_tok(prev: Option<&Tok>, k: usize, litlen: usize) -> Tok {
    let prev_lit = matches!(prev, Some(Tok::Lit(_)));
    const N: [&str; 4] = ["x", "y", "z", "w"];
    match choice(if prev_lit { 4 } else { 5 }) {
        0 => Tok::Set(Some(N[k]), "ab".to_string(), None, None),
        1 => Tok::Greedy(Some(N[k])),
        2 => Tok::Set(Some(N[k]), "bc".to_string(), Some(2), Some(2)),
        3 => Tok::Greedy(None),
        _ => {
            if let Some(Tok::Greedy(_)) = prev { return lit(["a", "b", "ab", "ca"][choice(if litlen > 1 { 4 } else { 2 })]); }
            let n = 1 + choice(litlen);
            Tok::Lit(letters(n, 3))
        }
    }
}
/// Any shapes. params: mode, patterns, tokens of a pattern, length of a literal, length of the message
pub fn h_shapes() {
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..param(1) {
        let n = 1 + choice(param(2));
        let mut t: Toks = vec![];
        for k in 0..n { let x = any_tok(t.last(), k, param(3)); t.push(x); }
        ps.push(t);
    }
    let n = choice(param(4) + 1);
    let msg = letters(n, 3);
    check_db(param(0), &ps, &msg);
}
/// The shape most log patterns have, a common literal, a parser, a literal, with any literals:
/// each pattern is L or LP or LPL or PL. params: mode, patterns, literal bytes, message bytes
pub fn h_lpl() {
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..param(1) {
        let shape = choice(4);
        let par = match choice(3) { 0 => set("s", "ab"), 1 => greedy("g"), _ => set("t", "b\u{e9}") };
        let mut t = vec![];
        if shape != 3 { let n = 1 + choice(param(2)); t.push(Tok::Lit(string(n))); }
        if shape != 0 { t.push(par); }
        if shape >= 2 {
            if let Some(Tok::Greedy(_)) = t.last() { t.push(lit(["a", "b", "\u{e9}"][choice(3)])); } else { let n = 1 + choice(param(2)); t.push(Tok::Lit(string(n))); }
        }
        ps.push(t);
    }
    let msg = string_upto(param(3));
    check_db(param(0), &ps, &msg);
}

/// a pool of patterns which share beginnings in every way
pub fn pool() -> Vec<Toks> {
    vec![
        vec![lit("ab")],
        vec![lit("abc")],
        vec![lit("a"), set("s", "bc")],
        vec![lit("ab"), int("i")],
        vec![set("s", "abc"), lit("1")],
        vec![lit("ab"), int("i"), lit("c")],
        vec![greedy("g"), lit("c")],
        vec![lit("acb"), greedy("h")],
        vec![lit("\u{e9}b")],
        vec![lit("\u{ea}b"), int("i")],
        vec![set("s", "abc"), lit("1"), int("j")],
        vec![set("t", "abc"), lit("1"), int("j"), lit("b")],
        vec![lit("a"), Tok::Set(Some("s"), "bc".to_string(), Some(2), Some(2))],
        vec![greedy("g")],
        vec![int("i"), lit("ab"), int("i")],
        vec![lit("ab"), greedy("g"), lit("c"), int("i")],
    ]
}
/// Any sequence of additions from the pool, then any message. params: mode, additions, pool size, message bytes
pub fn h_pool() {
    let all = pool();
    let k = choice(param(1)) + 1;
    let mut ps: Vec<Toks> = vec![];
    for _ in 0..k { ps.push(all[choice(param(2))].clone()); }
    let msg = string_upto(param(3));
    check_db(param(0), &ps, &msg);
}
fn cross(l: usize, t: usize) -> Toks {
    let mut p = vec![lit(["ab", "ac", "a", "abd"][l])];
    match t {
        0 => {}
        1 => p.push(int("i")),
        2 => p.push(set("d", "0123456789")),
        3 => { p.push(int("i")); p.push(lit("c")); }
        _ => p.push(greedy("g")),
    }
    p
}
fn cross_msg(lits: usize) -> String {
    let mut m = String::from(["ab", "ac", "a", "abd"][choice(lits)]);
    m.push_str(&string_upto(1));
    m
}
/// Any additions with the same few beginnings and ends. params: mode, additions, beginnings, ends
pub fn h_cross() {
    let ps: Vec<Toks> = (0..param(1)).map(|_| cross(choice(param(2)), choice(param(3)))).collect();
    check_db(param(0), &ps, &cross_msg(param(2)));
}
/// All of these in many orders. params: mode, orders
pub fn h_cross_all() {
    let (start, step) = (choice(20), [1, 19, 3, 17, 7, 13, 9, 11][choice(param(1))]);
    let ps: Vec<Toks> = (0..20).map(|k| { let i = (start + k * step) % 20; cross(i % 4, i / 4) }).collect();
    let mut m = cross_msg(4);
    if choice(2) == 1 { m.push('c'); }
    check_db(param(0), &ps, &m);
}
/// The whole pool, added from any place on in either direction, and any message. params: mode, message bytes
pub fn h_whole() {
    let mut all = pool();
    let n = all.len();
    all.rotate_left(choice(n));
    if choice(2) == 1 { all.reverse(); }
    let msg = string_upto(param(1));
    check_db(param(0), &all, &msg);
}
/// realistic patterns; the message is a realistic one with a window of arbitrary bytes
fn realistic() -> (Vec<Toks>, Vec<&'static str>) {
    (vec![
        vec![lit("Jun "), int("day"), lit(" "), int("hour"), lit(":"), int("min"), lit(":"), int("sec"), lit(" lobotomy sshd["), int("pid"), lit("]: Received disconnect from "), greedy("ipaddr"), lit(": "), int("dunno"), lit(": disconnected by user")],
        vec![lit("Jun "), int("day"), lit(" "), int("hour"), lit(":"), int("min"), lit(":"), int("sec"), lit(" lobotomy sshd["), int("pid"), lit("]: pam_unix(sshd:session): session closed for user zts")],
        vec![lit("Jun "), int("day"), lit(" "), int("hour"), lit(":"), int("min"), lit(":"), int("sec"), lit(" lobotomy sshd["), int("pid"), lit("]: "), greedy("rest")],
        vec![lit("seq: "), int(".loggen.seq"), lit(", thread: "), int(".loggen.thread"), lit(", stamp: "), greedy(".loggen.stamp"), lit(" "), greedy(".loggen.padding")],
        vec![lit("seq: "), int(".loggen.seq"), lit(", thr: "), Tok::Set(Some("hex"), "0123456789abcdef".to_string(), Some(2), Some(4))],
        vec![lit("from "), greedy("ipaddr"), lit(": "), int("dunno")],
        vec![lit("from "), Tok::Set(Some("ip"), "0123456789.".to_string(), Some(7), Some(15)), lit(" port "), Tok::Int(Some("port"), None, Some(5))],
        vec![lit("app"), int("n"), lit("le")],
        vec![lit("appletree")],
        vec![lit("apple")],
        vec![lit("pam_unix(sshd:session): session opened for user "), Tok::Set(Some("user"), "abcdefghijklmnopqrstuvwxyz".to_string(), None, None), lit(" by (uid="), int("uid"), lit(")")],
    ], vec![
        "Jun 25 14:09:58 lobotomy sshd[26665]: Received disconnect from 1.2.3.4: 11: disconnected by user",
        "Jun 25 14:09:58 lobotomy sshd[26665]: pam_unix(sshd:session): session closed for user zts",
        "seq: 01, thread: 00, stamp: 2015-07-23T14:39:38 PADD",
        "seq: 01, thr: 00ff",
        "from 1.2.3.4: 123",
        "from 10.20.30.40 port 22",
        "app12le",
        "appletree",
        "apple",
        "pam_unix(sshd:session): session opened for user joe by (uid=0)",
    ])
}
/// params: mode, arbitrary bytes, first message, number of messages
pub fn h_logs() {
    let (ps, msgs) = realistic();
    let msg = crate::h_big::with_hole(msgs[param(2) + choice(param(3))], param(1));
    check_db(param(0), &ps, &msg);
}
/// What patterns carry besides their tokens (names and identifiers, perhaps the same ones, values, perhaps of the same
/// keys as their parsers' names, tags, test messages) takes no part in matching. params: mode, patterns, bytes of the message
pub fn h_carry() {
    let shapes: [Toks; 5] = [vec![lit("ab")], vec![lit("a"), set("i", "bc")], vec![lit("a"), int("i")], vec![lit("a"), set("i", "bc"), lit("1")], vec![greedy("i"), lit("b")]];
    let mode = param(0);
    let mut ps: Vec<Toks> = vec![];
    let mut trie = TrieMatcherFactory::new_matcher();
    let mut table = SuffixArrayMatcherFactory::new_matcher();
    for k in 0..param(1) {
        let t = shapes[choice(5)].clone();
        let how = choice(6);
        let mut v = std::collections::BTreeMap::new();
        v.insert("k".to_string(), format!("{}", k));
        if how % 2 == 0 { v.insert("i".to_string(), "own".to_string()); }
        let made = || actiondb::matcher::Pattern::new(
            match how { 0 | 1 => Some("n".to_string()), 2 => Some(String::new()), 3 => Some(format!("n{}", k)), _ => None },
            if how % 3 == 0 { uuid_of(k) } else { uuid_of(7) },
            compile(&t), None, Some(v.clone()), if how == 5 { None } else { Some(vec!["t".to_string(); how]) });
        trie.add_pattern(made());
        table.add_pattern(made());
        ps.push(t);
    }
    let msg = string_of(1 + choice(param(2)), b"abc19");
    let which = |r: &actiondb::matcher::result::MatchResult| r.pattern().values().unwrap()["k"].parse::<usize>().unwrap();
    let of = |m: &dyn Matcher| m.parse(&msg).map(|r| (which(&r), r.pattern().uuid().clone(), r.pattern().name().map(|n| n.to_string()), r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>()));
    if mode & AGREE != 0 { let (a, b) = (of(&trie), of(&table)); cover(if a.is_some() { 1 } else { 2 }); observe(a.as_ref().map_or(99, |a| a.0) as u64); check(a == b, 40); return; }
    for m in [&trie as &dyn Matcher, &table as &dyn Matcher] {
        let r = m.parse(&msg);
        observe(r.as_ref().map_or(99, |r| which(r)) as u64);
        if mode & PRECEDENCE != 0 {
            let want = reference(&ps, &msg);
            check(r.is_some() == want.is_some(), 41);
            if let (Some(r), Some((k, v))) = (&r, &want) { check(which(r) == *k, 42); check(values_ok(r, &msg, v), 43); }
        }
        if mode & SOUND != 0 { if let Some(r) = &r { let w = matches(&ps[which(r)], &msg); check(w.is_some(), 44); if let Some(w) = w { check(values_ok(r, &msg, &w), 45); } } }
        if mode & COMPLETE != 0 && r.is_none() { for p in &ps { check(matches(p, &msg).is_none(), 46); } }
        cover(if r.is_some() { 1 } else { 2 });
    }
}
