//! Building a matcher from a source of patterns: the test messages guard the database.
use crate::oracle::*;
use crate::sym::*;
use actiondb::matcher::pattern::testmessage::{Error, TestMessage};
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, MatcherFactory, Pattern};
use actiondb::Matcher;
use std::collections::BTreeMap;

type Item = Result<Pattern, BuildError>;
fn build(e: usize, items: Vec<Item>) -> Result<Box<dyn Matcher>, BuildError> {
    type A = <TrieMatcherFactory as MatcherFactory>::Matcher;
    type B = <SuffixArrayMatcherFactory as MatcherFactory>::Matcher;
    if e == 0 {
        A::from_source::<TrieMatcherFactory>(&mut items.into_iter()).map(|m| Box::new(m) as Box<dyn Matcher>)
    } else {
        B::from_source::<SuffixArrayMatcherFactory>(&mut items.into_iter()).map(|m| Box::new(m) as Box<dyn Matcher>)
    }
}
fn build_anyway(e: usize, items: Vec<Item>) -> Box<dyn Matcher> {
    type A = <TrieMatcherFactory as MatcherFactory>::Matcher;
    type B = <SuffixArrayMatcherFactory as MatcherFactory>::Matcher;
    if e == 0 { Box::new(A::from_source_ignore_errors::<TrieMatcherFactory>(&mut items.into_iter())) } else { Box::new(B::from_source_ignore_errors::<SuffixArrayMatcherFactory>(&mut items.into_iter())) }
}
/// the kinds of error, as bits
const NOMATCH: u32 = 1;
const OTHER: u32 = 2;
const TAGS: u32 = 4;
const NOKEY: u32 = 8;
const VALUE: u32 = 16;
fn kind(e: &Error) -> u32 {
    match e {
        Error::TestMessageDoesntMatch { .. } => NOMATCH,
        Error::MatchedToOtherPattern { .. } => OTHER,
        Error::UnexpectedTags { .. } => TAGS,
        Error::KeyNotFound { .. } => NOKEY,
        Error::ValueNotMatch { .. } => VALUE,
    }
}
fn uuid_in(e: &Error) -> &str {
    match e {
        Error::TestMessageDoesntMatch { pattern_uuid, .. } => pattern_uuid,
        Error::MatchedToOtherPattern { expected_uuid, .. } => expected_uuid,
        Error::UnexpectedTags { pattern_uuid, .. } => pattern_uuid,
        Error::KeyNotFound { pattern_uuid, .. } => pattern_uuid,
        Error::ValueNotMatch { pattern_uuid, .. } => pattern_uuid,
    }
}
fn one(b: u8) -> String { String::from_utf8(vec![b]).unwrap() }
fn ascii() -> u8 { let b = byte(); assume(b < 0x80); b }

/// One pattern  a%{SET("ab"):s}  with additional values and tags, and one test message with expectations of any kind.
/// params: bytes of the test message, largest number of expected values, tags
pub fn h_validate() {
    let toks: Toks = vec![lit("a"), set("s", "ab")];
    // what the pattern brings along: values for "s" (which the parsed one overrides) and "k"
    let mut pv: Option<BTreeMap<String, String>> = None;
    let (v1, v2) = (ascii(), ascii());
    if choice(2) == 1 {
        let mut m = BTreeMap::new();
        m.insert("k".to_string(), one(v1));
        m.insert("s".to_string(), one(v2));
        pv = Some(m);
    }
    let mut tags: Option<Vec<String>> = None;
    let nt = choice(4);
    let tb = bytes(2);
    for &b in &tb { assume(b < 0x80); }
    if nt > 0 { tags = Some(tb[..nt - 1].iter().map(|&b| one(b)).collect()); }
    // the test message
    let msg = string_upto(param(0));
    let mut want_values: Vec<(String, String)> = vec![];
    for _ in 0..choice(param(1) + 1) {
        let k = ascii();
        let n = choice(3);
        let v = letters(n, 3);
        want_values.push((one(k), v));
    }
    let mut ev = BTreeMap::new();
    for (k, v) in &want_values { ev.insert(k.clone(), v.clone()); }
    assume(ev.len() == want_values.len());
    let net = choice(param(2) + 2);
    let eb = bytes(if net == 0 { 0 } else { net - 1 });
    for &b in &eb { assume(b < 0x80); }
    // whether an empty list of tags may be expected of a pattern without tags is left open
    assume(net != 1 || nt != 0);
    let etags = if net == 0 { None } else { Some(eb.iter().map(|&b| one(b)).collect::<Vec<String>>()) };
    // the verdict of the reference
    let mut bad = 0;
    match matches(&toks, &msg) {
        None => bad |= NOMATCH,
        Some(vals) => {
            if let Some(_) = &etags {
                if nt == 0 { bad |= TAGS; }
                for &e in &eb { let mut any = false; for &t in &tb[..if nt == 0 { 0 } else { nt - 1 }] { any |= t == e; } if !any { bad |= TAGS; } }
            }
            if bad == 0 {
                for (k, v) in &want_values {
                    let k = k.as_bytes()[0];
                    if k == b's' {
                        let (_, a, b) = vals[0];
                        if !same(v, &msg[a..b]) { bad |= VALUE; }
                    } else if k == b'k' && pv.is_some() {
                        if !same_bytes(v.as_bytes(), &[v1]) { bad |= VALUE; }
                    } else { bad |= NOKEY; }
                }
            }
        }
    }
    let tm = TestMessage::new(msg.clone(), ev, etags);
    check(tm.message() == msg, 9);
    let e = choice(2);
    let p = Pattern::new(None, uuid_of(1), compile(&toks), Some(vec![tm]), pv, tags);
    let r = build(e, vec![Ok(p)]);
    match &r {
        Ok(m) => {
            observe(1);
            cover(1);
            check(bad == 0, 1);
            // and the pattern is there
            check(m.parse("ab").is_some(), 2);
        }
        Err(BuildError::TestMessage(err)) => {
            observe(100 + kind(err) as u64);
            cover(2);
            if bad & NOMATCH != 0 { cover(3) } else if bad & TAGS != 0 { cover(4) } else if bad & VALUE != 0 { cover(5) } else { cover(6) }
            check(bad != 0, 3);
            check(kind(err) & bad != 0, 4);
            check(uuid_in(err) == uuid_of(1).hyphenated().to_string(), 5);
        }
        Err(_) => check(false, 6),
    }
}

fn pool() -> Vec<Toks> {
    vec![
        vec![lit("ab")],
        vec![lit("a"), set("s", "bc")],
        vec![set("s", "ab"), lit("c")],
        vec![greedy("g"), lit("b")],
        vec![lit("a"), greedy("g")],
        vec![lit("ab"), greedy("g")],
    ]
}
/// Several patterns, each with a test message of its own, and sources which fail. The messages are tried
/// when their pattern arrives, against all patterns which are there by then.
/// params: patterns, pool, message bytes, strict (1) or ignoring errors (0)
pub fn h_source() {
    let all = pool();
    let n = 1 + choice(param(0));
    let strict = param(3) == 1;
    let e = choice(2);
    let mut items: Vec<Item> = vec![];
    let mut toks: Vec<Toks> = vec![];
    let mut ids: Vec<usize> = vec![];
    let mut first_bad: Option<u32> = None; // 32: the source's own error
    let mut bad_id = 0;
    for i in 0..n {
        let k = choice(param(1) + 1);
        if k == param(1) {
            items.push(Err(BuildError::NotUtf8FileName));
            if first_bad.is_none() { first_bad = Some(32); }
            continue;
        }
        let t = all[k].clone();
        let has = choice(2) == 1;
        let mut msgs = None;
        toks.push(t.clone());
        ids.push(i);
        if has {
            let m = letters(2, 3);
            let m = if choice(2) == 1 { let mut m = m; m.push_str("c"); m } else { m };
            if first_bad.is_none() {
                match reference(&toks, &m) {
                    None => { first_bad = Some(NOMATCH); bad_id = i; }
                    Some((w, _)) => if ids[w] != i { first_bad = Some(OTHER); bad_id = i; },
                }
            }
            msgs = Some(vec![TestMessage::new(m, BTreeMap::new(), None)]);
        }
        items.push(Ok(Pattern::new(Some("nm".to_string()), uuid_of(i), compile(&t), msgs, None, None)));
    }
    let m = if strict {
        match (build(e, items), first_bad) {
            (Ok(m), None) => { cover(1); observe(1); m }
            (Err(BuildError::NotUtf8FileName), Some(32)) => { cover(3); observe(2); return }
            (Err(BuildError::TestMessage(err)), Some(k)) => {
                cover(2);
                observe(100 + kind(&err) as u64);
                check(kind(&err) == k, 1);
                check(uuid_in(&err) == uuid_of(bad_id).hyphenated().to_string(), 2);
                return;
            }
            (Ok(_), Some(_)) => { check(false, 3); return }
            (Err(_), None) => { check(false, 4); return }
            _ => { check(false, 5); return }
        }
    } else { if first_bad.is_some() { cover(3) } build_anyway(e, items) };
    // every pattern which came through is in the database
    let msg = string_upto(param(2));
    let r = m.parse(&msg);
    observe_result(&r);
    let want = reference(&toks, &msg);
    cover(if want.is_some() { 1 } else { 2 });
    check(r.is_some() == want.is_some(), 6);
    if let (Some(r), Some((k, v))) = (&r, &want) { check(index_of(r) == ids[*k], 7); check(values_ok(r, &msg, v), 8); check(r.pattern().name() == Some("nm"), 9); }
}
/// Several test messages for one pattern: all of them count. params: messages
pub fn h_messages() {
    let toks: Toks = vec![lit("a"), set("s", "ab")];
    let n = 1 + choice(param(0));
    let mut bad = 0;
    let mut tms = vec![];
    for _ in 0..n {
        let m = letters(2, 3);
        let v = letters(1, 3);
        let mut ev = BTreeMap::new();
        let with = choice(2) == 1;
        if with { ev.insert("s".to_string(), v.clone()); }
        match matches(&toks, &m) { None => bad |= NOMATCH, Some(_) => if with && !same(&v, &m[1..]) { bad |= VALUE } }
        tms.push(TestMessage::new(m, ev, None));
    }
    let p = Pattern::new(None, uuid_of(1), compile(&toks), Some(tms), None, None);
    match build(choice(2), vec![Ok(p)]) {
        Ok(_) => { observe(1); cover(1); check(bad == 0, 1) }
        Err(BuildError::TestMessage(err)) => { observe(100 + kind(&err) as u64); cover(2); check(kind(&err) & bad != 0, 2) }
        Err(_) => check(false, 3),
    }
}

/// what is written in the error
fn says(e: &Error, key: &str, expected: &str, got: &str, msg: &str) -> bool {
    match e {
        Error::TestMessageDoesntMatch { message, .. } => same(message, msg),
        Error::KeyNotFound { key: k, .. } => same(k, key),
        Error::ValueNotMatch { key: k, expected_value, got_value, .. } => same(k, key) && same(expected_value, expected) && same(got_value, got),
        _ => true,
    }
}
const KEYS: [&str; 4] = ["user", "n", ".rest", "w"];
/// A pattern with many values and tags and many test messages, all of which are right but for one text in one of them,
/// which is arbitrary. params: test messages, bytes of the arbitrary text
pub fn h_validate_big() {
    let n = param(0);
    let toks: Toks = vec![lit("login "), set("user", "abcdefgh"), lit(" #"), int("n"), lit(": "), greedy(".rest")];
    let mut pv = BTreeMap::new();
    for i in 0..9 { pv.insert(format!("own{}", i), format!("value {}", i)); }
    pv.insert("user".to_string(), "overridden".to_string());
    pv.insert(".rest".to_string(), "overridden, even by an empty text".to_string());
    let tags: Vec<String> = (0..9).map(|i| format!("tag{}", i)).collect();
    // which one is arbitrary, and what in it
    let (which, what) = (choice(n), choice(5));
    let t = string(param(1));
    let mut tms = vec![];
    let mut bad = 0;
    let (mut key, mut exp, mut got) = (String::new(), String::new(), String::new());
    for i in 0..n {
        let user = ["abc", "d", "hgfedcba"][i % 3];
        let num = format!("{}", 7 * i);
        let rest = ["", "x", "\u{e9}: \u{65e5}", " "][i % 4];
        let mut msg = format!("login {} #{}: {}", user, num, rest);
        let mut ev = BTreeMap::new();
        if i % 2 == 0 { ev.insert("user".to_string(), user.to_string()); ev.insert(".rest".to_string(), rest.to_string()); }
        if i % 3 == 0 { ev.insert("n".to_string(), num.clone()); }
        for k in 0..i % 5 { ev.insert(format!("own{}", k * 2), format!("value {}", k * 2)); }
        let mut et: Option<Vec<String>> = if i % 4 == 3 { None } else { Some((0..i % 4 * 3).map(|k| format!("tag{}", (k * 2) % 9)).collect()) };
        if i == which {
            match what {
                0 => {
                    // an expected value
                    let k = KEYS[choice(4)];
                    if k == "w" { bad = NOKEY; } else {
                        let v = match k { "user" => user, "n" => &num[..], _ => rest };
                        if !same(v, &t) { bad = VALUE; }
                        got = v.to_string();
                    }
                    key = k.to_string();
                    exp = t.clone();
                    ev.insert(key.clone(), t.clone());
                }
                1 => { let mut v = et.unwrap_or_default(); let at = choice(v.len() + 1); v.insert(at, t.clone()); et = Some(v); let mut any = false; for x in &tags { any |= same(x, &t); } if !any { bad = TAGS; } }
                2 => { ev = BTreeMap::new(); et = None; let at = choice(6); msg.insert_str(at, &t); bad = NOMATCH; }
                3 => { ev.remove(".rest"); msg.push_str(&t); }
                _ => {
                    // the key of an expected value
                    let mut any = None;
                    for (k, v) in &pv { if !same(k, "user") && !same(k, ".rest") && same(k, &t) { any = Some(v.clone()); } }
                    if same("n", &t) { any = Some(num.clone()); }
                    if same("user", &t) { any = Some(user.to_string()); }
                    if same(".rest", &t) { any = Some(rest.to_string()); }
                    match &any { None => bad = NOKEY, Some(v) => if !same(v, "value 0") { bad = VALUE; got = v.clone(); } }
                    key = t.clone();
                    exp = "value 0".to_string();
                    ev.insert(t.clone(), "value 0".to_string());
                }
            }
        }
        tms.push(TestMessage::new(msg, ev, et));
    }
    if what == 2 {
        // only the text which leaves the beginning as it is would do, and there is none
        let msg = tms[which].message().to_string();
        assume(matches(&toks, &msg).is_none());
    }
    let msg = tms[which].message().to_string();
    let p = Pattern::new(Some("nm".to_string()), uuid_of(3), compile(&toks), Some(tms), Some(pv), Some(tags));
    match build(choice(2), vec![Ok(p)]) {
        Ok(_) => { observe(1); cover(1); check(bad == 0, 1) }
        Err(BuildError::TestMessage(err)) => {
            observe(100 + kind(&err) as u64);
            cover(2);
            check(kind(&err) == bad, 2);
            check(uuid_in(&err) == uuid_of(3).hyphenated().to_string(), 3);
            check(says(&err, &key, &exp, &got, &msg), 4);
        }
        Err(_) => check(false, 5),
    }
}
/// A long source in which two items are failures, wherever they are. params: items, strict (1) or not (0)
pub fn h_source_big() {
    let n = param(0);
    let (f1, f2) = (choice(n), choice(n));
    let kind1 = choice(2);
    let e = choice(2);
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        let l: String = format!("{}{}", (b'a' + (i % 3) as u8) as char, i);
        let toks: Toks = match i % 3 { 0 => vec![lit(&l)], 1 => vec![lit(&l), int("n")], _ => vec![lit(&l), lit("-"), greedy("g")] };
        if i == f1 && kind1 == 0 { items.push(Err(BuildError::NotUtf8FileName)); continue; }
        let mut tm = vec![TestMessage::new(match i % 3 { 0 => l.clone(), 1 => format!("{}:", l), _ => format!("{}-x", l) }, BTreeMap::new(), None)];
        if i % 3 == 1 { tm.clear(); }
        if i == f1 || i == f2 { tm.push(TestMessage::new("something else".to_string(), BTreeMap::new(), None)); }
        let mut pv = BTreeMap::new();
        pv.insert("i".to_string(), l.clone());
        items.push(Ok(Pattern::new(Some(l), uuid_of(i), compile(&toks), Some(tm), Some(pv), None)));
    }
    let first = if f1 < f2 { f1 } else { f2 };
    if param(1) == 1 {
        match build(e, items) {
            Ok(_) => check(false, 1),
            Err(BuildError::NotUtf8FileName) => { cover(1); check(first == f1 && kind1 == 0, 2) }
            Err(BuildError::TestMessage(err)) => { cover(2); check(!(first == f1 && kind1 == 0), 3); check(kind(&err) == NOMATCH, 4); check(uuid_in(&err) == uuid_of(first).hyphenated().to_string(), 5) }
            Err(_) => check(false, 6),
        }
        return;
    }
    let m = build_anyway(e, items);
    // any of them, with any byte after it
    let q = choice(n);
    let mut msg = format!("{}{}", (b'a' + (q % 3) as u8) as char, q);
    if q % 3 == 2 { msg.push('-'); }
    if q % 3 != 0 { let b = ascii(); unsafe { msg.as_mut_vec() }.push(b); }
    let r = m.parse(&msg);
    observe_result(&r);
    let there = !(q == f1 && kind1 == 0);
    match &r {
        None => { cover(1); if q % 3 == 1 { let c = msg.as_bytes()[msg.len() - 1]; check(!there || !((c >= b'0') & (c <= b'9')), 7) } else { check(!there, 7) } }
        Some(r) => {
            cover(2);
            check(there, 8);
            check(index_of(r) == q, 9);
            check(r.pattern().name() == Some(&format!("{}{}", (b'a' + (q % 3) as u8) as char, q)[..]), 10);
            check(r.pattern().values().map_or(0, |v| v.len()) == 1, 11);
        }
    }
}
/// A very long source in which a whole run of items fails, each by itself or by its test message: what the source
/// could not give is left out, and all that follows is there.
/// params: items, strict (1) or not (0)
pub fn h_source_long() {
    let n = param(0);
    let from = [0, 1, n / 2][choice(3)];
    let to = [from, from + 1, n / 2, n - 1, n][choice(5)];
    let how = choice(3);
    let e = choice(2);
    let fails = |i: usize| i >= from && i < to;
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        let l: String = format!("{}{:04}", (b'a' + (i % 3) as u8) as char, i);
        let toks: Toks = match i % 3 { 0 => vec![lit(&l)], 1 => vec![lit(&l), int("n")], _ => vec![lit(&l), lit("-"), greedy("g")] };
        if fails(i) && (how == 0 || how == 2 && i % 2 == 0) { items.push(Err(BuildError::NotUtf8FileName)); continue; }
        let mut tm = vec![];
        if fails(i) { tm.push(TestMessage::new("something else".to_string(), BTreeMap::new(), None)); }
        items.push(Ok(Pattern::new(Some(l), uuid_of(i), compile(&toks), Some(tm), None, None)));
    }
    if param(1) == 1 {
        match build(e, items) {
            Ok(m) => { cover(1); check(from >= to, 1); check(m.parse("a0000").is_some(), 2) }
            Err(BuildError::NotUtf8FileName) => check(from < to && (how == 0 || how == 2 && from % 2 == 0), 3),
            Err(BuildError::TestMessage(err)) => { cover(2); check(from < to, 4); check(uuid_in(&err) == uuid_of(from).hyphenated().to_string(), 5) }
            Err(_) => check(false, 6),
        }
        observe(1);
        return;
    }
    let m = build_anyway(e, items);
    let q = [0, 1, n / 2 - 1, n / 2, n - 2, n - 1][choice(6)];
    let mut msg = format!("{}{:04}", (b'a' + (q % 3) as u8) as char, q);
    if q % 3 == 2 { msg.push('-'); }
    if q % 3 != 0 { let b = ascii(); unsafe { msg.as_mut_vec() }.push(b); }
    let r = m.parse(&msg);
    observe_result(&r);
    let c = msg.as_bytes()[msg.len() - 1];
    let there = !(fails(q) && (how == 0 || how == 2 && q % 2 == 0)) && (q % 3 != 1 || (c >= b'0') & (c <= b'9'));
    match &r {
        None => { cover(1); check(!there, 7) }
        Some(r) => { cover(2); check(there, 8); check(index_of(r) == q, 9) }
    }
}
