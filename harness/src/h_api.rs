//! Patterns, parsers and test messages as values: building, cloning, changing and taking apart.
use crate::oracle::*;
use crate::sym::*;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::Pattern;
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, Parser, SetParser};
use std::collections::BTreeMap;

/// what a token is meant to be
enum Want { Lit(String), Par(u8, String, String) }
fn probe(p: &dyn Parser, text: &str) -> Option<usize> { p.parse(text).map(|r| r.value().len()) }
/// whether a parser is the one wanted: its name, and what it does with a text
fn parser_is(p: &dyn Parser, kind: u8, name: &str, arg: &str, text: &str) -> bool {
    let n = match p.name() { Some(n) => same(n, name), None => false };
    n & (probe(p, text) == match kind {
        0 => set_match(arg, None, None, text),
        1 => set_match("0123456789", None, None, text),
        _ => greedy_match(Some(arg), text),
    })
}
fn token_is(t: &TokenType, w: &Want, text: &str) -> bool {
    match (t, w) {
        (TokenType::Literal(l), Want::Lit(m)) => same(l, m),
        (TokenType::Parser(p), Want::Par(k, n, a)) => parser_is(&**p, *k, n, a, text),
        _ => false,
    }
}
fn all_are(c: &CompiledPattern, w: &[Want], text: &str) -> bool {
    if c.len() != w.len() { return false; }
    for i in 0..w.len() { if !token_is(&c[i], &w[i], text) { return false; } }
    true
}
fn same_map(a: Option<&BTreeMap<String, String>>, b: Option<&BTreeMap<String, String>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            if a.len() != b.len() { return false; }
            let mut ok = true;
            for ((k, v), (l, w)) in a.iter().zip(b.iter()) { ok &= same(k, l) & same(v, w); }
            ok
        }
        _ => false,
    }
}
fn same_list(a: Option<&[String]>, b: Option<&[String]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            if a.len() != b.len() { return false; }
            let mut ok = true;
            for i in 0..a.len() { ok &= same(&a[i], &b[i]); }
            ok
        }
        _ => false,
    }
}
/// A pattern built token by token, with everything which a pattern can carry; two copies of it, one taken apart.
/// params: tokens at most, bytes of each text at most, bytes of the text tried on its parsers
pub fn h_pattern_api() {
    let text = string(param(2));
    let mut b = CompiledPatternBuilder::new();
    let mut want: Vec<Want> = vec![];
    for _ in 0..choice(param(0) + 1) {
        match choice(4) {
            0 => { let s = string_upto(param(1)); b.literal(s.clone()); want.push(Want::Lit(s)); }
            k => {
                let n = string(param(1));
                // the end of a GREEDY is arbitrary
                let a = if k == 1 { "ab".to_string() } else if k == 2 { String::new() } else { string(1) };
                let p: Box<dyn Parser> = match k {
                    1 => Box::new(SetParser::with_name(n.clone(), &a)),
                    2 => Box::new(IntParser::with_name(n.clone())),
                    _ => Box::new(GreedyParser::from_str(&n, &a)),
                };
                b.parser(p);
                want.push(Want::Par(k as u8 - 1, n, a));
            }
        }
    }
    let first = b.build();
    check(all_are(&first, &want, &text), 1);
    // building again gives the same, whatever became of the first one
    let mut gone = first.clone();
    gone.clear();
    check(all_are(&b.build(), &want, &text), 2);
    check(all_are(&first, &want, &text), 3);
    // what a pattern carries
    let name = if choice(2) == 1 { Some(string_upto(param(1))) } else { None };
    let mut values = None;
    let mut tags = None;
    let mut tests = None;
    let full = choice(3);
    if full > 0 {
        let mut m = BTreeMap::new();
        if full > 1 { m.insert("k".to_string(), string(param(1))); m.insert(String::new(), string(param(1))); }
        values = Some(m);
        tags = Some(if full > 1 { vec![string(param(1)), "t".to_string(), string(param(1))] } else { vec![] });
        let mut l = vec![];
        if full > 1 { for _ in 0..3 { l.push(string(param(1))); } }
        tests = Some(l);
    }
    let made = tests.as_ref().map(|l: &Vec<String>| l.iter().map(|s| TestMessage::new(s.clone(), values.clone().unwrap_or_default(), tags.clone())).collect::<Vec<_>>());
    let mut p = Pattern::new(name.clone(), uuid_of(7), first, made, values.clone(), tags.clone());
    let mut q = p.clone();
    cover(1);
    observe(want.len() as u64);
    let kept = |p: &Pattern| {
        let n = match (p.name(), &name) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false };
        n & (*p.uuid() == uuid_of(7)) & same_map(p.values(), values.as_ref()) & same_list(p.tags(), tags.as_ref().map(|t| &t[..]))
    };
    check(kept(&p), 4);
    check(kept(&q), 5);
    check(all_are(p.pattern(), &want, &text), 6);
    // take the original apart: each token once, from the left
    for (i, w) in want.iter().enumerate() {
        match p.pop_first_token() { Some(t) => check(token_is(&t, w, &text), 7), None => check(false, 8) }
        check(p.pattern().len() == want.len() - i - 1, 9);
    }
    check(p.pop_first_token().is_none(), 10);
    check(p.pop_first_token().is_none(), 11);
    // each test message once, from the right, with all it came with
    if let Some(l) = &tests {
        for m in l.iter().rev() {
            match p.pop_test_message() {
                Some(t) => {
                    check(same(t.message(), m), 12);
                    check(same_map(Some(t.values()), values.as_ref()), 13);
                    check(same_list(t.tags(), tags.as_ref().map(|t| &t[..])), 14);
                }
                None => check(false, 15),
            }
        }
    }
    check(p.pop_test_message().is_none(), 16);
    check(kept(&p), 17);
    // the copy has not noticed
    check(all_are(q.pattern(), &want, &text), 18);
    let mut n = 0;
    while let Some(_) = q.pop_test_message() { n += 1; check(n <= 3, 19); }
    check(n == tests.as_ref().map_or(0, |l| l.len()), 20);
    // a new pattern replaces the tokens and nothing else
    let mut c = CompiledPatternBuilder::new();
    c.literal("new");
    q.set_pattern(c.build());
    check(all_are(q.pattern(), &[Want::Lit("new".to_string())], &text), 21);
    check(kept(&q), 22);
    if want.len() > 0 && full > 1 { cover(2); }
    let e = Pattern::with_uuid(uuid_of(9));
    check(e.name().is_none() && *e.uuid() == uuid_of(9) && e.pattern().is_empty() && e.values().is_none() && e.tags().is_none(), 23);
}
/// A parser made in one of several ways, its settings changed, copied, changed again: it is what it was set to last,
/// equal parsers have equal hashes, and the copy keeps what it had. params: bytes of names and sets, bytes of the text
pub fn h_parser_api() {
    let text = string(param(1));
    let (name, other) = (string_upto(param(0)), string(param(0)));
    let lens = |i: usize| [None, Some(0), Some(1), Some(2)][i];
    let (min, max) = (lens(choice(4)), lens(choice(4)));
    match choice(3) {
        0 => {
            let set = letters(param(0), 26);
            let mut p = match choice(3) {
                0 => SetParser::with_name(name.clone(), &set),
                1 => SetParser::from_str(&name, &set),
                _ => { let mut p = SetParser::new("xyz"); check(p.name().is_none(), 1); p.set_character_set(&set); p.set_name(Some(name.clone())); p }
            };
            p.set_min_length(min);
            p.set_max_length(max);
            check(p.min_length() == min && p.max_length() == max, 2);
            check(match p.name() { Some(n) => same(n, &name), None => false }, 3);
            check(probe(&p, &text) == set_match(&set, min, max, &text), 4);
            let q = p.boxed_clone();
            p.set_name(None);
            p.set_max_length(Some(9));
            p.set_min_length(None);
            p.set_character_set("0");
            check(p.name().is_none() && p.min_length().is_none() && p.max_length() == Some(9), 5);
            check(probe(&p, "00a") == Some(2), 6);
            check(match q.name() { Some(n) => same(n, &name), None => false }, 7);
            check(probe(&*q, &text) == set_match(&set, min, max, &text), 8);
            cover(1);
        }
        1 => {
            let mut p = match choice(3) {
                0 => IntParser::with_name(name.clone()),
                1 => { let mut p = IntParser::new(); check(p.name().is_none(), 1); p.set_name(Some(name.clone())); p }
                _ => { let mut p = IntParser::default(); p.set_name(Some(other.clone())); p.set_name(Some(name.clone())); p }
            };
            p.set_min_length(min);
            p.set_max_length(max);
            check(p.min_length() == min && p.max_length() == max, 2);
            check(match p.name() { Some(n) => same(n, &name), None => false }, 3);
            check(probe(&p, &text) == set_match("0123456789", min, max, &text), 4);
            let q = p.boxed_clone();
            p.set_name(None);
            p.set_max_length(Some(9));
            p.set_min_length(None);
            check(p.name().is_none() && p.min_length().is_none() && p.max_length() == Some(9), 5);
            check(probe(&p, "00a") == Some(2), 6);
            check(match q.name() { Some(n) => same(n, &name), None => false }, 7);
            check(probe(&*q, &text) == set_match("0123456789", min, max, &text), 8);
            cover(2);
        }
        _ => {
            let end = letters(param(0), 26);
            let mut p = match choice(3) {
                0 => GreedyParser::from_str(&name, &end),
                1 => { let mut p = GreedyParser::with_name(name.clone()); check(probe(&p, &text) == Some(text.len()), 1); p.set_end_string(Some(end.clone())); p }
                _ => { let mut p = GreedyParser::new(); check(p.name().is_none(), 1); p.set_end_string(Some("xyz".to_string())); p.set_end_string(Some(end.clone())); p.set_name(Some(name.clone())); p }
            };
            check(match p.name() { Some(n) => same(n, &name), None => false }, 3);
            check(probe(&p, &text) == greedy_match(Some(&end), &text), 4);
            let q = p.boxed_clone();
            p.set_name(None);
            p.set_end_string(None);
            check(p.name().is_none(), 5);
            check(probe(&p, &text) == Some(text.len()), 6);
            check(match q.name() { Some(n) => same(n, &name), None => false }, 7);
            check(probe(&*q, &text) == greedy_match(Some(&end), &text), 8);
            cover(3);
        }
    }
    observe(1);
}
/// Parsers which were made in different ways but mean the same have the same hash, and a copy has the hash of its
/// original. params: bytes of names and sets
pub fn h_parser_same() {
    let n = param(0);
    let (name, set) = (string(n), letters(n, 26));
    let twice = format!("{}{}", set, set);
    let (a, b): (Box<dyn Parser>, Box<dyn Parser>) = match choice(3) {
        0 => {
            let a = SetParser::with_name(name.clone(), &set);
            let mut b = SetParser::new("q");
            b.set_min_length(Some(3));
            b.set_name(Some(name.clone()));
            b.set_character_set(if choice(2) == 1 { &twice } else { &set });
            b.set_min_length(None);
            (Box::new(a), Box::new(b))
        }
        1 => {
            let a = IntParser::with_name(name.clone());
            let mut b = IntParser::new();
            b.set_max_length(Some(3));
            b.set_name(Some(name.clone()));
            b.set_max_length(None);
            (Box::new(a), Box::new(b))
        }
        _ => {
            let a = GreedyParser::from_str(&name, &set);
            let mut b = GreedyParser::new();
            b.set_end_string(Some(set.clone()));
            b.set_name(Some(name.clone()));
            (Box::new(a), Box::new(b))
        }
    };
    cover(1);
    check(a.hash_os() == b.hash_os(), 1);
    check(a.hash_os() == a.boxed_clone().hash_os(), 2);
    check(b.boxed_clone().hash_os() == b.hash_os(), 3);
    observe(1);
    cover(2);
}
/// A pattern of many tokens, values, tags and test messages, with any text in one of them; taken apart, copied before
/// and half way. params: how many of each, bytes of the text
pub fn h_pattern_long() {
    let n = param(0);
    let hole = string(param(1));
    let (what, at) = (choice(5), choice(n));
    let text = |w: usize, i: usize, s: String| if w == what && i == at { hole.clone() } else { s };
    let mut b = CompiledPatternBuilder::new();
    let mut want: Vec<Want> = vec![];
    for i in 0..n {
        match i % 4 {
            0 | 2 => { let s = text(0, i, format!("literal {}", i)); b.literal(s.clone()); want.push(Want::Lit(s)); }
            k => {
                let name = text(0, i, format!("name {}", i));
                if k == 1 { b.parser(Box::new(SetParser::with_name(name.clone(), "ab"))); want.push(Want::Par(0, name, "ab".to_string())); }
                else { b.parser(Box::new(IntParser::with_name(name.clone()))); want.push(Want::Par(1, name, String::new())); }
            }
        }
    }
    let mut values = BTreeMap::new();
    for i in 0..n { values.insert(text(1, i, format!("key {}", i)), text(2, i, format!("value {}", i))); }
    let tags: Vec<String> = (0..n).map(|i| text(3, i, format!("tag {}", i))).collect();
    let messages: Vec<String> = (0..n).map(|i| text(4, i, format!("message {}", i))).collect();
    let tests = messages.iter().enumerate().map(|(i, m)| TestMessage::new(m.clone(), values.iter().take(i).map(|(k, v)| (k.clone(), v.clone())).collect(), Some(tags[..i].to_vec()))).collect();
    let mut p = Pattern::new(Some(format!("{}{}", hole, n)), uuid_of(3), b.build(), Some(tests), Some(values.clone()), Some(tags.clone()));
    let mut q = p.clone();
    cover(1);
    observe(1);
    let name = format!("{}{}", hole, n);
    let kept = |p: &Pattern| p.name().map_or(false, |x| same(x, &name)) & (*p.uuid() == uuid_of(3)) & same_map(p.values(), Some(&values)) & same_list(p.tags(), Some(&tags));
    let apart = |p: &mut Pattern, from: usize, to: usize| {
        for i in from..to {
            match p.pop_first_token() { Some(t) => check(token_is(&t, &want[i], "b7"), 1), None => check(false, 2) }
            let k = n - 1 - i;
            match p.pop_test_message() {
                Some(t) => {
                    check(same(t.message(), &messages[k]), 3);
                    check(same_list(t.tags(), Some(&tags[..k])), 4);
                    check(t.values().len() == k, 5);
                    for ((a, b), (c, d)) in t.values().iter().zip(&values) { check(same(a, c) & same(b, d), 6); }
                }
                None => check(false, 7),
            }
        }
        check(kept(p), 8);
        check(p.pattern().len() == n - to, 9);
    };
    check(kept(&p), 10);
    check(all_are(p.pattern(), &want, "a1"), 11);
    apart(&mut p, 0, n / 2);
    let mut r = p.clone();
    apart(&mut p, n / 2, n);
    check(p.pop_first_token().is_none() && p.pop_test_message().is_none(), 12);
    check(all_are(q.pattern(), &want, "1a"), 13);
    apart(&mut q, 0, n);
    check(all_are(r.pattern(), &want[n / 2..], "1a"), 14);
    apart(&mut r, n / 2, n);
}
