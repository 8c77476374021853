//! Sizes far beyond the arbitrary part: hundreds of patterns, tokens and questions, messages of tens of thousands of bytes.
use crate::h_big::with_hole;
use crate::oracle::*;
use crate::sym::*;
use actiondb::parsers::*;

fn rep(s: &str, n: usize) -> String { let mut r = String::new(); for _ in 0..n { r.push_str(s); } r }
fn wide(i: usize) -> String { let mut s = String::new(); s.push(std::char::from_u32(0x100 + i as u32).unwrap()); s }
/// databases of about n patterns, or of n tokens, and some messages
pub fn huge_db(kind: usize, n: usize) -> (Vec<Toks>, Vec<String>) {
    let mut ps: Vec<Toks> = vec![];
    let mut ms: Vec<String> = vec![];
    let some = [0, n / 2, n - 1];
    match kind {
        0 => {
            for i in 0..n { ps.push(vec![lit(&format!("k{}=", i)), int("v")]); }
            for i in some { ms.push(format!("k{}=5", i)); }
        }
        1 => {
            for i in 0..n { ps.push(vec![lit(&wide((i * 37) % n))]); }
            for i in some { ms.push(wide(i)); }
        }
        2 => {
            let n = n / 4;
            for i in 0..n { ps.push(vec![lit("v "), Tok::Set(Some("v"), format!("01{}", wide(i)), None, None), lit(&format!("#{};", i))]); }
            for i in [0, n / 2, n - 1] { ms.push(format!("v 1#{};", i)); }
        }
        3 => {
            let n = n / 2;
            for i in 0..n { ps.push(vec![lit(&rep("x", i + 1))]); }
            for i in [0, n / 2, n - 1] { ms.push(rep("x", i + 1)); }
        }
        4 => {
            for k in [n - 1, n, n + 1, 4 * n] {
                ps.push(vec![lit(&format!("{}a", rep("-", k)))]);
                ps.push(vec![lit(&format!("{}b", rep("-", k))), int("i")]);
                ps.push(vec![greedy("g"), lit(&format!("{}c", rep("-", k))), int("i")]);
            }
            ms.push(format!("{}a", rep("-", n)));
            ms.push(format!("{}b7", rep("-", 4 * n)));
        }
        5 => {
            let mut t: Toks = vec![];
            let mut m = String::new();
            for i in 0..n / 2 {
                t.push(if i == 0 { int("first") } else if i + 1 == n / 2 { int("last") } else { Tok::Int(None, None, None) });
                t.push(lit([",", "; "][i % 2]));
                m.push_str(&format!("{}{}", i, [",", "; "][i % 2]));
            }
            ps.push(t.clone());
            t.pop();
            ps.push(t);
            ms.push(m.clone());
            ms.push(m[..m.len() - 1].to_string());
        }
        // a long message for every kind of parser
        _ => {
            ps.push(vec![lit("a"), set("s", "xyz"), lit("."), int("i")]);
            ps.push(vec![greedy("g"), lit(": end "), greedy("h")]);
            ps.push(vec![lit("b"), int("i"), lit(".")]);
            ms.push(format!("a{}.1", rep("xyz", n)));
            ms.push(format!("{}: end {}", rep("ab: en", n), rep("c", 2 * n)));
            ms.push(format!("b{}.", rep("0123456789", n)));
        }
    }
    (ps, ms)
}
/// A huge database or message, any byte at a few places of it. params: mode, first kind, how many kinds, size
pub fn h_huge() {
    let kind = param(1) + choice(param(2));
    let (ps, ms) = huge_db(kind, param(3));
    let m = &ms[choice(ms.len())];
    let msg = if kind == 1 && choice(2) == 0 {
        // another character of two bytes which begins like this one
        let b = byte();
        assume(b & 0xc0 == 0x80);
        unsafe { String::from_utf8_unchecked(vec![m.as_bytes()[0], b]) }
    } else if m.len() < 12 { with_hole(m, 1) } else {
        // near the ends and in the middle
        let at = [0, 1, m.len() / 2, m.len() - 2, m.len() - 1, m.len()][choice(6)];
        let hole = string(1);
        let mut b = m.as_bytes()[..at].to_vec();
        b.extend_from_slice(hole.as_bytes());
        b.extend_from_slice(&m.as_bytes()[if at < m.len() { at + choice(2) } else { at }..]);
        String::from_utf8(b).unwrap()
    };
    crate::h_db::check_db(param(0), &ps, &msg);
}
/// Hundreds of questions do not change the answer. params: questions, bytes of the message
pub fn h_ask() {
    let ps: Vec<(usize, Toks)> = vec![
        vec![lit("ab")],
        vec![lit("a"), set("s", "bc")],
        vec![set("s", "ab"), lit("c")],
        vec![set("s", "ab"), lit("c"), int("i")],
        vec![greedy("g"), lit("b")],
        vec![lit("abc")],
        vec![int("i")],
    ].into_iter().enumerate().collect();
    let mut m = crate::h_hist::engine(choice(2));
    for (i, p) in &ps { m.add_pattern(pattern(*i, p)); }
    let x = string_upto(param(1));
    crate::h_hist::is_ref(&*m, &ps, &x, 0);
    let ms = ["ab", "7", "xxb", "abc", "", "nothing", "bac", "bac12", "77"];
    let how = choice(3);
    for i in 0..param(0) {
        match how { 0 => { m.parse(&x); } 1 => { m.parse(ms[i % ms.len()]); } _ => { m.parse(ms[6]); if i % 16 == 0 { m.parse(&x); } } }
    }
    crate::h_hist::is_ref(&*m, &ps, &x, 10);
}
/// The same piece of memory with another message in it is another message. params: bytes of the message
pub fn h_buffer() {
    let ps: Vec<(usize, Toks)> = vec![
        vec![lit("ab")],
        vec![lit("a"), set("s", "bc")],
        vec![set("s", "ab"), lit("c")],
        vec![greedy("g"), lit("b")],
        vec![int("i")],
    ].into_iter().enumerate().collect();
    let mut m = crate::h_hist::engine(choice(2));
    for (i, p) in &ps { m.add_pattern(pattern(*i, p)); }
    let n = 1 + choice(param(0));
    let mut buf = string(n);
    crate::h_hist::is_ref(&*m, &ps, &buf, 0);
    // a parser on its own, too
    let (p, q) = (IntParser::new(), SetParser::new("ab"));
    let first = (p.parse(&buf).is_some(), q.parse(&buf).is_some());
    let other = string(n);
    unsafe { buf.as_mut_vec() }.copy_from_slice(other.as_bytes());
    crate::h_hist::is_ref(&*m, &ps, &buf, 10);
    let second = (p.parse(&buf).map(|r| r.value().len()), q.parse(&buf).map(|r| r.value().len()));
    check(second.0 == set_match("0123456789", None, None, &buf), 20);
    check(second.1 == set_match("ab", None, None, &buf), 21);
    observe(first.0 as u64 + 2 * first.1 as u64);
    // and another database with the same message
    let other: Vec<(usize, Toks)> = ps.iter().rev().map(|(i, p)| (100 + i, p.clone())).collect();
    let mut o = crate::h_hist::engine(choice(2));
    for (i, p) in &other { o.add_pattern(pattern(*i, p)); }
    crate::h_hist::is_ref(&*o, &other, &buf, 30);
    crate::h_hist::is_ref(&*m, &ps, &buf, 40);
    drop(o);
    // a pattern which takes the place of another is seen by the same message
    let mut ps = ps;
    m.add_pattern(pattern(50, &ps[4].1.clone()));
    let t = ps[4].1.clone();
    ps.push((50, t));
    m.add_pattern(pattern(51, &[lit("b")]));
    ps.push((51, vec![lit("b")]));
    crate::h_hist::is_ref(&*m, &ps, &buf, 50);
}
/// A database of one or two patterns asked twice in a row about different messages in the same memory. params: bytes of the message
pub fn h_buffer_one() {
    let ps: Vec<Toks> = match choice(6) {
        0 => vec![vec![set("s", "ab")]],
        1 => vec![vec![int("i")]],
        2 => vec![vec![greedy("g"), lit("b")]],
        3 => vec![vec![set("s", "ab"), lit("c")]],
        4 => vec![vec![lit("a"), Tok::Int(Some("i"), None, Some(2))]],
        _ => vec![vec![lit("a"), greedy("g")], vec![set("s", "abc"), lit(".")]],
    };
    let ps: Vec<(usize, Toks)> = ps.into_iter().enumerate().collect();
    let mut m = crate::h_hist::engine(choice(2));
    for (i, p) in &ps { m.add_pattern(pattern(*i, p)); }
    let n = 1 + choice(param(0));
    let mut buf = string(n);
    crate::h_hist::is_ref(&*m, &ps, &buf, 0);
    let other = string(n);
    unsafe { buf.as_mut_vec() }.copy_from_slice(other.as_bytes());
    crate::h_hist::is_ref(&*m, &ps, &buf, 10);
    unsafe { buf.as_mut_vec() }.truncate(n - 1);
    if std::str::from_utf8(buf.as_bytes()).is_ok() { crate::h_hist::is_ref(&*m, &ps, &buf, 20); }
}
