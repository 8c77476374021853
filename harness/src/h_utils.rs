//! The ordered container and the prefix functions the matchers are built on.
use crate::oracle::digest;
use crate::sym::*;
use actiondb::utils::{flatten_vec, CommonPrefix, SortedVec};

/// params: number of elements
pub fn h_sorted() {
    let n = choice(param(0) + 1);
    let mut sv: SortedVec<u8> = SortedVec::new();
    let mut v: Vec<u8> = vec![];
    check(sv.is_empty() && sv.len() == 0, 1);
    for _ in 0..n { let b = byte(); v.push(b); sv.push(b); }
    check(sv.len() == n && sv.is_empty() == (n == 0), 2);
    // optionally take one out again
    if n > 0 && choice(2) == 1 {
        let i = choice(n);
        let before = *sv.get(i).unwrap();
        let out = sv.remove(i);
        check(out == before, 3);
        let at = v.iter().position(|&x| x == out);
        check(at.is_some(), 4);
        if let Some(at) = at { v.remove(at); }
        cover(1);
    }
    check_sorted(&sv, &v);
    let needle = byte();
    check_search(&sv, &v, needle);
    // changing an element in place without changing its rank
    if !v.is_empty() { let k = choice(v.len()); let x = *sv.get(k).unwrap(); *sv.get_mut(k).unwrap() = x; check(*sv.get(k).unwrap() == x, 18); }
}

#[inline(never)]
pub fn check_sorted(sv: &SortedVec<u8>, v: &[u8]) {
    check(sv.len() == v.len(), 5);
    let mut prev = 0u8;
    for i in 0..v.len() {
        let x = *sv.get(i).unwrap();
        observe(x as u64);
        check(prev <= x, 6);
        prev = x;
    }
    check(sv.get(v.len()).is_none(), 7);
    // the same elements: every value occurs as often in one as in the other
    for &p in v {
        let (mut a, mut b) = (0, 0);
        for i in 0..v.len() { a += (v[i] == p) as usize; b += (*sv.get(i).unwrap() == p) as usize; }
        check(a == b, 8);
    }
}
#[inline(never)]
pub fn check_search(sv: &SortedVec<u8>, v: &[u8], needle: u8) {
    // looking for anything
    let mut there = false;
    for &x in v { there |= x == needle; }
    let found = sv.find(&needle).cloned();
    let pos = sv.find_pos(&needle);
    let bs = sv.binary_search_by(|p| p.cmp(&needle));
    observe(found.is_some() as u64);
    check(found.is_some() == there, 9);
    check(pos.is_some() == there, 10);
    check(bs.is_ok() == there, 11);
    if let Some(f) = found { check(f == needle, 12); cover(2); }
    if let Some(p) = pos { check(p < v.len() && *sv.get(p).unwrap() == needle, 13); }
    match bs {
        Ok(p) => check(p < v.len() && *sv.get(p).unwrap() == needle, 14),
        Err(p) => {
            cover(3);
            check(p <= v.len(), 15);
            if p > 0 { check(*sv.get(p - 1).unwrap() < needle, 16); }
            if p < v.len() { check(*sv.get(p).unwrap() > needle, 17); }
        }
    }
}
fn boundary(s: &str, i: usize) -> bool { i == 0 || i == s.len() || (i < s.len() && (s.as_bytes()[i] & 0xc0) != 0x80) }

/// params: bytes of the first text, bytes of the second
pub fn h_prefix() {
    let (a, b) = (string_upto(param(0)), string_upto(param(1)));
    check_prefix(&a, &b);
}
#[inline(never)]
pub fn check_prefix(a: &str, b: &str) {
    let n = a.common_prefix_len(b);
    observe(n as u64);
    check(n <= a.len() && n <= b.len(), 1);
    check(same(&a[..n], &b[..n]), 2);
    check(boundary(a, n) && boundary(b, n), 3);
    // and it is the longest one: the next characters differ
    if n < a.len() && n < b.len() {
        cover(1);
        let x = a[n..].chars().next().unwrap();
        let y = b[n..].chars().next().unwrap();
        check(x != y, 4);
    } else { cover(2) }
    check(b.common_prefix_len(a) == n, 5);
    match a.has_common_prefix(b) {
        None => { cover(3); check(n == 0, 6) }
        Some(k) => { cover(4); check(k == n && n > 0, 7) }
    }
    let (l, r) = (a.ltrunc(n), b.rtrunc(b.len() - n));
    observe(digest(l.as_bytes()));
    check(same(l, &a[n..]), 8);
    check(same(r, &b[..n]), 9);
    check(a.ltrunc(0).len() == a.len() && a.rtrunc(0).len() == a.len() && a.ltrunc(a.len()).is_empty() && a.rtrunc(a.len()).is_empty(), 10);
}

/// params: number of lists, elements of each
pub fn h_flatten() {
    let n = choice(param(0) + 1);
    let mut vs = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let k = choice(param(1) + 1);
        let v = bytes(k);
        want.extend_from_slice(&v);
        vs.push(v);
    }
    let got = flatten_vec(vs);
    check(got.len() == want.len(), 1);
    check(same_bytes(&got, &want), 2);
    if n > 1 { cover(1) }
}

/// longer lists, pushed in increasing or in decreasing order. params: number of elements
pub fn h_sorted_long() {
    let n = 1 + choice(param(0));
    let v = bytes(n);
    for i in 1..n { assume(v[i - 1] < v[i]); }
    let mut sv: SortedVec<u8> = SortedVec::new();
    let desc = choice(2) == 1;
    for i in 0..n { sv.push(v[if desc { n - 1 - i } else { i }]); }
    check(sv.len() == n, 1);
    for i in 0..n { check(*sv.get(i).unwrap() == v[i], 2); }
    let needle = byte();
    let pos = sv.find_pos(&needle);
    let found = sv.find(&needle).cloned();
    let bs = sv.binary_search_by(|p| p.cmp(&needle));
    let (mut less, mut there) = (0, false);
    for &x in &v { less += (x < needle) as usize; there |= x == needle; }
    observe(pos.map_or(0, |p| 1 + p as u64));
    check(pos.is_some() == there && found.is_some() == there && bs.is_ok() == there, 3);
    if let Some(p) = pos { cover(1); check(p == less, 4); check(found == Some(needle), 5); }
    match bs { Ok(p) => check(p == less, 6), Err(p) => { cover(2); check(p == less, 7) } }
}
