//! What the errors say.
use crate::oracle::digest;
use crate::oracle::uuid_of;
use crate::sym::*;
use actiondb::grammar::parser;
use actiondb::matcher::pattern::testmessage::{Error, TestMessage};
use actiondb::matcher::BuildError;
use std::collections::BTreeMap;
use std::error::Error as StdError;

/// whether b occurs in a, without branching on the contents
#[inline(never)]
fn has(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut any = false;
    let mut i = 0;
    while i + b.len() <= a.len() { any |= same_bytes(&a[i..i + b.len()], b); i += 1; }
    any
}
/// every error of a test message, with any texts in it. params: bytes of each text
pub fn h_error_text() {
    let n = param(0);
    let (u, v) = (uuid_of(0x1234), uuid_of(0xfedc));
    let (a, b, c) = (string(n), string(n), string(n));
    // characters which a quoted list shows as they are
    let word = |s: &str| for &x in s.as_bytes() { assume(((x >= b'a') & (x <= b'z')) | ((x >= b'0') & (x <= b'9'))); };
    let k = choice(7);
    let (e, parts): (Error, Vec<String>) = match k {
        0 => (Error::value_not_match(&u, &a, &b, &c), vec![format!("key={}", a), format!("expected={}", b), format!("got={}", c)]),
        1 => (Error::key_not_found(&u, &a), vec![a]),
        2 => (Error::test_message_does_not_match(&u, &TestMessage::new(a.clone(), BTreeMap::new(), None)), vec![a]),
        3 => (Error::matched_to_other_pattern(&u, &v, &a), vec![a, format!("expected_uuid={}", u.hyphenated()), format!("got_uuid={}", v.hyphenated())]),
        4 => { word(&a); word(&b); (Error::unexpected_tags(&u, Some(vec![a.clone()]), Some(vec![b.clone()])), vec![a, b]) }
        5 => { word(&a); word(&b); (Error::unexpected_tags(&u, Some(vec![a.clone(), b.clone()]), None), vec![a, b]) }
        _ => { word(&a); word(&b); word(&c); (Error::unexpected_tags(&u, Some(vec![c.clone()]), Some(vec![a.clone(), b.clone()])), vec![a, b, c]) }
    };
    cover(1 + k as u32);
    let text = e.to_string();
    observe(digest(text.as_bytes()));
    check(has(&text, &u.hyphenated().to_string()), 1);
    for (i, p) in parts.iter().enumerate() { check(has(&text, p), 2 + i as u32); }
    // of the two lists the expected one comes first
    if k >= 4 {
        let (e, g) = if k == 4 { (format!("Some([\"{}\"])", parts[0]), format!("Some([\"{}\"])", parts[1])) }
            else if k == 5 { (format!("Some([\"{}\", \"{}\"])", parts[0], parts[1]), "None".to_string()) }
            else { (format!("Some([\"{}\"])", parts[2]), format!("Some([\"{}\", \"{}\"])", parts[0], parts[1])) };
        check(has(&text, &e), 8);
        check(text.len() > g.len() && same_bytes(&text.as_bytes()[text.len() - g.len()..], g.as_bytes()), 9);
    }
    let short = StdError::description(&e).to_string();
    check(!short.is_empty(), 10);
    // and the same from the error of the build
    let w = BuildError::from(e);
    check(same(&w.to_string(), &text), 11);
    #[allow(deprecated)]
    { check(w.description() == short, 12); check(w.cause().is_none(), 13); }
}
/// the error of a malformed pattern names its place and everything which was expected there. params: bytes
pub fn h_error_grammar() {
    let n = param(0);
    let t = match choice(4) {
        0 => string_upto(n),
        1 => format!("%{{{}", string_upto(n)),
        2 => format!("a\nb\n%{{INT{}", string_upto(n)),
        _ => format!("%{{SET(\"a\"{}", string_upto(n)),
    };
    let e = match parser::pattern(&t) { Ok(_) => { cover(2); return } Err(e) => e };
    cover(1);
    let text = e.to_string();
    check(has(&text, &format!("{}:{}", e.line, e.column)), 1);
    let mut total = 0;
    for x in &e.expected { let x: String = x.chars().flat_map(|c| c.escape_default()).collect(); total += x.len(); check(has(&text, &format!("`{}`", x)), 2); }
    observe(text.len() as u64);
    check(text.len() > total, 3);
    #[allow(deprecated)]
    { check(!e.description().is_empty(), 4); }
}
/// the other errors of a build say something, and pass on what a parser of documents says. params: none
pub fn h_error_build() {
    let b = byte();
    assume((b >= 0x20) & (b < 0x7f));
    let doc = unsafe { String::from_utf8_unchecked(vec![b'{', b]) };
    let mut inner = String::new();
    let k = choice(4);
    let e: BuildError = match k {
        0 => BuildError::UnsupportedFileExtension,
        1 => BuildError::NotUtf8FileName,
        2 => match actiondb::matcher::Pattern::from_json(&doc) { Ok(_) => { check(false, 1); return } Err(e) => { inner.push_str(&e.to_string()); BuildError::from(e) } },
        _ => { let e = std::io::Error::from_raw_os_error([2, 13, 21, 5][choice(4)]); inner.push_str(&e.to_string()); BuildError::from(e) }
    };
    cover(1 + k as u32);
    let text = e.to_string();
    observe(digest(text.as_bytes()));
    check(!text.is_empty(), 2);
    if k >= 2 { check(same(&text, &inner), 3); }
    #[allow(deprecated)]
    { check(!e.description().is_empty(), 4); check(k >= 2 || e.cause().is_none(), 5); }
    match (k, &e) {
        (0, BuildError::UnsupportedFileExtension) | (1, BuildError::NotUtf8FileName) | (2, BuildError::DeserJson(_)) | (3, BuildError::Io(_)) => {}
        _ => check(false, 6),
    }
}
