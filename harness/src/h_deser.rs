//! Pattern documents: JSON and YAML.
use crate::oracle::digest;
use crate::sym::*;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::Pattern;
use std::sync::atomic::Ordering::Relaxed;
use uuid::Uuid;

const UUID: &str = "9a49c47d-29e9-4072-be84-3b76c6814743";
const UUID2: &str = "fa8bdbcb-e0fd-4da1-9fa4-15ecfec28ad2";

/// characters which stand for themselves in a quoted JSON or YAML text
fn plain(b: u8) -> bool { (b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') }
fn plain_text(n: usize) -> String {
    let v = bytes(n);
    for &b in &v { assume(plain(b)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// the same, but any UTF-8
fn plain_utf8(n: usize) -> String {
    let s = string(n);
    for &b in s.as_bytes() { assume((b >= 0x20) & (b != 0x7f) & (b != b'"') & (b != b'\\')); }
    s
}
fn is(a: &str, b: &str) -> bool { same(a, b) }

/// An object with a key nobody knows about is refused, at every level and whatever its value is.
/// params: format (0 JSON, 1 YAML), shortest key, longest key, level (0 file, 1 pattern, 2 test message),
/// 0: any key, 2: any key without blanks and apostrophes, 1: a known key or a likely one with any other character somewhere, or one more or less
pub fn h_keys() {
    let key = if param(4) != 1 {
        let n = param(1) + choice(param(2) + 1 - param(1));
        if param(4) == 2 {
            let t = plain_text(n);
            for &b in t.as_bytes() { assume((b != b' ') & (b != b'\'')); }
            t
        } else if param(0) == 0 { plain_utf8(n) } else { plain_text(n) }
    } else {
        let k = ["patterns", "name", "uuid", "pattern", "values", "tags", "test_messages", "message", "tests", "examples", "testmessages", "test_message", "tag", "value", "test-messages", "testMessages"];
        let k = k[choice(k.len())];
        let at = choice(k.len() + 1);
        let rest = if at < k.len() { at + choice(2) } else { at };
        let mid = plain_text(choice(2));
        let mut b = k.as_bytes()[..at].to_vec();
        b.extend_from_slice(mid.as_bytes());
        b.extend_from_slice(&k.as_bytes()[rest..]);
        unsafe { String::from_utf8_unchecked(b) }
    };
    let kind = choice(4);
    let value = ["\"x\"", "[\"x\"]", "[]", "{\"x\": \"y\"}"][kind];
    let mut s = String::new();
    let ok: bool;
    match param(3) {
        0 => {
            s.push_str("{\"patterns\": [], \""); s.push_str(&key); s.push_str("\": "); s.push_str(value); s.push_str("}");
            ok = is(&key, "patterns") & (kind == 2);
        }
        1 => {
            s.push_str("{\"patterns\": [{\"uuid\": \""); s.push_str(UUID); s.push_str("\", \"pattern\": \"abc\", \""); s.push_str(&key); s.push_str("\": "); s.push_str(value); s.push_str("}]}");
            ok = match kind { 0 => is(&key, "name") | is(&key, "pattern"), 1 => is(&key, "tags"), 2 => is(&key, "tags") | is(&key, "test_messages"), _ => is(&key, "values") };
        }
        _ => {
            s.push_str("{\"patterns\": [{\"uuid\": \""); s.push_str(UUID); s.push_str("\", \"pattern\": \"abc\", \"test_messages\": [{\"message\": \"abc\", \""); s.push_str(&key); s.push_str("\": "); s.push_str(value); s.push_str("}]}]}");
            ok = match kind { 0 => is(&key, "message"), 1 | 2 => is(&key, "tags"), _ => is(&key, "values") };
        }
    }
    let got = load(param(0), &s);
    observe(got.is_some() as u64);
    cover(if got.is_some() { 1 } else { 2 });
    check(got.is_some() == ok, 1);
}
/// the document is in a file
static FROM_FILE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[inline(never)]
fn load(format: usize, s: &str) -> Option<PatternFile> {
    if FROM_FILE.load(Relaxed) {
        let path = ["/vfs/p.json", "/vfs/p.yaml"][format];
        crate::vfs::reset(path, s.as_bytes().to_vec());
        return actiondb::matcher::PatternLoader::load_file(path).ok();
    }
    if format == 0 { serde_json::from_str(s).ok() } else { serde_yaml::from_str(s).ok() }
}

/// YAML may have a tab inside of a text as it is
static RAW_TAB: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// a text as JSON and YAML both write it (control characters as in JSON, unless YAML has an escape for them too)
fn quote(s: &mut String, t: &str) {
    s.push('"');
    let v = unsafe { s.as_mut_vec() };
    for &b in t.as_bytes() {
        if (b == b'"') | (b == b'\\') { v.push(b'\\'); v.push(b); }
        else if b >= 0x20 { v.push(b); }
        else if b == b'\n' { v.extend_from_slice(b"\\n"); }
        else if b == b'\t' && RAW_TAB.load(Relaxed) { v.push(b); }
        else if b == b'\t' { v.extend_from_slice(b"\\t"); }
        else { v.extend_from_slice(b"\\u00"); v.push(b'0' + (b >> 4)); let d = b & 15; v.push(b'0' + d + (d > 9) as u8 * 39); }
    }
    s.push('"');
}
/// any text, as far as the format has a way to write it
fn any_text(n: usize, json: bool) -> String {
    if json { return string(n); }
    let v = bytes(n);
    for &b in &v { assume((b >= 0x20) & (b < 0x7f) | (b == b'\n') | (b == b'\t')); }
    unsafe { String::from_utf8_unchecked(v) }
}

#[derive(Clone)]
struct Test { message: Option<String>, values: Option<Vec<(String, String)>>, tags: Option<Vec<String>> }
#[derive(Clone)]
struct Doc { name: Option<String>, uuid: Option<&'static str>, pattern: Option<String>, values: Option<Vec<(String, String)>>, tags: Option<Vec<String>>, tests: Option<Vec<Test>> }
fn write_values(s: &mut String, v: &[(String, String)]) {
    s.push_str("\"values\": {");
    for (i, (k, x)) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } quote(s, k); s.push_str(": "); quote(s, x); }
    s.push('}');
}
fn write_tags(s: &mut String, v: &[String]) {
    s.push_str("\"tags\": [");
    for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } quote(s, x); }
    s.push(']');
}
/// the document, its fields from the given place on, in flow style (which JSON and YAML share) or in YAML's block style
fn write(d: &Doc, rot: usize, block: bool) -> String {
    let mut parts: Vec<String> = vec![];
    if let Some(n) = &d.name { let mut s = String::from("\"name\": "); quote(&mut s, n); parts.push(s); }
    if let Some(n) = &d.uuid { let mut s = String::from("\"uuid\": "); quote(&mut s, n); parts.push(s); }
    if let Some(n) = &d.pattern { let mut s = String::from("\"pattern\": "); quote(&mut s, n); parts.push(s); }
    if let Some(v) = &d.values { let mut s = String::new(); write_values(&mut s, v); parts.push(s); }
    if let Some(v) = &d.tags { let mut s = String::new(); write_tags(&mut s, v); parts.push(s); }
    if let Some(v) = &d.tests {
        let mut s = String::from("\"test_messages\": [");
        for (i, t) in v.iter().enumerate() {
            if i > 0 { s.push_str(", "); }
            s.push('{');
            let mut sep = "";
            if let Some(t) = &t.tags { write_tags(&mut s, t); sep = ", "; }
            if let Some(m) = &t.message { s.push_str(sep); s.push_str("\"message\": "); quote(&mut s, m); sep = ", "; }
            if let Some(v) = &t.values { s.push_str(sep); write_values(&mut s, v); }
            s.push('}');
        }
        s.push(']');
        parts.push(s);
    }
    let n = parts.len();
    if n > 0 { parts.rotate_left(rot % n); }
    let mut out = String::new();
    if block && n > 0 {
        for (i, p) in parts.iter().enumerate() { out.push_str(if i == 0 { "  - " } else { "    " }); out.push_str(p); out.push('\n'); }
    } else {
        out.push('{');
        for (i, p) in parts.iter().enumerate() { if i > 0 { out.push_str(", "); } out.push_str(p); }
        out.push('}');
    }
    out
}
#[inline(never)]
fn check_pattern(p: &mut Pattern, d: &Doc, base: u32) {
    match (p.name(), &d.name) { (None, None) => {} (Some(a), Some(b)) => check(same(a, b), base), _ => check(false, base + 1) }
    check(*p.uuid() == Uuid::parse_str(d.uuid.unwrap()).unwrap(), base + 2);
    let want = d.pattern.as_ref().unwrap();
    check(p.pattern().len() == 1, base + 3);
    match &p.pattern()[0] { TokenType::Literal(l) => { observe(digest(l.as_bytes())); check(same(l, want), base + 4) } _ => check(false, base + 5) }
    match (p.values(), &d.values) { (None, None) => {} (Some(a), Some(b)) => check_values(a, b, base + 6), _ => check(false, base + 9) }
    match (p.tags(), &d.tags) { (None, None) => {} (Some(a), Some(b)) => check_tags(a, b, base + 10), _ => check(false, base + 12) }
    let mut got = vec![];
    while let Some(t) = p.pop_test_message() { got.push(t); }
    let want = d.tests.as_ref().map_or(&[][..], |v| &v[..]);
    check(got.len() == want.len(), base + 13);
    got.reverse();
    for (g, t) in got.iter().zip(want) {
        check(same(g.message(), t.message.as_ref().unwrap()), base + 14);
        match &t.values { None => check(g.values().is_empty(), base + 15), Some(v) => check_values(g.values(), v, base + 16) }
        match (g.tags(), &t.tags) { (None, None) => {} (Some(a), Some(b)) => check_tags(a, b, base + 19), _ => check(false, base + 21) }
    }
}
fn check_values(got: &std::collections::BTreeMap<String, String>, want: &[(String, String)], base: u32) {
    check(got.len() == want.len(), base);
    for (k, v) in want {
        // found without relying on the order of the map
        let mut found = None;
        for (x, y) in got { if same(x, k) { found = Some(y); } }
        match found { None => check(false, base + 1), Some(x) => check(same(x, v), base + 2) }
    }
}
fn check_tags(got: &[String], want: &[String], base: u32) {
    check(got.len() == want.len(), base);
    for (x, y) in got.iter().zip(want) { check(same(x, y), base + 1) }
}
/// `all`: any combination of everything; otherwise one field at a time varies while the others are all there in full, or
/// (those which may) all missing
fn any_doc(all: bool) -> Doc {
    let focus = if all { 6 } else { choice(6) };
    let rest = if all { 0 } else { choice(2) };
    let pick = |field: usize, n: usize, full: usize| if all || focus == field { choice(n) } else if rest == 0 { full } else { 0 };
    // the arbitrary text is in the field under consideration
    let text = |field: usize, c: &'static str| if all || focus == field { plain_text(1) } else { c.to_string() };
    let need = |field: usize, n: usize| if all || focus == field { choice(n) } else { 1 };
    Doc {
        name: if pick(0, 2, 1) == 1 { Some(text(0, "n")) } else { None },
        uuid: match need(1, 3) { 0 => None, 1 => Some(UUID), _ => Some(UUID2) },
        // the pattern is a literal here: it does not begin a parser
        pattern: if need(2, 2) == 1 { let mut t = text(2, "p"); let u = text(2, "q"); assume(t.as_bytes()[0] != b'%'); assume(u.as_bytes()[0] != b'%'); t.push_str(&u); Some(t) } else { None },
        values: match pick(3, 3, 2) { 0 => None, 1 => Some(vec![]), _ => Some(vec![("k".to_string(), text(3, "w")), (".x".to_string(), "v".to_string())]) },
        tags: match pick(4, 3, 2) { 0 => None, 1 => Some(vec![]), _ => Some(vec![text(4, "t"), "tag".to_string()]) },
        tests: match pick(5, 5, 4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![Test { message: Some(text(5, "m")), values: None, tags: None }]),
            3 => Some(vec![Test { message: None, values: None, tags: Some(vec!["t".to_string()]) }]),
            _ => Some(vec![Test { message: Some(text(5, "m")), values: Some(vec![("k".to_string(), text(5, "w"))]), tags: Some(vec!["t".to_string()]) }, Test { message: Some("m".to_string()), values: None, tags: None }]),
        },
    }
}
/// The same document in a file. params: as for h_doc_text
pub fn h_file_text() { FROM_FILE.store(true, Relaxed); h_doc_text(); FROM_FILE.store(false, Relaxed); }
/// A large document in which any one text is arbitrary. params: format as in h_doc, bytes of the arbitrary text, items of each list
pub fn h_doc_text() {
    let f = param(0);
    let t = any_text(param(1), f == 0 || f == 3);
    RAW_TAB.store((f == 1 || f == 2) && choice(2) == 1, Relaxed);
    let n = param(2);
    let own = |p: &str, i: usize| format!("{} {}", p, i);
    // some of the others are as long as the arbitrary one, so that it may be equal to them
    let like = || { let l = param(1); "text of some length"[..l].to_string() };
    let list = |p: &str, n: usize| -> Vec<String> { (0..n).map(|i| if i % 3 == 1 { like() } else { own(p, i) }).collect() };
    let map = |p: &str, n: usize| -> Vec<(String, String)> { (0..n).map(|i| (own(p, i), if i % 3 == 1 { like() } else { own("value", i * 7) })).collect() };
    let mut d = Doc {
        name: Some("the name of the pattern".to_string()), uuid: Some(UUID), pattern: Some("some literal, rather long: \u{e9}\u{65e5}".to_string()),
        values: Some(map("key", n)), tags: Some(list("tag", n)),
        tests: Some((0..n).map(|i| Test { message: Some(own("message number", i)), values: if i % 3 == 2 { None } else { Some(map(".k", (i * 2) % 5)) }, tags: if i % 3 == 1 { None } else { Some(list("t", i % 4)) } }).collect()),
    };
    if f == 1 || f == 2 { d.pattern = Some("some literal".to_string()); }
    match choice(9) {
        0 => d.name = Some(t),
        1 => { for &b in t.as_bytes() { assume((b != b'%') & (b != b'\\')); } d.pattern = Some(t); }
        2 => { let k = choice(n); for i in 0..n { assume(!same(&t, &own("key", i))); } d.values.as_mut().unwrap()[k].0 = t; }
        3 => { let k = choice(n); d.values.as_mut().unwrap()[k].1 = t; }
        4 => { let k = choice(n); d.tags.as_mut().unwrap()[k] = t; }
        5 => { let k = choice(n); d.tests.as_mut().unwrap()[k].message = Some(t); }
        6 => { assume(!same(&t, "a")); d.tests.as_mut().unwrap()[0].values = Some(vec![("a".to_string(), "b".to_string()), (t, "x".to_string())]) }
        7 => d.tests.as_mut().unwrap()[n - 1].values = Some(vec![("a".to_string(), t)]),
        _ => { let k = choice(3); let mut v = list("t", 3); v[k] = t; d.tests.as_mut().unwrap()[n / 2].tags = Some(v); }
    }
    check_doc(f, &d, 0);
    RAW_TAB.store(false, Relaxed);
}
/// Any selection of fields in any rotation, with any contents: accepted exactly when the required ones are there, and
/// nothing is lost or changed. params: format (0 JSON file, 1 YAML file in flow style, 2 YAML file in block style, 3 JSON pattern)
pub fn h_doc() {
    let f = param(0);
    let d = any_doc(f == 0 || f == 3);
    let rot = choice(6);
    check_doc(f, &d, rot);
}
#[inline(never)]
fn check_doc(f: usize, d: &Doc, rot: usize) {
    let body = write(d, rot, f == 2);
    let mut s = String::new();
    match f {
        0 => { s.push_str("{\"patterns\": ["); s.push_str(&body); s.push_str("]}"); }
        1 => { s.push_str("patterns: ["); s.push_str(&body); s.push_str("]\n"); }
        2 => {
            s.push_str("patterns:\n");
            // an empty mapping has no block style
            if body == "{}" { s.push_str("  - {}\n"); } else { s.push_str(&body); }
        }
        _ => s.push_str(&body),
    }
    let ok = d.uuid.is_some() && d.pattern.as_ref().map_or(false, |p| p.len() > 0) && d.tests.as_ref().map_or(true, |v| v.iter().all(|t| t.message.is_some()));
    if f == 3 {
        let p = Pattern::from_json(&s);
        observe(p.is_ok() as u64);
        cover(if ok { 1 } else { 2 });
        check(p.is_ok() == ok, 1);
        if let Ok(mut p) = p { if ok { check_pattern(&mut p, d, 10) } }
        return;
    }
    let got = load(if f == 0 { 0 } else { 1 }, &s);
    observe(got.is_some() as u64);
    cover(if ok { 1 } else { 2 });
    check(got.is_some() == ok, 1);
    if let Some(mut g) = got {
        check(g.patterns().len() == 1, 2);
        if ok { check_pattern(&mut g.patterns[0], d, 10); }
    }
}
/// A value of the wrong type is refused. params: format (0 JSON, 1 YAML)
pub fn h_types() {
    // (field, good value, values of other types)
    const F: [(&str, &str, &[&str]); 6] = [
        ("name", "\"n\"", &["1", "true", "[\"n\"]", "{\"n\": \"m\"}"]),
        ("uuid", "\"9a49c47d-29e9-4072-be84-3b76c6814743\"", &["1", "[]", "{}", "\"\"", "\"x\"", "\"9a49c47d-29e9-4072-be84-3b76c681474\"", "\"9a49c47d-29e9-4072-be84-3b76c68147433\""]),
        ("pattern", "\"abc\"", &["1", "[\"a\"]", "{\"a\": \"b\"}", "\"%{INT\"", "\"\"", "\"%{FOO}\"", "\"a%{SET()}\""]),
        ("values", "{\"k\": \"v\"}", &["1", "\"x\"", "[\"k\"]", "{\"k\": 1}", "{\"k\": [\"v\"]}"]),
        ("tags", "[\"t\"]", &["1", "\"t\"", "{\"t\": \"u\"}", "[1]", "[[\"t\"]]"]),
        ("test_messages", "[{\"message\": \"abc\"}]", &["1", "\"abc\"", "[\"abc\"]", "{\"message\": \"abc\"}", "[{\"message\": 1}]", "[{\"message\": \"abc\", \"values\": [\"a\"]}]", "[{\"message\": \"abc\", \"values\": {\"a\": 1}}]", "[{\"message\": \"abc\", \"tags\": \"a\"}]", "[{\"message\": \"abc\", \"tags\": [1]}]", "[{}]"]),
    ];
    let bad = choice(F.len() + 1);
    let mut s = String::from("{\"patterns\": [{");
    for (i, f) in F.iter().enumerate() {
        if i > 0 { s.push_str(", "); }
        quote(&mut s, f.0);
        s.push_str(": ");
        s.push_str(if i == bad { f.2[choice(f.2.len())] } else { f.1 });
    }
    s.push_str("}]}");
    let got = load(param(0), &s);
    observe(got.is_some() as u64);
    cover(if bad == F.len() { 1 } else { 2 });
    check(got.is_some() == (bad == F.len()), 1);
}
/// The identifier is read from its 36 characters. params: format, where the arbitrary characters begin, how many
pub fn h_uuid() {
    let at = param(1) + choice(param(2));
    let c = bytes(1)[0];
    assume(plain(c));
    let mut u = UUID.as_bytes().to_vec();
    let dash = u[at] == b'-';
    u[at] = c;
    let mut s = String::from("{\"patterns\": [{\"uuid\": \"");
    unsafe { s.as_mut_vec() }.extend_from_slice(&u);
    s.push_str("\", \"pattern\": \"abc\"}]}");
    let hex = ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
    let got = load(param(0), &s);
    observe(got.is_some() as u64);
    if dash { check(got.is_some() == (c == b'-'), 1); cover(3); return; }
    if c == b'-' { check(got.is_none(), 4); return; }
    cover(if hex { 1 } else { 2 });
    check(got.is_some() == hex, 2);
    if let Some(g) = got {
        let v = if c <= b'9' { c - b'0' } else { (c | 0x20) - b'a' + 10 };
        let k = (0..at).filter(|&i| UUID.as_bytes()[i] != b'-').count();
        let b = g.patterns()[0].uuid().as_bytes()[k / 2];
        observe(b as u64);
        check(if k % 2 == 0 { b >> 4 == v } else { b & 15 == v }, 3);
    }
}
/// Several patterns keep their order and their contents. params: format (0 JSON, 1 YAML), patterns
pub fn h_file() {
    let n = choice(param(1) + 1);
    let mut s = String::from("{\"patterns\": [");
    let mut texts = vec![];
    // they may have the same identifier
    let own = choice(2);
    for i in 0..n {
        let v = bytes(1);
        assume(plain(v[0]) && v[0] != b'%');
        let t = unsafe { String::from_utf8_unchecked(v) };
        if i > 0 { s.push_str(", "); }
        s.push_str("{\"pattern\": ");
        quote(&mut s, &t);
        s.push_str(", \"uuid\": \"9a49c47d-29e9-4072-be84-3b76c681470");
        s.push((b'0' + (i * own) as u8) as char);
        s.push_str("\", \"name\": \"");
        s.push((b'0' + i as u8) as char);
        s.push_str("\"}");
        texts.push(t);
    }
    s.push_str("]}");
    match load(param(0), &s) {
        None => check(false, 1),
        Some(f) => {
            cover(if n > 1 { 1 } else { 2 });
            check(f.patterns().len() == n, 2);
            for (i, p) in f.patterns().iter().enumerate() {
                check(p.uuid().as_bytes()[15] as usize == i * own, 3);
                check(p.name().map_or(false, |n| n.as_bytes() == [b'0' + i as u8]), 8);
                match &p.pattern()[0] { TokenType::Literal(l) => check(same(l, &texts[i]), 4), _ => check(false, 5) }
            }
            // the stream of patterns yields each of them once
            let mut seen = vec![0; n];
            let mut k = 0;
            for p in f { match p { Ok(p) => { seen[(p.name().unwrap().as_bytes()[0] - b'0') as usize] += 1; k += 1; } Err(_) => check(false, 6) } }
            check(k == n && seen.iter().all(|&c| c == 1), 7);
        }
    }
}
/// Text which is not a document at all never loads and never crashes the loader: a document with a window of arbitrary bytes.
/// params: format, window bytes
pub fn h_garbage() {
    let doc = if param(0) == 0 { "{\"patterns\": [{\"uuid\": \"9a49c47d-29e9-4072-be84-3b76c6814743\", \"pattern\": \"a%{INT:n}\"}]}" } else { "patterns:\n  - uuid: 9a49c47d-29e9-4072-be84-3b76c6814743\n    pattern: \"a%{INT:n}\"\n" };
    let d = doc.as_bytes();
    let at = choice(d.len() - param(1) + 1);
    let hole = string(param(1));
    let mut b = d[..at].to_vec();
    b.extend_from_slice(hole.as_bytes());
    b.extend_from_slice(&d[at + param(1)..]);
    let s = unsafe { String::from_utf8_unchecked(b) };
    let got = load(param(0), &s);
    observe(got.is_some() as u64);
    cover(if got.is_some() { 1 } else { 2 });
}
