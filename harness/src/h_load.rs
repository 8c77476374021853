//! Loading pattern files: the file name decides the format, and nothing which goes wrong underneath is swallowed.
use crate::sym::*;
use crate::vfs::*;
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, PatternLoader};
use actiondb::Matcher;

const JSON: &str = "{\"patterns\":[{\"uuid\":\"9a49c47d-29e9-4072-be84-3b76c6814743\",\"pattern\":\"a%{INT:n}\"}]}";
const YAML: &str = "patterns:\n  - uuid: 9a49c47d-29e9-4072-be84-3b76c6814743\n    pattern: \"a%{INT:n}\"\n";

fn balanced(code: u32) { let f = fs(); check(f.opened == f.closed, code); check(!f.wrong_path, code + 1); }
/// the outcome of the ways to load a file: Ok(how many patterns answer), or the error
fn load(way: usize, path: &str) -> Result<usize, BuildError> {
    fn hits(m: &dyn Matcher) -> usize { m.parse("a7").is_some() as usize + m.parse("b").is_some() as usize }
    match way {
        0 => PatternLoader::load_file(path).map(|f: PatternFile| f.patterns().len()),
        1 => PatternLoader::from_file::<TrieMatcherFactory>(path).map(|m| hits(&m)),
        2 => PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|m| hits(&m)),
        3 => PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|m| hits(&m)),
        _ => PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|m| hits(&m)),
    }
}
fn saw(r: &Result<usize, BuildError>) {
    observe(match r {
        Ok(n) => *n as u64,
        Err(BuildError::Io(e)) => 1000 + e.raw_os_error().unwrap_or(0) as u64,
        Err(BuildError::DeserJson(_)) => 101,
        Err(BuildError::DeserYaml(_)) => 102,
        Err(BuildError::TestMessage(_)) => 103,
        Err(BuildError::UnsupportedFileExtension) => 104,
        Err(BuildError::NotUtf8FileName) => 105,
    });
}
/// Any end of the file name. params: bytes of it
pub fn h_extension() {
    let end = string_upto(param(0));
    for &b in end.as_bytes() { assume((b != 0) & (b != b'/')); }
    // with something before it, or as the whole name: a dot at the beginning does not begin an extension
    let hidden = choice(2) == 1;
    let mut path = String::from(if hidden { "/vfs/" } else { "/vfs/x" });
    if hidden { assume(end.len() > 2); }
    path.push_str(&end);
    let yaml = choice(2) == 1;
    let way = choice(5);
    reset(&path, if yaml { YAML } else { JSON }.as_bytes().to_vec());
    let b = end.as_bytes();
    let (mut json, mut yml) = (false, false);
    let is = |e: &str| b.len() >= e.len() + hidden as usize && same_bytes(&b[b.len() - e.len()..], e.as_bytes());
    json |= is(".json");
    yml |= is(".yaml") | is(".yml") | is(".YAML") | is(".YML");
    let r = load(way, &path);
    saw(&r);
    match &r {
        Ok(n) => { cover(1); check(*n == 1, 1); check(yml | (json & !yaml), 2); }
        Err(BuildError::UnsupportedFileExtension) => { cover(2); check(!json & !yml, 3); }
        Err(BuildError::DeserJson(_)) => { cover(3); check(json & yaml, 4); }
        Err(_) => check(false, 5),
    }
    balanced(6);
}
/// Any schedule of short reads, interrupted calls and errors. params: events
pub fn h_faults() {
    let yaml = choice(2) == 1;
    let way = choice(5);
    let text = if yaml { YAML } else { JSON };
    let path = if yaml { "/vfs/p.yaml" } else { "/vfs/p.json" };
    reset(path, text.as_bytes().to_vec());
    let f = fs();
    f.open_error = [0, 2, 13, 24, EINTR][choice(5)];
    let open_error = f.open_error;
    f.size_known = choice(2) == 0;
    // from which read on there is one that fails for good
    let mut fatal = 0;
    for _ in 0..choice(param(0) + 1) {
        let e = [1, 7, 64, -EINTR, -EIO, -21][choice(6)];
        f.reads.push(e);
        if e < 0 && e != -EINTR { fatal = -e; break; }
    }
    let r = load(way, path);
    saw(&r);
    // a fault after the last read the file needed is not seen by anyone
    let fatal = if fs().served { fatal } else { 0 };
    match &r {
        Ok(n) => { cover(1); check(open_error == 0 || open_error == EINTR, 1); check(fatal == 0, 2); check(*n == 1, 3); check(fs().pos == text.len(), 9); }
        Err(BuildError::Io(e)) => {
            cover(2);
            if open_error != 0 && open_error != EINTR { check(e.raw_os_error() == Some(open_error), 4); check(fs().opened == 0, 5); }
            else { check(fatal != 0, 6); check(e.raw_os_error() == Some(fatal), 7); }
        }
        Err(_) => check(false, 8),
    }
    balanced(10);
}
/// A file cut short anywhere is not taken for a shorter one. params: none
pub fn h_torn() {
    let yaml = choice(2) == 1;
    let n = choice(JSON.len());
    let way = choice(5);
    if !yaml {
        let path = "/vfs/p.json";
        reset(path, JSON.as_bytes()[..n].to_vec());
        let r = load(way, path);
        saw(&r);
        cover(1);
        match r { Err(BuildError::DeserJson(_)) => {} _ => check(false, 1) }
    } else {
        assume(n < YAML.len());
        let path = "/vfs/p.yml";
        reset(path, YAML.as_bytes()[..n].to_vec());
        let r = load(way, path);
        saw(&r);
        cover(2);
        // the last character is only the end of the line
        match r {
            Err(BuildError::DeserYaml(_)) => check(n < YAML.len() - 1, 2),
            // "patterns:" alone is a document without patterns
            Ok(k) => if n >= 9 && n <= 12 { check(k == 0, 7) } else { check(n == YAML.len() - 1, 3); check(k == 1, 4) },
            _ => check(false, 5),
        }
    }
    balanced(8);
}
/// Bytes which are no UTF-8 are refused, whatever they look like. params: arbitrary bytes in the file
pub fn h_bytes() {
    let raw = bytes(param(0));
    for &b in &raw { assume((b >= 0x20) & (b != b'"') & (b != b'\\')); }
    let way = choice(5);
    let mut c = b"{\"patterns\":[{\"uuid\":\"9a49c47d-29e9-4072-be84-3b76c6814743\",\"pattern\":\"b\",\"name\":\"".to_vec();
    c.extend_from_slice(&raw);
    c.extend_from_slice(b"\"}]}");
    let path = "/vfs/p.json";
    reset(path, c);
    let good = utf8(&raw);
    let r = load(way, path);
    saw(&r);
    match r {
        Ok(n) => { cover(1); check(n == 1, 1); check(good, 2) }
        Err(BuildError::Io(e)) => { cover(2); check(e.kind() == std::io::ErrorKind::InvalidData, 3); check(!good, 4) }
        Err(_) => check(false, 5),
    }
    balanced(6);
}
/// well-formed UTF-8, by the table of the Unicode standard
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |k: usize| k < b.len() && b[k] & 0xc0 == 0x80;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 { i += 1; }
        else if c < 0xc2 { return false; }
        else if c < 0xe0 { if !cont(i + 1) { return false; } i += 2; }
        else if c < 0xf0 {
            if !cont(i + 1) || !cont(i + 2) { return false; }
            if (c == 0xe0 && b[i + 1] < 0xa0) || (c == 0xed && b[i + 1] >= 0xa0) { return false; }
            i += 3;
        } else if c < 0xf5 {
            if !cont(i + 1) || !cont(i + 2) || !cont(i + 3) { return false; }
            if (c == 0xf0 && b[i + 1] < 0x90) || (c == 0xf4 && b[i + 1] >= 0x90) { return false; }
            i += 4;
        } else { return false; }
    }
    true
}
/// A pattern whose test message fails: the strict way says so, the lenient way keeps the pattern.
/// params: bytes of the test message
pub fn h_load_tests() {
    let way = 1 + choice(4);
    let yaml = choice(2) == 1;
    let m = bytes(param(0));
    for &b in &m { assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\')); }
    let mut s = String::from("{\"patterns\": [{\"uuid\": \"9a49c47d-29e9-4072-be84-3b76c6814743\", \"pattern\": \"a%{INT:n}\", \"test_messages\": [{\"message\": \"");
    unsafe { s.as_mut_vec() }.extend_from_slice(&m);
    s.push_str("\"}]}, {\"uuid\": \"9a49c47d-29e9-4072-be84-3b76c6814744\", \"pattern\": \"b\"}]}");
    let path = if yaml { "/vfs/p.yaml" } else { "/vfs/p.json" };
    reset(path, s.into_bytes());
    let mut good = m.len() > 1 && m[0] == b'a';
    for i in 1..m.len() { good &= (m[i] >= b'0') & (m[i] <= b'9'); }
    let r = load(way, path);
    saw(&r);
    match r {
        Ok(n) => { cover(1); check(n == 2, 1); check(good | (way > 2), 2); }
        Err(BuildError::TestMessage(_)) => { cover(2); check(!good, 3); check(way <= 2, 4); }
        Err(_) => check(false, 5),
    }
    balanced(6);
}

/// A large file, read in pieces: all of it is loaded. params: patterns, arbitrary bytes
pub fn h_load_big() {
    let n = param(0);
    let yaml = choice(2) == 1;
    let path = if yaml { "/vfs/big.yml" } else { "/vfs/big.json" };
    let t = bytes(param(1));
    for &b in &t { assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') & (b != b'%')); }
    let mut s = String::from("{\"patterns\": [");
    for i in 0..n {
        if i > 0 { s.push_str(",\n "); }
        s.push_str(&format!("{{\"name\": \"pattern number {}\", \"uuid\": \"9a49c47d-29e9-4072-be84-3b76c681{:04x}\", \"tags\": [\"a tag of the pattern\", \"and another, longer one, so that the file gets large\"], \"pattern\": \"{}:", i, i, i));
        if i + 1 == n { unsafe { s.as_mut_vec() }.extend_from_slice(&t); }
        s.push_str("%{GREEDY:rest}\"}");
    }
    s.push_str("]}\n");
    let len = s.len();
    reset(path, s.into_bytes());
    let f = fs();
    f.size_known = choice(2) == 0;
    match choice(4) {
        0 => {}
        1 => for k in 0..40 { f.reads.push([1, 511, 64, 1000][k % 4]); },
        2 => for k in 0..10 { f.reads.push([4096, -EINTR][k % 2]); },
        _ => { f.reads.push(8191); f.reads.push(2); }
    }
    match PatternLoader::load_file(path) {
        Ok(p) => {
            cover(1);
            check(p.patterns().len() == n, 1);
            check(fs().pos == len, 2);
            for (i, p) in p.patterns().iter().enumerate() {
                let b = p.uuid().as_bytes();
                check(b[15] as usize + 256 * b[14] as usize == i, 3);
                check(p.pattern().len() == 2, 4);
                check(p.tags().map_or(0, |t| t.len()) == 2, 5);
            }
            observe(p.patterns().len() as u64);
        }
        Err(_) => check(false, 6),
    }
    balanced(7);
}

/// Any bytes before, after or between the parts of the document. params: how many
pub fn h_around() {
    let yaml = choice(2) == 1;
    let text = if yaml { YAML } else { JSON };
    let path = if yaml { "/vfs/p.yml" } else { "/vfs/p.json" };
    let any = string_upto(param(0));
    // (JSON reads a number with floating point arithmetic)
    if !yaml { for &b in any.as_bytes() { assume((b < b'0') | (b > b'9')); } }
    // (for JSON: after the opening bracket of the list, too)
    let at = [0, text.len(), 13][choice(if yaml { 2 } else { 3 })];
    let mut s = text[..at].to_string();
    s.push_str(&any);
    s.push_str(&text[at..]);
    reset(path, s.clone().into_bytes());
    let r = load(0, path);
    saw(&r);
    if yaml {
        // as the document itself is read
        let want = serde_yaml::from_str::<PatternFile>(&s);
        match (&r, &want) { (Ok(n), Ok(f)) => { cover(1); check(*n == f.patterns().len(), 1) } (Err(BuildError::DeserYaml(_)), Err(_)) => cover(2), _ => check(false, 2) }
    } else {
        let mut blank = true;
        for &b in any.as_bytes() { blank &= (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r'); }
        match &r { Ok(n) => { cover(3); check(blank, 3); check(*n == 1, 4) } Err(BuildError::DeserJson(_)) => { cover(4); check(!blank, 5) } Err(_) => check(false, 6) }
    }
    balanced(7);
}

/// Each pattern of a file is in the database, whatever the others are. params: patterns at most
pub fn h_load_db() {
    const P: [(&str, &str); 4] = [("a", "a"), ("b%{INT:n}", "b7"), ("a%{INT}c", "a7c"), ("%{GREEDY:g}z", "yz")];
    const U: [&str; 2] = ["9a49c47d-29e9-4072-be84-3b76c6814743", "fa8bdbcb-e0fd-4da1-9fa4-15ecfec28ad2"];
    let way = 1 + choice(4);
    let yaml = choice(2) == 1;
    let mut s = String::from("{\"patterns\": [");
    let mut there: Vec<(usize, usize)> = vec![];
    for i in 0..choice(param(0) + 1) {
        let (p, u, n) = (choice(4), choice(2), choice(3));
        if i > 0 { s.push_str(", "); }
        s.push_str("{\"pattern\": \""); s.push_str(P[p].0); s.push_str("\", \"uuid\": \""); s.push_str(U[u]); s.push('"');
        if n > 0 { s.push_str(["", ", \"name\": \"same\"", ", \"name\": \"\", \"tags\": [], \"values\": {}"][n]); }
        s.push('}');
        there.push((p, u));
    }
    s.push_str("]}");
    let path = if yaml { "/vfs/p.yaml" } else { "/vfs/p.json" };
    reset(path, s.into_bytes());
    fn ask(m: &dyn Matcher, there: &[(usize, usize)]) {
        cover(1);
        for (k, p) in P.iter().enumerate() {
            let r = m.parse(p.1);
            observe(r.is_some() as u64);
            match r {
                None => check(there.iter().all(|t| t.0 != k), 1),
                Some(r) => {
                    cover(2);
                    let u = r.pattern().uuid().hyphenated().to_string();
                    check(there.iter().any(|t| t.0 == k && U[t.1] == u), 2);
                }
            }
        }
    }
    let ok = match way {
        1 => PatternLoader::from_file::<TrieMatcherFactory>(path).map(|m| ask(&m, &there)).is_ok(),
        2 => PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|m| ask(&m, &there)).is_ok(),
        3 => PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|m| ask(&m, &there)).is_ok(),
        _ => PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|m| ask(&m, &there)).is_ok(),
    };
    check(ok, 3);
    balanced(4);
}
