use crate::h_big::any_len;
use crate::oracle::*;
use crate::sym::*;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::MatcherFactory;
use actiondb::parsers::*;
use actiondb::Matcher;

pub fn check_parser(p: &dyn Parser, name: Option<&str>, text: &str, want: Option<usize>) {
    let got = p.parse(text);
    observe(got.is_some() as u64);
    check(p.name() == name, 1);
    match (&got, want) {
        (None, None) => cover(1),
        (Some(g), Some(n)) => {
            cover(2);
            observe(g.value().len() as u64);
            check(g.value().len() == n, 3);
            check(same(g.value(), &text[..n]), 4);
            check(g.parser().name() == name, 5);
        }
        _ => check(false, 2),
    }
}
/// params: message bytes, set bytes
pub fn h_set() {
    let s = string_upto(param(1));
    let text = string_upto(param(0));
    let (min, max) = (any_len(), any_len());
    let mut p = SetParser::with_name("n".to_string(), &s);
    p.set_min_length(min);
    p.set_max_length(max);
    check_parser(&p, Some("n"), &text, set_match(&s, min, max, &text));
}
pub fn h_int() {
    let text = string_upto(param(0));
    let (min, max) = (any_len(), any_len());
    let mut p = IntParser::new();
    p.set_min_length(min);
    p.set_max_length(max);
    check_parser(&p, None, &text, set_match("0123456789", min, max, &text));
}
pub fn h_greedy() {
    let text = string_upto(param(0));
    let mut p = GreedyParser::with_name("g".to_string());
    if choice(2) == 0 {
        check_parser(&p, Some("g"), &text, Some(text.len()));
    } else {
        let n = 1 + choice(param(1));
        let end = string(n);
        p.set_end_string(Some(end.clone()));
        check_parser(&p, Some("g"), &text, greedy_match(Some(&end), &text));
    }
}

fn any_tok(prev_lit: bool, names: &[&'static str], k: usize, litlen: usize) -> Tok {
    match choice(if prev_lit { 4 } else { 5 }) {
        0 => Tok::Set(Some(names[k]), "ab".to_string(), None, None),
        1 => Tok::Int(None, Some(1), Some(2)),
        2 => Tok::Greedy(Some(names[k])),
        3 => Tok::Set(Some(names[k]), "b1\u{e9}".to_string(), Some(2), None),
        _ => { let n = 1 + choice(litlen); Tok::Lit(string(n)) }
    }
}
/// one pattern of any shape. params: message bytes, tokens, literal bytes
pub fn h_single() {
    let n = 1 + choice(param(1));
    let mut t: Toks = vec![];
    for k in 0..n {
        let prev = matches!(t.last(), Some(Tok::Lit(_)));
        t.push(any_tok(prev, &["x", "y", "z", "w"], k, param(2)));
    }
    let msg = string_upto(param(0));
    let mut trie = TrieMatcherFactory::new_matcher();
    trie.add_pattern(pattern(0, &t));
    let mut table = SuffixArrayMatcherFactory::new_matcher();
    table.add_pattern(pattern(0, &t));
    let want = matches(&t, &msg);
    let a = Matcher::parse(&trie, &msg);
    observe_result(&a);
    let b = Matcher::parse(&table, &msg);
    observe_result(&b);
    cover(if want.is_some() { 1 } else { 2 });
    check(a.is_some() == want.is_some(), 1);
    check(b.is_some() == want.is_some(), 2);
    if let Some(w) = &want {
        if let Some(a) = &a { check(index_of(a) == 0, 3); check(values_ok(a, &msg, w), 4); }
        if let Some(b) = &b { check(index_of(b) == 0, 5); check(values_ok(b, &msg, w), 6); }
    }
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
/// Values have the names their parsers have, whatever these are. params: bytes of the arbitrary name, bytes of the message
pub fn h_any_name() {
    let n = leak(string_upto(param(0)));
    let tok = |n: &'static str, k: usize| match k { 0 => set(n, "ab"), 1 => int(n), _ => Tok::Greedy(Some(n)) };
    let k = choice(3);
    let mut t: Toks = vec![lit("<"), tok(n, k), lit(".")];
    match choice(4) {
        0 => {}
        1 => { t.push(int("n")); }
        2 => { t.push(tok(n, 1)); }
        _ => { t.push(Tok::Int(None, None, None)); t.push(lit("-")); t.push(Tok::Greedy(Some("a"))); }
    }
    let text = string(param(1));
    let mut msg = format!("<{}.", match k { 0 => "ab", 1 => "12", _ => "" });
    match t.len() { 4 => msg.push('7'), 6 => msg.push_str("7-x"), _ => {} }
    let at = choice(msg.len() - 1) + 1;
    msg.insert_str(at, &text);
    let ps: Vec<(usize, Toks)> = vec![(5, t)];
    for e in 0..2 {
        let mut m = crate::h_hist::engine(e);
        m.add_pattern(pattern(5, &ps[0].1));
        crate::h_hist::is_ref(&*m, &ps, &msg, 10 * e as u32);
    }
}
/// Parsers which differ in nothing but their names, which are much alike. params: bytes of the message
pub fn h_near_names() {
    const N: [&str; 20] = ["a", "A", "aa", "_a", ".a", "a.", "a_", " a", "a ", "", "_", ".", "a\0", "\0a", "\u{e1}", "a1", "a01", "ab", "ba", "a.a"];
    let (x, y) = (N[choice(N.len())], N[choice(N.len())]);
    let k = choice(3);
    let tok = |n: &'static str| match k { 0 => set(n, "ab"), 1 => int(n), _ => Tok::Greedy(Some(n)) };
    let mut p = vec![vec![lit("<"), tok(x), lit(".")], vec![lit("<"), tok(y), lit(".")]];
    match choice(3) {
        0 => { p[0].push(int("n")); p[1].push(set("s", "xyz")); }
        1 => { p[1].push(int("n")); }
        _ => { p[0].push(tok(y)); p[1].push(tok(x)); }
    }
    let text = string(param(0));
    let msg = format!("<{}.{}", ["ab", "12", "12"][k], text);
    let ps: Vec<(usize, Toks)> = p.into_iter().enumerate().collect();
    for e in 0..2 {
        let mut m = crate::h_hist::engine(e);
        for (i, t) in &ps { m.add_pattern(pattern(*i, t)); }
        crate::h_hist::is_ref(&*m, &ps, &msg, 10 * e as u32);
    }
}
