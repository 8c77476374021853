//! Harnesses: each one calls the real library on symbolic inputs and compares what it
//! does with the reference semantics in oracle.rs.
mod oracle;
mod sym;
mod vfs;
mod h_api;
mod h_big;
mod h_db;
mod h_deser;
mod h_errors;
mod h_grammar;
mod h_hist;
mod h_huge;
mod h_load;
mod h_match;
mod h_source;
mod h_utils;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[cfg(not(feature = "native"))] #[no_mangle] #[inline(never)] pub extern "C" fn $f() { $m::$f() })*
        #[cfg(not(feature = "native"))]
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
        #[cfg(feature = "native")]
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
table! {
    h_api::h_pattern_api, h_api::h_parser_api, h_api::h_parser_same, h_api::h_pattern_long,
    h_big::h_set_big, h_big::h_set_hole, h_big::h_greedy_big, h_big::h_prefix_big, h_big::h_sorted_big, h_big::h_flatten_big, h_big::h_many, h_big::h_repeat_big, h_big::h_clone_big, h_big::h_order_big, h_big::h_sorted_many,
    h_db::h_lits, h_db::h_empty, h_db::h_letters, h_db::h_shapes, h_db::h_lpl, h_db::h_pool, h_db::h_cross, h_db::h_cross_all, h_db::h_whole, h_db::h_logs, h_db::h_carry,
    h_deser::h_keys, h_deser::h_file_text, h_deser::h_doc_text, h_deser::h_doc, h_deser::h_types, h_deser::h_uuid, h_deser::h_file, h_deser::h_garbage,
    h_errors::h_error_text, h_errors::h_error_grammar, h_errors::h_error_build,
    h_grammar::h_grammar_any, h_grammar::h_grammar_hole, h_grammar::h_grammar_long, h_grammar::h_factory,
    h_hist::h_clone, h_hist::h_monotone, h_hist::h_order_lits, h_hist::h_order_pool, h_hist::h_near_wide, h_hist::h_near, h_hist::h_text, h_hist::h_repeat,
    h_huge::h_huge, h_huge::h_ask, h_huge::h_buffer, h_huge::h_buffer_one,
    h_load::h_extension, h_load::h_faults, h_load::h_torn, h_load::h_bytes, h_load::h_load_tests, h_load::h_load_big, h_load::h_around, h_load::h_load_db,
    h_match::h_set, h_match::h_int, h_match::h_greedy, h_match::h_single, h_match::h_any_name, h_match::h_near_names,
    h_source::h_validate, h_source::h_source, h_source::h_messages, h_source::h_validate_big, h_source::h_source_big, h_source::h_source_long,
    h_utils::h_sorted, h_utils::h_prefix, h_utils::h_flatten, h_utils::h_sorted_long,
}

#[cfg(not(feature = "native"))]
fn main() {
    // never executed: it keeps the entries alive
    let n = std::env::args().count();
    if n < ENTRIES.len() { std::hint::black_box(ENTRIES[n].1)(); }
}

#[cfg(feature = "native")]
fn main() {
    // one run per line: ENTRY PARAMS INPUT(hex); answers: KIND CODE OBSERVED
    use std::io::{BufRead, Write};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use sym::ext::{Rec, Stop, REC};
    let verbose = std::env::args().nth(1).map_or(false, |a| a == "-v");
    if !verbose { std::panic::set_hook(Box::new(|_| {})); }
    let work = move || {
        let out = std::io::stdout();
        let mut out = std::io::BufWriter::new(out.lock());
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let w: Vec<&str> = line.split('\t').collect();
            let f = ENTRIES.iter().find(|e| e.0 == w[0]).expect("entry").1;
            let params = w[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let input = (0..w[2].len() / 2).map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap()).collect();
            REC.with(|r| *r.borrow_mut() = Rec { input, params, ..Rec::default() });
            let r = catch_unwind(AssertUnwindSafe(f));
            let (obs, failed) = REC.with(|r| { let r = r.borrow(); (r.obs.clone(), r.failed) });
            let (k, c) = match r {
                Ok(()) => ("OK", String::new()),
                Err(e) => if e.is::<Stop>() { match failed { Some(c) => ("ASSERT", c.to_string()), None => ("ASSUMED", String::new()) } } else {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ("PANIC", m.replace(|c: char| c.is_control(), " "))
                },
            };
            let o: Vec<String> = obs.iter().map(|v| format!("{:x}", v)).collect();
            writeln!(out, "{}\t{}\t{}", k, c, o.join(",")).unwrap();
            if verbose { out.flush().unwrap(); }
        }
    };
    // deep recursion is part of some harnesses
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
