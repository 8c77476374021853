//! symx: bounded symbolic execution of the compiled program's LLVM IR, decided by Z3.
mod exec;
mod expr;
mod ir;
mod smt;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

/// set while a path is being executed: what the engine cannot do then ends that path, undecided, and not the run
pub static IN_PATH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Cannot(pub String);
pub fn engine_error(msg: &str) -> ! {
    if IN_PATH.load(Ordering::Relaxed) { std::panic::panic_any(Cannot(msg.to_string())); }
    eprintln!("symx: ENGINE ERROR: {}", msg);
    std::process::exit(2)
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(code: i32) -> !;
}

struct Out { f: std::io::BufWriter<std::fs::File>, viol: u64 }

fn record(x: &mut Exec, out: &mut Out, end: &End, st: &State) {
    let (k, code) = match end {
        End::Ok => ("OK", String::new()),
        End::Panic(s) => ("PANIC", s.clone()),
        End::Assert(c) => ("ASSERT", c.to_string()),
        End::Assumed => { x.st.assumed += 1; return; }
        End::Limit(w) => ("LIMIT", w.to_string()),
        End::Undecided(w) => ("UNDECIDED", w.lines().take(3).collect::<Vec<_>>().join(" | ").replace('\t', " ")),
    };
    x.st.paths += 1;
    if k != "OK" && k != "UNDECIDED" { out.viol += 1; }
    let inp: String = st.model.iter().map(|b| format!("{:02x}", b)).collect();
    let obs: Vec<String> = st.observes.iter().map(|v| match v { Val::C(c) => format!("{:x}", c), Val::S(e) => format!("{:x}", x.cx.eval(*e, &st.model)), _ => "?".into() }).collect();
    let cov: Vec<String> = st.covers.iter().map(|c| c.to_string()).collect();
    let _ = writeln!(out.f, "P\t{}\t{}\t{}\t{}\t{}\t{}", k, code, inp, obs.join(","), cov.join(","), st.steps);
}

fn drive(x: &mut Exec, out: &mut Out, st: &mut State) {
    IN_PATH.store(true, Ordering::Relaxed);
    let end = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.run(st))) {
        Ok(e) => e,
        Err(e) => End::Undecided(match e.downcast_ref::<Cannot>() { Some(c) => c.0.clone(), None => e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }),
    };
    IN_PATH.store(false, Ordering::Relaxed);
    for (e, s) in std::mem::take(&mut x.pending) { record(x, out, &e, &s); }
    record(x, out, &end, st);
}

fn dbg_set(x: &Exec) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for (id, h) in x.hits.iter().enumerate() {
        if h.is_empty() { continue; }
        let f = x.m.func(id as u32);
        let mut i = 0;
        while i < h.len() {
            if h[i] {
                let mut j = i;
                loop {
                    if f.dbg[j] != 0 { s.insert(f.dbg[j]); }
                    if matches!(f.insts[j], Inst::Br(_) | Inst::CondBr(..) | Inst::Switch(..) | Inst::Ret(_) | Inst::Unreachable) { break; }
                    j += 1;
                    if j >= h.len() { break; }
                }
            }
            i += 1;
        }
    }
    s
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let mut from = 0;
    while let Some(p) = l[from..].find(k) {
        let p = from + p;
        if p > 0 && matches!(l.as_bytes()[p - 1], b' ' | b'(') { 
            let r = &l[p + k.len()..];
            return Some(if r.starts_with('"') { &r[1..1 + r[1..].find('"').unwrap()] } else { &r[..r.find(|c| c == ',' || c == ')').unwrap_or(r.len())] });
        }
        from = p + 1;
    }
    None
}
fn mref(s: Option<&str>) -> Option<u32> { s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()) }

struct Locs<'a> { m: &'a Module, memo: HashMap<u32, (String, String)> }
impl<'a> Locs<'a> {
    fn meta(&self, n: u32) -> Option<String> { self.m.meta.get(&n).map(|&l| String::from_utf8_lossy(self.m.line(l)).into_owned()) }
    fn file(&self, n: u32) -> String {
        let l = match self.meta(n) { Some(l) => l, None => return String::new() };
        let f = field(&l, "filename: ").unwrap_or("").to_string();
        let d = field(&l, "directory: ").unwrap_or("").to_string();
        if f.starts_with('/') || d.is_empty() { f } else { format!("{}/{}", d, f) }
    }
    fn scope(&mut self, n: u32) -> (String, String) { // (file, function)
        if let Some(r) = self.memo.get(&n) { return r.clone(); }
        let l = match self.meta(n) { Some(l) => l, None => return (String::new(), String::new()) };
        let r = if l.contains("!DISubprogram(") {
            let file = mref(field(&l, "file: ")).map(|f| self.file(f)).unwrap_or_default();
            let mut name = field(&l, "name: ").unwrap_or("").to_string();
            // qualify with the enclosing scopes
            let mut s = mref(field(&l, "scope: "));
            let mut quals = vec![];
            while let Some(k) = s {
                let l2 = match self.meta(k) { Some(l) => l, None => break };
                if l2.contains("!DIFile(") || l2.contains("!DICompileUnit") { break; }
                if let Some(n2) = field(&l2, "name: ") { quals.push(n2.to_string()); }
                s = mref(field(&l2, "scope: "));
            }
            quals.reverse();
            quals.push(std::mem::take(&mut name));
            (file, quals.join("::"))
        } else {
            let (f0, fn0) = mref(field(&l, "scope: ")).map(|s| self.scope(s)).unwrap_or_default();
            let f1 = mref(field(&l, "file: ")).map(|f| self.file(f)).unwrap_or(f0);
            (f1, fn0)
        };
        self.memo.insert(n, r.clone());
        r
    }
    /// the chain of source positions, innermost first
    fn chain(&mut self, mut d: u32) -> Vec<(String, String, u32)> {
        let mut v = vec![];
        while d != 0 {
            let l = match self.meta(d) { Some(l) => l, None => break };
            let line = field(&l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(s) = mref(field(&l, "scope: ")) { let (f, n) = self.scope(s); v.push((f, n, line)); }
            d = mref(field(&l, "inlinedAt: ")).unwrap_or(0);
        }
        v
    }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { engine_error("usage: symx IR ENTRY OUT [--workers N] [--time S] [--steps N] [--dump FILE] [--src PREFIX] [--trace]"); }
    let (ll, entry, outp) = (&args[1], &args[2], &args[3]);
    let mut workers = 8;
    let mut limit = 600u64;
    let mut src = "/repo/src".to_string();
    let mut dump: Option<String> = None;
    let mut maxviol = 6u64;
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|i| if !IN_PATH.load(Ordering::Relaxed) { eprintln!("symx: {}", i) }));
    let mut x = Exec::new(Module::load(ll));
    let mut i = 4;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--workers" => workers = v.parse().unwrap(),
            "--time" => limit = v.parse().unwrap(),
            "--steps" => x.max_steps = v.parse().unwrap(),
            "--src" => src = v,
            "--dump" => dump = Some(v),
            "--param" => x.params = v.split(',').filter(|p| !p.is_empty()).map(|p| p.parse().unwrap()).collect(),
            "--maxviol" => maxviol = v.parse().unwrap(),
            "--trace" => { x.trace = true; i += 1; continue; }
            o => engine_error(&format!("option {}", o)),
        }
        i += 2;
    }
    let load_s = t0.elapsed().as_secs_f64();
    let mut out = Out { f: std::io::BufWriter::new(std::fs::File::create(outp).unwrap_or_else(|e| engine_error(&e.to_string()))), viol: 0 };
    if let Some(d) = &dump {
        x.smt.dump = Some(std::fs::File::create(d).unwrap_or_else(|e| engine_error(&e.to_string())));
        x.smt.dump_left = 400;
        x.smt.dump_every = 7;
    }
    // Each process works depth first; while fewer than `workers` are running, one with
    // work to spare forks and gives the older half of its pending states away.
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let at = |i: usize| -> &'static AtomicU64 { unsafe { &*(sh.add(64 * i) as *const AtomicU64) } };
    let (active, files_n, vio, fail) = (at(0), at(1), at(2), at(3));
    active.store(1, Ordering::SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0) };
    let mut child = false;
    let mut last = Instant::now();
    let mut next = Some(x.start(entry));
    while let Some(mut st) = next {
        let before = out.viol;
        drive(&mut x, &mut out, &mut st);
        if out.viol > before { vio.fetch_add(out.viol - before, Ordering::SeqCst); }
        if vio.load(Ordering::SeqCst) >= maxviol || fail.load(Ordering::SeqCst) != 0 { break; }
        if t0.elapsed().as_secs() > limit { fail.store(3, Ordering::SeqCst); break; }
        if x.work.len() >= 2 && active.load(Ordering::Relaxed) < workers as u64 && last.elapsed().as_millis() >= 20 {
            last = Instant::now();
            if active.fetch_add(1, Ordering::SeqCst) >= workers as u64 { active.fetch_sub(1, Ordering::SeqCst); }
            else {
                let id = files_n.fetch_add(1, Ordering::SeqCst);
                out.f.flush().unwrap();
                let half = x.work.len() / 2;
                let pid = unsafe { fork() };
                if pid < 0 { engine_error("fork"); }
                if pid == 0 {
                    child = true;
                    x.st = XStats::default();
                    x.smt.st = Default::default();
                    x.smt.dump = None;
                    x.clear_ext();
                    x.work.truncate(half);
                    out = Out { f: std::io::BufWriter::new(std::fs::File::create(format!("{}.w{}", outp, id)).unwrap()), viol: 0 };
                } else { x.work.drain(..half); }
            }
        }
        next = x.work.pop();
    }
    if child {
        finish(&mut x, &mut out);
        active.fetch_sub(1, Ordering::SeqCst);
        unsafe { _exit(0) }
    }
    active.fetch_sub(1, Ordering::SeqCst);
    loop {
        let mut stt = 0;
        if unsafe { waitpid(-1, &mut stt, 0) } < 0 { break; }
        if stt != 0 && fail.load(Ordering::SeqCst) == 0 { fail.store(if stt & 0x7f == 0 { 1 + (stt >> 8) as u64 * 1000 } else { 200 + (stt & 0x7f) as u64 }, Ordering::SeqCst); }
    }
    let timeout = fail.load(Ordering::SeqCst) == 3;
    match fail.load(Ordering::SeqCst) { 0 | 3 => {} n => engine_error(&format!("worker failed ({})", n)) }
    let stopped = vio.load(Ordering::SeqCst) >= maxviol;
    let mut files: Vec<String> = (0..files_n.load(Ordering::SeqCst)).map(|i| format!("{}.w{}", outp, i)).collect();
    finish(&mut x, &mut out);
    drop(out);
    // merge
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut hits: BTreeSet<u32> = BTreeSet::new();
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut exts: BTreeMap<String, u64> = BTreeMap::new();
    let mut panics: BTreeMap<String, u64> = BTreeMap::new();
    files.insert(0, outp.clone());
    let merged = format!("{}.paths", outp);
    let mut mf = std::io::BufWriter::new(std::fs::File::create(&merged).unwrap());
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "P" => {
                    *kinds.entry(p[1].into()).or_insert(0) += 1;
                    if p[1] == "PANIC" { *panics.entry(p[2].into()).or_insert(0) += 1; }
                    for c in p[5].split(',').filter(|c| !c.is_empty()) { *covers.entry(c.into()).or_insert(0) += 1; }
                    let _ = writeln!(mf, "{}", l);
                }
                "S" => { let v: u64 = p[2].parse().unwrap(); let e = tot.entry(p[1].into()).or_insert(0); if p[1].starts_with("max") { *e = (*e).max(v) } else { *e += v } }
                "H" => for h in p[1].split(',').filter(|c| !c.is_empty()) { hits.insert(h.parse().unwrap()); },
                "X" => *exts.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                _ => {}
            }
        }
        let _ = std::fs::remove_file(f);
    }
    mf.flush().unwrap();
    let mut lc = Locs { m: &x.m, memo: HashMap::new() };
    let mut funcs: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for h in hits { for (f, n, l) in lc.chain(h) { if f.starts_with(&src) && l > 0 { funcs.entry(format!("{} {}", &f[src.len()..].trim_start_matches('/'), n)).or_default().insert(l); } } }
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"entry\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2}, \"workers\": {}, \"stopped_early\": {}, \"timeout\": {},\n", js(entry), load_s, t0.elapsed().as_secs_f64(), workers, stopped, timeout));
    let jm = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str(&format!(" \"stats\": {},\n \"ends\": {},\n \"covers\": {},\n \"externals\": {},\n", jm(&tot), jm(&kinds), jm(&covers), jm(&exts)));
    let pl: Vec<String> = panics.keys().map(|k| {
        let mut w = k.split(' ');
        let callee = w.next().unwrap_or("");
        let ids = w.next().unwrap_or("");
        let mut loc = String::new();
        for id in ids.split(',') { for (f, n, l) in lc.chain(id.parse().unwrap_or(0)) { if loc.is_empty() && f.starts_with(&src) { loc = format!("{}:{} in {}", f, l, n); } } }
        format!("{{\"key\": {}, \"callee\": {}, \"at\": {}}}", js(k), js(callee), js(&loc))
    }).collect();
    o.push_str(&format!(" \"panics\": [{}],\n", pl.join(", ")));
    o.push_str(&format!(" \"functions\": {{{}}}\n}}\n", funcs.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())).collect::<Vec<_>>().join(", ")));
    std::fs::write(outp, o).unwrap();
}

fn finish(x: &mut Exec, o: &mut Out) {
    let s = x.st.clone();
    let q = x.smt.st.clone();
    for (k, v) in [("steps", s.steps), ("forks", s.forks), ("paths", s.paths), ("assumed_away", s.assumed), ("asserts_symbolic", s.asserts_sym), ("asserts_decided", s.asserts_conc), ("max_depth", s.max_depth),
        ("concretised", s.concretised), ("queries", q.queries), ("queries_sat", q.sat), ("queries_unsat", q.unsat), ("queries_cached", q.cached), ("queries_undecided", q.unknown), ("solver_us", q.time_us), ("max_query_us", q.max_us)] {
        let _ = writeln!(o.f, "S\t{}\t{}", k, v);
    }
    let h: Vec<String> = dbg_set(x).iter().map(|h| h.to_string()).collect();
    let _ = writeln!(o.f, "H\t{}", h.join(","));
    for (k, v) in x.ext_summary() { let _ = writeln!(o.f, "X\t{}\t{}", k, v); }
    o.f.flush().unwrap();
}
