//! Symbolic execution of LLVM IR: states, memory, instructions, externals.
use crate::engine_error;
use crate::expr::*;
use crate::ir::*;
use crate::smt::Smt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(E), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E>, pub nsym: u32 }

impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: vec![], nsym: 0 } }
    #[inline]
    fn s(&self, i: usize) -> E { if self.sym.is_empty() { 0 } else { self.sym[i] } }
    fn set_c(&mut self, i: usize, v: u8) { self.data[i] = v; if !self.sym.is_empty() && self.sym[i] != 0 { self.sym[i] = 0; self.nsym -= 1; } }
    fn set_s(&mut self, i: usize, e: E) {
        if self.sym.is_empty() { self.sym = vec![0; self.data.len()]; }
        if self.sym[i] == 0 { self.nsym += 1; }
        self.sym[i] = e;
    }
}

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub pc: u32, pub regs: Vec<Val>, pub fobj: u32, pub ret: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub globs: HashMap<u32, Rc<Obj>>,
    pub dom: Vec<Set>,
    pub multi: Vec<E>,
    pub model: Vec<u8>,
    pub observes: Vec<Val>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub forks: u32,
}

pub enum End { Ok, Panic(String), Assert(u32), Assumed, Limit(&'static str), Undecided(String) }

#[derive(Default, Clone, Debug)]
pub struct XStats { pub steps: u64, pub forks: u64, pub paths: u64, pub assumed: u64, pub asserts_sym: u64, pub asserts_conc: u64, pub max_depth: u64, pub concretised: u64 }

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub smt: Smt,
    pub work: Vec<State>,
    pub st: XStats,
    pub max_steps: u64,
    pub params: Vec<u64>,
    cglobs: RefCell<HashMap<u32, Rc<Obj>>>,
    pub hits: Vec<Vec<bool>>, // per function: block starts entered
    ext_hits: HashMap<String, u64>,
    errno: u64,
    pub pending: Vec<(End, State)>,
    pub trace: bool,
}

enum Ctl { Next, Jumped, End(End) }

const ALL: Set = [!0; 4];

fn cmask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

impl Exec {
    pub fn new(m: Module) -> Exec {
        let mut cx = Ctx::new();
        cx.konst(0, 1); // id 0 reserved: "concrete byte"
        Exec { m, cx, smt: Smt::new(), work: vec![], st: XStats::default(), max_steps: 200_000_000, params: vec![], cglobs: RefCell::new(HashMap::new()), hits: vec![],
               ext_hits: HashMap::new(), errno: 0, pending: vec![], trace: false }
    }
    pub fn start(&mut self, name: &str) -> State {
        let id = *self.m.fidx.get(name).unwrap_or_else(|| engine_error(&format!("no entry point {}", name)));
        let f = self.m.func(id);
        let mut st = State { top: Frame { f: f.clone(), pc: 0, regs: vec![Val::C(0); f.nregs as usize], fobj: u32::MAX, ret: None }, stack: vec![], objs: vec![], free: vec![],
            globs: HashMap::new(), dom: vec![], multi: vec![], model: vec![], observes: vec![], covers: vec![], steps: 0, forks: 0 };
        let e = self.alloc(&mut st, 8);
        self.errno = e;
        if f.frame > 0 { let a = self.alloc(&mut st, f.frame as usize); st.top.fobj = ((a - OBJ_BASE) >> OBJ_SHIFT) as u32; }
        self.hit(&f, 0);
        st
    }
    fn hit(&mut self, f: &Func, pc: u32) {
        let id = f.id as usize;
        if self.hits.len() <= id { self.hits.resize(self.m.funcs.len(), vec![]); }
        if self.hits[id].is_empty() { self.hits[id] = vec![false; f.insts.len()]; }
        self.hits[id][pc as usize] = true;
    }
    fn die(&self, st: &State, msg: &str) -> ! {
        let mut s = format!("{}\n", msg);
        let mut push = |fr: &Frame| {
            let ln = fr.f.lines.get(fr.pc as usize).cloned().unwrap_or(0);
            s.push_str(&format!("  in {} @{}: {}\n", fr.f.name, ln + 1, String::from_utf8_lossy(&self.m.line(ln as usize)[..self.m.line(ln as usize).len().min(200)])));
        };
        push(&st.top);
        for f in st.stack.iter().rev().take(12) { push(f); }
        engine_error(&s)
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u64 {
        if n >= 1 << OBJ_SHIFT { self.die(st, &format!("allocation of {} bytes", n)); }
        let o = Some(Rc::new(Obj::new(n)));
        let id = match st.free.pop() { Some(i) => { st.objs[i as usize] = o; i } None => { st.objs.push(o); (st.objs.len() - 1) as u32 } };
        OBJ_BASE + ((id as u64) << OBJ_SHIFT)
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) {
        if addr == 0 { return; }
        if addr < OBJ_BASE || addr & ((1 << OBJ_SHIFT) - 1) != 0 { self.die(st, "free of a non-heap pointer"); }
        let id = ((addr - OBJ_BASE) >> OBJ_SHIFT) as u32;
        if st.objs.get(id as usize).map_or(true, |o| o.is_none()) { self.die(st, "double free"); }
        st.objs[id as usize] = None;
        st.free.push(id);
    }
    fn obj<'a>(&self, st: &'a State, addr: u64, n: usize) -> (Rc<Obj>, usize) {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let o = if addr >= OBJ_BASE {
            let id = ((addr - OBJ_BASE) >> OBJ_SHIFT) as usize;
            match st.objs.get(id) { Some(Some(o)) => o.clone(), _ => self.die(st, &format!("access to dead object at {:#x}", addr)) }
        } else if addr >= GLOB_BASE {
            let g = ((addr - GLOB_BASE) >> OBJ_SHIFT) as u32;
            if g as usize >= self.m.globals.len() { self.die(st, &format!("wild pointer {:#x}", addr)); }
            if let Some(o) = st.globs.get(&g) { o.clone() } else {
                let mut cg = self.cglobs.borrow_mut();
                cg.entry(g).or_insert_with(|| {
                    let d = self.m.global_bytes(g);
                    Rc::new(Obj { data: d, sym: vec![], nsym: 0 })
                }).clone()
            }
        } else { self.die(st, &format!("wild pointer {:#x} ({} bytes)", addr, n)) };
        if off + n > o.data.len() { self.die(st, &format!("out of bounds access: {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())); }
        (o, off)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> (&'a mut Obj, usize) {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        {
            if addr >= OBJ_BASE {
                let id = ((addr - OBJ_BASE) >> OBJ_SHIFT) as usize;
                match st.objs.get(id) { Some(Some(o)) => if off + n > o.data.len() { self.die(st, &format!("out of bounds write: {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())) }, _ => self.die(st, &format!("write to dead object {:#x}", addr)) }
                return (Rc::make_mut(st.objs[id].as_mut().unwrap()), off);
            }
        }
        if addr < GLOB_BASE { self.die(st, &format!("wild write {:#x}", addr)); }
        let g = ((addr - GLOB_BASE) >> OBJ_SHIFT) as u32;
        if g as usize >= self.m.globals.len() || self.m.globals[g as usize].konst { self.die(st, "write to constant"); }
        if !st.globs.contains_key(&g) { let d = self.m.global_bytes(g); st.globs.insert(g, Rc::new(Obj { data: d, sym: vec![], nsym: 0 })); }
        let len = st.globs[&g].data.len();
        if off + n > len { self.die(st, "out of bounds write to a global"); }
        (Rc::make_mut(st.globs.get_mut(&g).unwrap()), off)
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        // borrow without cloning the Rc on the fast path
        if addr >= OBJ_BASE {
            let id = ((addr - OBJ_BASE) >> OBJ_SHIFT) as usize;
            let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
            if let Some(Some(o)) = st.objs.get(id) {
                if off + n <= o.data.len() && o.nsym == 0 && w <= 64 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    return Val::C(u64::from_le_bytes(b) & cmask(w));
                }
            }
        }
        let (o, off) = self.obj(st, addr, n);
        self.load_obj(&o, off, w)
    }
    fn load_obj(&mut self, o: &Obj, off: usize, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let anysym = o.nsym > 0 && (0..n).any(|i| o.s(off + i) != 0);
        if !anysym {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
            v &= mask(w);
            return if w <= 64 { Val::C(v as u64) } else { Val::S(self.cx.konst(v, w)) };
        }
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = if o.s(off + i) != 0 { o.s(off + i) } else { self.cx.konst(o.data[off + i] as u128, 8) };
            e = Some(match e { None => b, Some(l) => self.cx.concat(b, l) });
        }
        let e = e.unwrap();
        let e = if self.cx.w(e) > w { self.cx.extract(e, w - 1, 0) } else { e };
        self.norm(e)
    }
    fn norm(&self, e: E) -> Val { match self.cx.as_const(e) { Some(c) if self.cx.w(e) <= 64 => Val::C(c as u64), _ => Val::S(e) } }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(x) => {
                let (o, off) = self.obj_mut(st, addr, n);
                if o.nsym == 0 && n <= 8 { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
                else { for i in 0..n { o.set_c(off + i, if i < 8 { (x >> (8 * i)) as u8 } else { 0 }); } }
            }
            Val::S(e) => {
                let e = if self.cx.w(*e) < (n as u32) * 8 { self.cx.zext(*e, (n as u32) * 8) } else { *e };
                let mut parts = Vec::with_capacity(n);
                for i in 0..n { parts.push(self.cx.extract(e, (i as u32) * 8 + 7, (i as u32) * 8)); }
                let cs: Vec<Option<u128>> = parts.iter().map(|&p| self.cx.as_const(p)).collect();
                let (o, off) = self.obj_mut(st, addr, n);
                for i in 0..n { match cs[i] { Some(c) => o.set_c(off + i, c as u8), None => o.set_s(off + i, parts[i]) } }
            }
            Val::A(_) => self.die(st, "aggregate stored as int"),
        }
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_int(st, addr, ty.bits()),
            Ty::Vec(n, t) => {
                let w = t.bits();
                if w % 8 != 0 {
                    let x = self.load_int(st, addr, *n as u32 * w);
                    return self.split(&x, *n as u32, w);
                }
                let v = (0..*n).map(|i| self.load_int(st, addr + (i as u64) * (w as u64 / 8), w)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Struct(f, _) => { let v = (0..f.len()).map(|i| { let o = ty.field_off(i); self.load(st, addr + o as u64, &f[i]) }).collect(); Val::A(Rc::new(v)) }
            Ty::Arr(n, t) => { let s = t.size(); let v = (0..*n).map(|i| self.load(st, addr + (i * s) as u64, t)).collect(); Val::A(Rc::new(v)) }
            _ => self.die(st, "load type"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => self.store_int(st, addr, ty.bits(), v),
            (Ty::Vec(n, t), Val::A(l)) => {
                let w = t.bits();
                if w % 8 != 0 { let x = self.join(l, w); self.store_int(st, addr, *n as u32 * w, &x); return; }
                for i in 0..*n { self.store_int(st, addr + (i as u64) * (w as u64 / 8), w, &l[i]); }
            }
            (Ty::Struct(f, _), Val::A(l)) => for i in 0..f.len() { let o = ty.field_off(i); self.store(st, addr + o as u64, &f[i], &l[i]); },
            (Ty::Arr(n, t), Val::A(l)) => for i in 0..*n { self.store(st, addr + (i * t.size()) as u64, t, &l[i]); },
            _ => self.die(st, "store type"),
        }
    }
    fn split(&mut self, x: &Val, n: u32, w: u32) -> Val {
        let e = self.ex(x, n * w);
        let v = (0..n).map(|i| { let p = self.cx.extract(e, i * w + w - 1, i * w); self.norm(p) }).collect();
        Val::A(Rc::new(v))
    }
    fn join(&mut self, l: &[Val], w: u32) -> Val {
        if l.iter().all(|v| matches!(v, Val::C(_))) && l.len() as u32 * w <= 64 {
            let mut r = 0u64;
            for (i, v) in l.iter().enumerate() { if let Val::C(x) = v { r |= x << (i as u32 * w); } }
            return Val::C(r);
        }
        let mut e: Option<E> = None;
        for v in l { let b = self.ex(v, w); e = Some(match e { None => b, Some(lo) => self.cx.concat(b, lo) }); }
        self.norm(e.unwrap())
    }
    pub fn ex(&mut self, v: &Val, w: u32) -> E { match v { Val::C(x) => self.cx.konst(*x as u128, w), Val::S(e) => { debug_assert_eq!(self.cx.w(*e), w); *e } Val::A(_) => engine_error("aggregate as int") } }

    // ---------- path conditions ----------
    fn add(&mut self, st: &mut State, e: E) {
        match self.cx.n(e).clone() {
            Node::Const(1) => {}
            Node::Const(_) => engine_error("adding false"),
            Node::In(v, s) => { let d = &mut st.dom[v as usize]; for i in 0..4 { d[i] &= s[i]; } }
            Node::Bin(B::And, a, b) => { self.add(st, a); self.add(st, b); }
            Node::Not(x) => {
                if let Node::Bin(B::Or, a, b) = *self.cx.n(x) { let a = self.cx.not(a); let b = self.cx.not(b); self.add(st, a); self.add(st, b); }
                else if !st.multi.contains(&e) { st.multi.push(e); }
            }
            _ => if !st.multi.contains(&e) { st.multi.push(e); },
        }
    }
    /// is (path condition and e) satisfiable?  On success returns the full model.
    fn feasible(&mut self, st: &State, e: E) -> Option<Vec<u8>> {
        if let Some(c) = self.cx.as_const(e) { return if c == 1 { Some(st.model.clone()) } else { None }; }
        let mut vm = self.cx.vars[e as usize];
        let mut cs = vec![e];
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.multi.iter().enumerate() {
                if !used[i] && self.cx.vars[c as usize] & vm != 0 { used[i] = true; ch = true; vm |= self.cx.vars[c as usize]; cs.push(c); }
            }
            if !ch { break; }
        }
        for v in 0..128u32 {
            if vm >> v & 1 == 1 && st.dom[v as usize] != ALL {
                let i = self.cx.in_set(v, st.dom[v as usize]);
                cs.push(i);
            }
        }
        // canonical single-variable form
        if cs.len() == 2 {
            let c = self.cx.bin(B::And, cs[0], cs[1]);
            if let Some(k) = self.cx.as_const(c) { if k == 0 { return None; } }
            cs = vec![c];
        }
        let r = self.smt.check(&self.cx, &mut cs)?;
        let mut m = st.model.clone();
        for (v, x) in r { m[v as usize] = x; }
        Some(m)
    }
    /// Decide a one-bit value; forks the other side from the (still unmodified) current state.
    fn decide(&mut self, st: &mut State, c: &Val) -> bool {
        let e = match c { Val::C(x) => return *x & 1 == 1, Val::S(e) => *e, Val::A(_) => self.die(st, "branch on aggregate") };
        if let Some(k) = self.cx.as_const(e) { return k == 1; }
        let v = self.cx.eval(e, &st.model) == 1;
        let ne = self.cx.not(e);
        let (this, other) = if v { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, other) {
            let mut s2 = st.clone();
            s2.model = m;
            s2.forks += 1;
            self.add(&mut s2, other);
            self.work.push(s2);
            self.st.forks += 1;
            st.forks += 1;
            self.add(st, this);
        }
        v
    }
    /// Make a value concrete by forking over its possible values.
    fn concretise(&mut self, st: &mut State, v: &Val, w: u32) -> u64 {
        let e = match v { Val::C(x) => return *x, Val::S(e) => *e, Val::A(_) => self.die(st, "concretise aggregate") };
        if let Some(k) = self.cx.as_const(e) { return k as u64; }
        let x = self.cx.eval(e, &st.model);
        let k = self.cx.konst(x, w);
        let q = self.cx.cmp(P::Eq, e, k);
        self.st.concretised += 1;
        let q = self.norm(q);
        let r = self.decide(st, &q);
        assert!(r);
        x as u64
    }
    pub fn fresh(&mut self, st: &mut State) -> E {
        let v = st.dom.len() as u32;
        st.dom.push(ALL);
        st.model.push(0);
        self.cx.var(v)
    }

    // ---------- operands ----------
    #[inline]
    fn get(&mut self, st: &State, o: &Op) -> Val {
        match o { Op::Reg(r) => st.top.regs[*r as usize].clone(), Op::K(k) => Val::C(*k), Op::C(c, t) => self.cv(c, t) }
    }
    fn cv(&mut self, c: &Cv, t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => { let x = match c { Cv::Int(x) => *x, _ => 0 }; Val::S(self.cx.konst(x, *w)) }
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Val::C(match c { Cv::Int(x) => *x as u64, _ => 0 }),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match t { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 };
                let v = (0..n).map(|i| { let et = t.elem(i); match c {
                    Cv::Agg(l) => self.cv(&l[i], &et),
                    Cv::Splat(s) => self.cv(s, &et),
                    Cv::Bytes(b) => Val::C(b[i] as u64),
                    _ => self.cv(&Cv::Zero, &et),
                } }).collect();
                Val::A(Rc::new(v))
            }
            _ => engine_error("constant type"),
        }
    }
    fn bin1(&mut self, op: B, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = cmask(w);
            let r = match op {
                B::Add => x.wrapping_add(y), B::Sub => x.wrapping_sub(y), B::Mul => x.wrapping_mul(y),
                B::And => x & y, B::Or => x | y, B::Xor => x ^ y,
                B::Shl => if y >= w as u64 { 0 } else { x << y },
                B::LShr => if y >= w as u64 { 0 } else { x >> y },
                _ => fold(op, x as u128, y as u128, w) as u64,
            };
            return Val::C(r & m);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.cx.bin(op, x, y);
        self.norm(r)
    }
    fn cmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x as u128, w) as i64, sext(y as u128, w) as i64);
            return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.cx.cmp(P::Eq, x, y),
            Pred::Ne => { let e = self.cx.cmp(P::Eq, x, y); self.cx.not(e) }
            Pred::Ult => self.cx.cmp(P::Ult, x, y), Pred::Ugt => self.cx.cmp(P::Ult, y, x),
            Pred::Ule => self.cx.cmp(P::Ule, x, y), Pred::Uge => self.cx.cmp(P::Ule, y, x),
            Pred::Slt => self.cx.cmp(P::Slt, x, y), Pred::Sgt => self.cx.cmp(P::Slt, y, x),
            Pred::Sle => self.cx.cmp(P::Sle, x, y), Pred::Sge => self.cx.cmp(P::Sle, y, x),
        };
        self.norm(r)
    }
    fn zip(&mut self, n: u32, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, &Val, &Val) -> Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => { let v = (0..n as usize).map(|i| f(self, &x[i], &y[i])).collect(); Val::A(Rc::new(v)) }
            _ => engine_error("vector operand"),
        }
    }
    fn ite_val(&mut self, c: E, ty: &Ty, a: &Val, b: &Val) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let (Val::A(x), Val::A(y)) = (a, b) { let v = (0..x.len()).map(|i| { let t = ty.elem(i); self.ite_val(c, &t, &x[i], &y[i]) }).collect(); Val::A(Rc::new(v)) }
                else { engine_error("select aggregate") }
            }
            _ => { let w = ty.bits(); let x = self.ex(a, w); let y = self.ex(b, w); let r = self.cx.ite(c, x, y); self.norm(r) }
        }
    }

    // ---------- run one state until it ends ----------
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            st.steps += 1;
            self.st.steps += 1;
            if st.steps > self.max_steps { return End::Limit("steps"); }
            let f: *const Func = &*st.top.f;
            // SAFETY: the Rc<Func> stays alive in the module's cache for the whole run
            let f: &Func = unsafe { &*f };
            let inst = &f.insts[st.top.pc as usize];
            if self.trace { eprintln!("{}:{} {}", f.name, f.lines[st.top.pc as usize] + 1, String::from_utf8_lossy(self.m.line(f.lines[st.top.pc as usize] as usize))); }
            match self.step(st, f, inst) {
                Ctl::Next => st.top.pc += 1,
                Ctl::Jumped => {}
                Ctl::End(e) => return e,
            }
        }
    }
    fn jump(&mut self, st: &mut State, f: &Func, e: u32) {
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => { let v = self.get(st, &ed.moves[0].1); st.top.regs[ed.moves[0].0 as usize] = v; }
            _ => {
                let vs: Vec<Val> = ed.moves.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vs) { st.top.regs[*d as usize] = v; }
            }
        }
        st.top.pc = ed.target;
        self.hit(f, ed.target);
    }
    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) { st.top.regs[d as usize] = v; }

    fn step(&mut self, st: &mut State, f: &Func, inst: &Inst) -> Ctl {
        match inst {
            Inst::Bin(op, vt, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let (op, w) = (*op, vt.w);
                let r = if vt.n == 0 { self.bin1(op, w, &a, &b) } else { self.zip(vt.n, &a, &b, &mut |s, x, y| s.bin1(op, w, x, y)) };
                self.set(st, *d, r);
            }
            Inst::Icmp(p, vt, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let (p, w) = (*p, vt.w);
                let r = if vt.n == 0 { self.cmp1(p, w, &a, &b) } else { self.zip(vt.n, &a, &b, &mut |s, x, y| s.cmp1(p, w, x, y)) };
                self.set(st, *d, r);
            }
            Inst::Cast(k, from, to, d, a) => {
                let a = self.get(st, a);
                let r = self.cast(*k, *from, *to, &a);
                self.set(st, *d, r);
            }
            Inst::Copy(d, a) => { let a = self.get(st, a); self.set(st, *d, a); }
            Inst::Select(ty, cvt, d, c, a, b) => {
                let (c, a, b) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let r = if cvt.n == 0 {
                    match c {
                        Val::C(x) => if x & 1 == 1 { a } else { b },
                        Val::S(e) => self.ite_val(e, ty, &a, &b),
                        _ => self.die(st, "select"),
                    }
                } else {
                    match (&c, &a, &b) {
                        (Val::A(cc), Val::A(x), Val::A(y)) => {
                            let t = ty.elem(0);
                            let v = (0..cc.len()).map(|i| match &cc[i] { Val::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, Val::S(e) => self.ite_val(*e, &t, &x[i], &y[i]), _ => engine_error("select") }).collect();
                            Val::A(Rc::new(v))
                        }
                        _ => self.die(st, "vector select"),
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Gep(d, base, off, idx) => {
                let b = self.get(st, base);
                let mut r = self.bin1(B::Add, 64, &b, &Val::C(*off as u64));
                for (o, w, sc) in idx {
                    let v = self.get(st, o);
                    let v = match v { Val::C(x) => Val::C(sext(x as u128, *w) as u64), Val::S(e) => { let x = self.cx.sext_e(e, 64); self.norm(x) } _ => self.die(st, "gep") };
                    let v = self.bin1(B::Mul, 64, &v, &Val::C(*sc as u64));
                    r = self.bin1(B::Add, 64, &r, &v);
                }
                self.set(st, *d, r);
            }
            Inst::Load(d, ty, p) => {
                let p = self.get(st, p);
                let r = match p {
                    Val::C(a) => self.load(st, a, ty),
                    Val::S(e) => match self.table_load(st, e, ty) {
                        Some(v) => v,
                        None => { let a = self.concretise(st, &p, 64); self.load(st, a, ty) }
                    },
                    _ => self.die(st, "load"),
                };
                self.set(st, *d, r);
            }
            Inst::Store(ty, v, p) => {
                let p = self.get(st, p);
                let a = self.concretise(st, &p, 64);
                let v = self.get(st, v);
                self.store(st, a, ty, &v);
            }
            Inst::Alloca(d, off) => { let a = OBJ_BASE + ((st.top.fobj as u64) << OBJ_SHIFT) + off; self.set(st, *d, Val::C(a)); }
            Inst::Br(e) => { self.jump(st, f, *e); return Ctl::Jumped; }
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let t = self.decide(st, &c);
                self.jump(st, f, if t { *a } else { *b });
                return Ctl::Jumped;
            }
            Inst::Switch(w, v, cases, de) => {
                let v = self.get(st, v);
                match v {
                    Val::C(x) => {
                        let e = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*de);
                        self.jump(st, f, e);
                        return Ctl::Jumped;
                    }
                    Val::S(x) => {
                        let mut order: Vec<u32> = vec![];
                        for c in cases { if !order.contains(&c.1) { order.push(c.1); } }
                        for t in order {
                            let mut q = self.cx.fls();
                            for c in cases.iter().filter(|c| c.1 == t) {
                                let k = self.cx.konst(c.0 as u128, *w);
                                let eq = self.cx.cmp(P::Eq, x, k);
                                q = self.cx.bin(B::Or, q, eq);
                            }
                            let q = self.norm(q);
                            if self.decide(st, &q) { self.jump(st, f, t); return Ctl::Jumped; }
                        }
                        self.jump(st, f, *de);
                        return Ctl::Jumped;
                    }
                    _ => self.die(st, "switch"),
                }
            }
            Inst::Ret(v) => {
                let v = match v { Some(o) => Some(self.get(st, o)), None => None };
                if st.top.fobj != u32::MAX { let a = OBJ_BASE + ((st.top.fobj as u64) << OBJ_SHIFT); self.dealloc(st, a); }
                let ret = st.top.ret;
                match st.stack.pop() {
                    None => return Ctl::End(End::Ok),
                    Some(fr) => {
                        st.top = match Rc::try_unwrap(fr) { Ok(f) => f, Err(r) => (*r).clone() };
                        if let (Some(d), Some(v)) = (ret, v) { self.set(st, d, v); }
                        st.top.pc += 1;
                        return Ctl::Jumped;
                    }
                }
            }
            Inst::Call { dst, callee, args, tys, rty, noreturn } => return self.call(st, *dst, callee, args, tys, rty, *noreturn),
            Inst::ExtractValue(d, a, p) => {
                let mut v = self.get(st, a);
                for &i in p { v = match v { Val::A(l) => l[i as usize].clone(), _ => self.die(st, "extractvalue") }; }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, a, b, p) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                fn ins(a: &Val, b: Val, p: &[u32]) -> Val {
                    if p.is_empty() { return b; }
                    match a { Val::A(l) => { let mut n = (**l).clone(); n[p[0] as usize] = ins(&l[p[0] as usize], b, &p[1..]); Val::A(Rc::new(n)) } _ => engine_error("insertvalue") }
                }
                let r = ins(&a, b, p);
                self.set(st, *d, r);
            }
            Inst::ExtractElem(d, a, i) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concretise(st, &i, 64) as usize;
                let r = match a { Val::A(l) => l[i].clone(), _ => self.die(st, "extractelement") };
                self.set(st, *d, r);
            }
            Inst::InsertElem(d, a, b, i) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let i = self.get(st, i);
                let i = self.concretise(st, &i, 64) as usize;
                let r = match a { Val::A(l) => { let mut n = (*l).clone(); n[i] = b; Val::A(Rc::new(n)) } _ => self.die(st, "insertelement") };
                self.set(st, *d, r);
            }
            Inst::Shuffle(d, a, b, m, n) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let r = match (a, b) {
                    (Val::A(x), Val::A(y)) => Val::A(Rc::new(m.iter().map(|&i| if i < *n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect())),
                    _ => self.die(st, "shuffle"),
                };
                self.set(st, *d, r);
            }
            Inst::AtomicRmw(op, ty, d, p, v) => {
                let p = self.get(st, p);
                let a = self.concretise(st, &p, 64);
                let v = self.get(st, v);
                let w = ty.bits();
                let old = self.load_int(st, a, w);
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(B::Add, w, &old, &v),
                    "sub" => self.bin1(B::Sub, w, &old, &v),
                    "and" => self.bin1(B::And, w, &old, &v),
                    "or" => self.bin1(B::Or, w, &old, &v),
                    "xor" => self.bin1(B::Xor, w, &old, &v),
                    _ => self.die(st, "atomicrmw"),
                };
                self.store_int(st, a, w, &n);
                self.set(st, *d, old);
            }
            Inst::CmpXchg(ty, d, p, e, n) => {
                let p = self.get(st, p);
                let a = self.concretise(st, &p, 64);
                let (e, n) = (self.get(st, e), self.get(st, n));
                let w = ty.bits();
                let old = self.load_int(st, a, w);
                let eq = self.cmp1(Pred::Eq, w, &old, &e);
                let ok = self.decide(st, &eq);
                if ok { self.store_int(st, a, w, &n); }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            Inst::FBin(op, ty, d, a, b) => {
                let (a, b) = (self.fget(st, a), self.fget(st, b));
                let r = if *ty == Ty::F32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match op.as_str() { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, "fneg" => -x, _ => x % y }).to_bits() as u64
                } else {
                    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                    (match op.as_str() { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, "fneg" => -x, _ => x % y }).to_bits()
                };
                self.set(st, *d, Val::C(r));
            }
            Inst::Fcmp(p, ty, d, a, b) => {
                let (a, b) = (self.fget(st, a), self.fget(st, b));
                let (x, y) = if *ty == Ty::F32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un,
                    "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, "true" => true, _ => false };
                self.set(st, *d, Val::C(r as u64));
            }
            Inst::FCast(op, from, to, d, a) => {
                let a = self.fget(st, a);
                let getf = |t: &Ty| if *t == Ty::F32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) };
                let putf = |x: f64, t: &Ty| if *t == Ty::F32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
                let r = match op.as_str() {
                    "sitofp" => { let x = sext(a as u128, from.bits()) as i64; if *to == Ty::F32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() } }
                    "uitofp" => if *to == Ty::F32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
                    "fptosi" => (getf(from) as i64 as u64) & cmask(to.bits()),
                    "fptoui" => (getf(from) as u64) & cmask(to.bits()),
                    _ => putf(getf(from), to),
                };
                self.set(st, *d, Val::C(r));
            }
            Inst::Nop => {}
            Inst::Unreachable => self.die(st, "reached 'unreachable'"),
            Inst::Bad(s) => { let s = s.clone(); self.die(st, &s) }
        }
        Ctl::Next
    }
    fn fget(&mut self, st: &State, o: &Op) -> u64 { match self.get(st, o) { Val::C(x) => x, _ => self.die(st, "floating point on symbolic data") } }
    fn cast(&mut self, k: Cast, from: Vt, to: Vt, a: &Val) -> Val {
        if k == Cast::Bit {
            return match (from.n, to.n) {
                (0, 0) => a.clone(),
                (_, 0) => if let Val::A(l) = a { self.join(l, from.w) } else { engine_error("bitcast") },
                (0, n) => self.split(a, n, to.w),
                (_, n) => { if from == to { return a.clone(); } let j = if let Val::A(l) = a { self.join(l, from.w) } else { engine_error("bitcast") }; self.split(&j, n, to.w) }
            };
        }
        if from.n > 0 {
            let (f1, t1) = (Vt { n: 0, w: from.w }, Vt { n: 0, w: to.w });
            return if let Val::A(l) = a { Val::A(Rc::new(l.iter().map(|x| self.cast(k, f1, t1, x)).collect())) } else { engine_error("cast") };
        }
        if let Val::C(x) = a {
            if to.w <= 64 {
                return Val::C(match k { Cast::Zext => *x, Cast::Sext => sext(*x as u128, from.w) as u64 & cmask(to.w), _ => x & cmask(to.w) });
            }
        }
        let e = self.ex(a, from.w);
        let r = match k { Cast::Zext => self.cx.zext(e, to.w), Cast::Sext => self.cx.sext_e(e, to.w), _ => self.cx.extract(e, to.w - 1, 0) };
        self.norm(r)
    }
    /// load through an address that depends on one input byte only: build the table instead of forking
    fn table_load(&mut self, st: &State, e: E, ty: &Ty) -> Option<Val> {
        let w = match ty { Ty::Int(w) if *w <= 64 => *w, _ => return None };
        let vm = self.cx.vars[e as usize];
        if vm == 0 || vm & (vm - 1) != 0 { return None; }
        let v = vm.trailing_zeros();
        let dom = st.dom[v as usize];
        let mut model = st.model.clone();
        let mut vals = vec![0u128; 256];
        let mut objid: Option<u64> = None;
        let mut last = None;
        for x in 0..256usize {
            if dom[x / 64] >> (x % 64) & 1 == 0 { continue; }
            model[v as usize] = x as u8;
            let a = self.cx.eval(e, &model) as u64;
            let id = a >> OBJ_SHIFT;
            if a < GLOB_BASE { return None; }
            if *objid.get_or_insert(id) != id { return None; }
            let n = ((w + 7) / 8) as u64;
            // stay within one object
            let size = if a >= OBJ_BASE { match st.objs.get(((a - OBJ_BASE) >> OBJ_SHIFT) as usize) { Some(Some(o)) => o.data.len(), _ => return None } }
                else { self.m.globals.get(((a - GLOB_BASE) >> OBJ_SHIFT) as usize)?.size };
            if (a & ((1 << OBJ_SHIFT) - 1)) + n > size as u64 { return None; }
            match self.load_int(st, a, w) { Val::C(c) => { vals[x] = c as u128; last = Some(c as u128); } _ => return None }
        }
        let last = last?;
        for x in 0..256usize { if dom[x / 64] >> (x % 64) & 1 == 0 { vals[x] = last; } }
        let r = self.cx.byte_table(v, &vals, w);
        Some(self.norm(r))
    }

    // ---------- calls ----------
    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[Op], tys: &[Ty], rty: &Ty, noreturn: bool) -> Ctl {
        let mut fid = None;
        let mut ext: Option<String> = None;
        let mut nr = noreturn;
        match callee {
            Callee::Func(f) => fid = Some(*f),
            Callee::Ext(n) => ext = Some(n.clone()),
            Callee::Reg(o) => {
                let v = self.get(st, o);
                let a = self.concretise(st, &v, 64);
                if a >= FUNC_BASE && a < EXT_BASE && ((a - FUNC_BASE) / 16) < self.m.funcs.len() as u64 {
                    let id = ((a - FUNC_BASE) / 16) as u32;
                    nr |= self.m.funcs[id as usize].noreturn;
                    fid = Some(id);
                } else if a >= EXT_BASE && a < GLOB_BASE { ext = Some(self.m.ext_addr.borrow().1[((a - EXT_BASE) / 16) as usize].clone()); }
                else { self.die(st, &format!("call through wild pointer {:#x}", a)); }
            }
        }
        if nr {
            let n = match (&fid, &ext) { (Some(f), _) => self.m.funcs[*f as usize].name.clone(), (_, Some(e)) => e.clone(), _ => String::new() };
            let d = st.top.f.dbg[st.top.pc as usize];
            let mut d = d;
            if d == 0 { for fr in st.stack.iter().rev() { d = fr.f.dbg[fr.pc as usize]; if d != 0 { break; } } }
            // the nearest frames in the code under test
            let mut dl = vec![d];
            for fr in st.stack.iter().rev().take(4) { dl.push(fr.f.dbg[fr.pc as usize]); }
            return Ctl::End(End::Panic(format!("{} {}", n, dl.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))));
        }
        if let Some(f) = fid {
            let func = self.m.func(f);
            let mut regs = vec![Val::C(0); func.nregs as usize];
            for (i, p) in func.params.iter().enumerate() { regs[*p as usize] = self.get(st, &args[i]); }
            if st.stack.len() > 3000 { return Ctl::End(End::Limit("depth")); }
            let fobj = if func.frame > 0 { let a = self.alloc(st, func.frame as usize); ((a - OBJ_BASE) >> OBJ_SHIFT) as u32 } else { u32::MAX };
            let fr = Frame { f: func.clone(), pc: 0, regs, fobj, ret: dst };
            let old = std::mem::replace(&mut st.top, fr);
            st.stack.push(Rc::new(old));
            if st.stack.len() as u64 > self.st.max_depth { self.st.max_depth = st.stack.len() as u64; }
            self.hit(&func, 0);
            return Ctl::Jumped;
        }
        let name = ext.unwrap();
        let a: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
        match self.external(st, &name, &a, tys, rty) {
            Err(e) => Ctl::End(e),
            Ok(v) => { if let (Some(d), Some(v)) = (dst, v) { self.set(st, d, v); } Ctl::Next }
        }
    }
    fn bytes(&mut self, st: &State, addr: u64, n: usize) -> Vec<Val> {
        if n == 0 { return vec![]; }
        let (o, off) = self.obj(st, addr, n);
        (0..n).map(|i| if o.s(off + i) != 0 { Val::S(o.s(off + i)) } else { Val::C(o.data[off + i] as u64) }).collect()
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) {
        if n == 0 || d == s { return; }
        let (so, soff) = self.obj(st, s, n);
        let src_c: Vec<u8> = so.data[soff..soff + n].to_vec();
        let src_s: Vec<E> = if so.nsym > 0 { so.sym[soff..soff + n].to_vec() } else { vec![] };
        drop(so);
        let (o, off) = self.obj_mut(st, d, n);
        if src_s.is_empty() && o.nsym == 0 { o.data[off..off + n].copy_from_slice(&src_c); return; }
        for i in 0..n {
            if !src_s.is_empty() && src_s[i] != 0 { o.set_s(off + i, src_s[i]); } else { o.set_c(off + i, src_c[i]); }
        }
    }
    /// three-way comparison of byte strings without forking
    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: usize) -> Val {
        let (x, y) = (self.bytes(st, a, n), self.bytes(st, b, n));
        let mut r = self.cx.konst(0, 32);
        for i in (0..n).rev() {
            if let (Val::C(p), Val::C(q)) = (&x[i], &y[i]) {
                if p != q { r = self.cx.konst(if p < q { 0xffff_ffff } else { 1 }, 32); }
                continue;
            }
            let (p, q) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
            let eq = self.cx.cmp(P::Eq, p, q);
            let lt = self.cx.cmp(P::Ult, p, q);
            let m1 = self.cx.konst(0xffff_ffff, 32);
            let one = self.cx.konst(1, 32);
            let ne = self.cx.ite(lt, m1, one);
            r = self.cx.ite(eq, r, ne);
        }
        self.norm(r)
    }
    fn bcmp(&mut self, st: &State, a: u64, b: u64, n: usize) -> Val {
        let (x, y) = (self.bytes(st, a, n), self.bytes(st, b, n));
        let mut acc = self.cx.tru();
        for i in 0..n {
            if let (Val::C(p), Val::C(q)) = (&x[i], &y[i]) { if p != q { return Val::C(1); } continue; }
            let (p, q) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
            let eq = self.cx.cmp(P::Eq, p, q);
            acc = self.cx.bin(B::And, acc, eq);
        }
        let z = self.cx.konst(0, 32);
        let one = self.cx.konst(1, 32);
        let r = self.cx.ite(acc, z, one);
        self.norm(r)
    }
    fn utf8_ok(&mut self, b: &[E]) -> E {
        // valid(i) computed backwards
        let n = b.len();
        let mut ok = vec![self.cx.tru(); n + 1];
        for i in (0..n).rev() {
            let rng = |cx: &mut Ctx, e: E, lo: u8, hi: u8| { let l = cx.konst(lo as u128, 8); let h = cx.konst(hi as u128, 8); let a = cx.cmp(P::Ule, l, e); let c = cx.cmp(P::Ule, e, h); cx.bin(B::And, a, c) };
            let mut alts: Vec<E> = vec![];
            let asc = rng(&mut self.cx, b[i], 0, 0x7f);
            alts.push(self.cx.bin(B::And, asc, ok[i + 1]));
            let seqs: &[(u8, u8, u8, u8, usize)] = &[(0xc2, 0xdf, 0x80, 0xbf, 2), (0xe0, 0xe0, 0xa0, 0xbf, 3), (0xe1, 0xec, 0x80, 0xbf, 3), (0xed, 0xed, 0x80, 0x9f, 3), (0xee, 0xef, 0x80, 0xbf, 3),
                (0xf0, 0xf0, 0x90, 0xbf, 4), (0xf1, 0xf3, 0x80, 0xbf, 4), (0xf4, 0xf4, 0x80, 0x8f, 4)];
            for &(l1, h1, l2, h2, len) in seqs {
                if i + len > n { continue; }
                let mut c = rng(&mut self.cx, b[i], l1, h1);
                let x = rng(&mut self.cx, b[i + 1], l2, h2);
                c = self.cx.bin(B::And, c, x);
                for k in 2..len { let x = rng(&mut self.cx, b[i + k], 0x80, 0xbf); c = self.cx.bin(B::And, c, x); }
                alts.push(self.cx.bin(B::And, c, ok[i + len]));
            }
            let mut r = self.cx.fls();
            for a in alts { r = self.cx.bin(B::Or, r, a); }
            ok[i] = r;
        }
        ok[0]
    }
    fn assume(&mut self, st: &mut State, e: E) -> bool {
        if let Some(c) = self.cx.as_const(e) { return c == 1; }
        if self.cx.eval(e, &st.model) != 1 {
            match self.feasible(st, e) { Some(m) => st.model = m, None => return false }
        }
        self.add(st, e);
        true
    }
    fn errno_set(&mut self, st: &mut State, v: u64) { let a = self.errno; self.store_int(st, a, 32, &Val::C(v)); }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], rty: &Ty) -> Result<Option<Val>, End> {
        *self.ext_hits.entry(name.to_string()).or_insert(0) += 1;
        if let Some(r) = name.strip_prefix("llvm.") { return self.intrinsic(st, r, a, tys, rty); }
        let cw = |s: &mut Exec, st: &mut State, i: usize| -> u64 { s.concretise(st, &a[i], tys[i].bits()) };
        Ok(match name {
            "malloc" => { let n = cw(self, st, 0); Some(Val::C(self.alloc(st, n as usize))) }
            "calloc" => { let n = cw(self, st, 0) * cw(self, st, 1); Some(Val::C(self.alloc(st, n as usize))) }
            "posix_memalign" => { let p = cw(self, st, 0); let n = cw(self, st, 2); let o = self.alloc(st, n as usize); self.store_int(st, p, 64, &Val::C(o)); Some(Val::C(0)) }
            "realloc" => {
                let p = cw(self, st, 0);
                let n = cw(self, st, 1) as usize;
                let q = self.alloc(st, n);
                if p != 0 {
                    let id = ((p - OBJ_BASE) >> OBJ_SHIFT) as usize;
                    let old = st.objs[id].as_ref().unwrap_or_else(|| engine_error("realloc of dead object")).data.len();
                    self.memcpy(st, q, p, old.min(n));
                    self.dealloc(st, p);
                }
                Some(Val::C(q))
            }
            "free" => { let p = cw(self, st, 0); self.dealloc(st, p); None }
            "memcmp" => { let (p, q, n) = (cw(self, st, 0), cw(self, st, 1), cw(self, st, 2)); Some(self.memcmp(st, p, q, n as usize)) }
            "bcmp" => { let (p, q, n) = (cw(self, st, 0), cw(self, st, 1), cw(self, st, 2)); Some(self.bcmp(st, p, q, n as usize)) }
            "memcpy" | "memmove" => { let (p, q, n) = (cw(self, st, 0), cw(self, st, 1), cw(self, st, 2)); self.memcpy(st, p, q, n as usize); Some(Val::C(p)) }
            "strlen" => {
                let p = cw(self, st, 0);
                let mut n = 0u64;
                loop {
                    let b = self.load_int(st, p + n, 8);
                    let z = self.cmp1(Pred::Eq, 8, &b, &Val::C(0));
                    if self.decide(st, &z) { break; }
                    n += 1;
                }
                Some(Val::C(n))
            }
            "memchr" => {
                let (p, n) = (cw(self, st, 0), cw(self, st, 2));
                let c = self.cast(Cast::Trunc, Vt { n: 0, w: tys[1].bits() }, Vt { n: 0, w: 8 }, &a[1]);
                let mut r = 0;
                for i in 0..n {
                    let b = self.load_int(st, p + i, 8);
                    let z = self.cmp1(Pred::Eq, 8, &b, &c);
                    if self.decide(st, &z) { r = p + i; break; }
                }
                Some(Val::C(r))
            }
            "memrchr" => {
                let (p, n) = (cw(self, st, 0), cw(self, st, 2));
                let c = self.cast(Cast::Trunc, Vt { n: 0, w: tys[1].bits() }, Vt { n: 0, w: 8 }, &a[1]);
                let mut r = 0;
                for i in (0..n).rev() {
                    let b = self.load_int(st, p + i, 8);
                    let z = self.cmp1(Pred::Eq, 8, &b, &c);
                    if self.decide(st, &z) { r = p + i; break; }
                }
                Some(Val::C(r))
            }
            "__errno_location" => Some(Val::C(self.errno)),
            "getenv" => Some(Val::C(0)),
            "clock_gettime" => { let p = cw(self, st, 1); self.store_int(st, p, 64, &Val::C(1)); self.store_int(st, p + 8, 64, &Val::C(0)); Some(Val::C(0)) }
            "getpid" | "gettid" => Some(Val::C(1)),
            "getauxval" | "sched_yield" | "__cxa_thread_atexit_impl" | "signal" | "sigaction" | "sigaltstack" => Some(Val::C(0)),
            "getrandom" => {
                let (p, n) = (cw(self, st, 0), cw(self, st, 1));
                for i in 0..n { self.store_int(st, p + i, 8, &Val::C((i * 37 + 11) & 0xff)); }
                Some(Val::C(n))
            }
            "__xpg_strerror_r" | "strerror_r" => {
                let (e, p, n) = (cw(self, st, 0) as u32, cw(self, st, 1), cw(self, st, 2));
                let t = match e { 2 => "No such file or directory", 5 => "Input/output error", 13 => "Permission denied", 20 => "Not a directory", 21 => "Is a directory", _ => "Unknown error" };
                for (i, b) in t.bytes().chain([0]).enumerate().take(n as usize) { self.store_int(st, p + i as u64, 8, &Val::C(b as u64)); }
                Some(Val::C(0))
            }
            "write" => { let n = cw(self, st, 2); Some(Val::C(n)) }
            "syscall" => { self.errno_set(st, 38); Some(Val::C(!0)) }
            // ---- harness interface ----
            "sym_bytes" | "sym_str" => {
                let (p, n) = (cw(self, st, 0), cw(self, st, 1));
                let mut v = vec![];
                for i in 0..n { let e = self.fresh(st); v.push(e); self.store_int(st, p + i, 8, &Val::S(e)); }
                if name == "sym_str" {
                    let ok = self.utf8_ok(&v);
                    if !self.assume(st, ok) { return Err(End::Assumed); }
                }
                None
            }
            "sym_choice" => {
                let n = cw(self, st, 0);
                if n == 0 || n > 255 { self.die(st, "sym_choice range"); }
                // the fork re-executes this call, so the variable must be created once: keep it in a register slot
                let e = self.fresh(st);
                let k = self.cx.konst(n as u128, 8);
                let lt = self.cx.cmp(P::Ult, e, k);
                self.add(st, lt);
                // fork here over all values, each successor resuming after the call
                for i in 1..n {
                    let mut s2 = st.clone();
                    let k = self.cx.konst(i as u128, 8);
                    let q = self.cx.cmp(P::Eq, e, k);
                    s2.model[self.cx.vars[e as usize].trailing_zeros() as usize] = i as u8;
                    self.add(&mut s2, q);
                    if let Inst::Call { dst: Some(d), .. } = &s2.top.f.clone().insts[s2.top.pc as usize] { s2.top.regs[*d as usize] = Val::C(i); }
                    s2.top.pc += 1;
                    s2.forks += 1;
                    self.st.forks += 1;
                    self.work.push(s2);
                }
                let z = self.cx.konst(0, 8);
                let q = self.cx.cmp(P::Eq, e, z);
                self.add(st, q);
                Some(Val::C(0))
            }
            "sym_concretize" => { let v = cw(self, st, 0); Some(Val::C(v)) }
            "sym_param" => { let i = cw(self, st, 0) as usize; match self.params.get(i) { Some(&v) => Some(Val::C(v)), None => engine_error("missing --param") } }
            "sym_assume" => {
                let e = self.ex(&a[0], 1);
                if !self.assume(st, e) { return Err(End::Assumed); }
                None
            }
            "sym_assert" => {
                let code = cw(self, st, 1) as u32;
                match &a[0] {
                    Val::C(1) => { self.st.asserts_conc += 1; None }
                    Val::C(_) => return Err(End::Assert(code)),
                    Val::S(e) => {
                        let e = *e;
                        self.st.asserts_sym += 1;
                        let ne = self.cx.not(e);
                        if let Some(m) = self.feasible(st, ne) {
                            let mut s2 = st.clone();
                            s2.model = m;
                            self.add(&mut s2, ne);
                            self.pending.push((End::Assert(code), s2));
                            // continue on the side where it holds, if any
                            if !self.assume(st, e) { return Err(End::Assumed); }
                        }
                        None
                    }
                    _ => self.die(st, "assert"),
                }
            }
            "sym_cover" => { let c = cw(self, st, 0) as u32; if !st.covers.contains(&c) { st.covers.push(c); } None }
            "sym_observe" => { st.observes.push(a[0].clone()); None }
            _ => self.die(st, &format!("call to unmodelled external function {}", name)),
        })
    }
    fn lanes(&mut self, rty: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Exec, u32, &[Val]) -> Val) -> Val {
        match rty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let v = (0..*n).map(|i| { let l: Vec<Val> = a.iter().map(|x| match x { Val::A(l) => l[i].clone(), o => o.clone() }).collect(); f(self, w, &l) }).collect();
                Val::A(Rc::new(v))
            }
            _ => f(self, rty.bits(), a),
        }
    }
    fn ite(&mut self, c: &Val, w: u32, x: &Val, y: &Val) -> Val {
        match c { Val::C(k) => if k & 1 == 1 { x.clone() } else { y.clone() }, Val::S(e) => { let (p, q) = (self.ex(x, w), self.ex(y, w)); let r = self.cx.ite(*e, p, q); self.norm(r) } _ => engine_error("ite") }
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], rty: &Ty) -> Result<Option<Val>, End> {
        let base: String = name.split('.').take_while(|p| !(p.len() > 1 && matches!(p.as_bytes()[0], b'i' | b'p' | b'v' | b'f') && p[1..].bytes().all(|b| b.is_ascii_digit() || b == b'i' || b == b'f' || b == b'p')))
            .collect::<Vec<_>>().join(".");
        Ok(match base.as_str() {
            "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "dbg.value" | "dbg.declare" | "x86.sse2.pause" | "prefetch" | "invariant.start" | "invariant.end" => {
                if *rty == Ty::Void { None } else { Some(Val::C(0)) }
            }
            "memcpy" | "memmove" | "memcpy.inline" => {
                let d = self.concretise(st, &a[0], 64);
                let s = self.concretise(st, &a[1], 64);
                let n = self.concretise(st, &a[2], tys[2].bits());
                self.memcpy(st, d, s, n as usize);
                None
            }
            "memset" | "memset.inline" => {
                let d = self.concretise(st, &a[0], 64);
                let n = self.concretise(st, &a[2], tys[2].bits());
                for i in 0..n { self.store_int(st, d + i, 8, &a[1]); }
                None
            }
            "threadlocal.address" => Some(a[0].clone()),
            "is.constant" => Some(Val::C(0)),
            "expect" | "expect.with.probability" => Some(a[0].clone()),
            "load.relative" => {
                let p = self.concretise(st, &a[0], 64);
                let o = match &a[1] { Val::S(_) => self.concretise(st, &a[1], tys[1].bits()), Val::C(x) => *x, _ => self.die(st, "load.relative") };
                let r = self.load_int(st, p.wrapping_add(o), 32);
                let r = self.concretise(st, &r, 32);
                let d = if r & 0x8000_0000 != 0 { self.m.rel.borrow().get((r & 0x7fff_ffff) as usize).cloned() } else { None };
                match d { Some(d) => Some(Val::C(p.wrapping_add(d as u64))), None => self.die(st, "load.relative: not a table of distances") }
            }
            "umin" | "umax" | "smin" | "smax" => {
                let b = base.clone();
                Some(self.lanes(rty, a, &mut |s, w, v| {
                    let p = match b.as_str() { "umin" => Pred::Ule, "umax" => Pred::Uge, "smin" => Pred::Sle, _ => Pred::Sge };
                    let c = s.cmp1(p, w, &v[0], &v[1]);
                    s.ite(&c, w, &v[0], &v[1])
                }))
            }
            "abs" => Some(self.lanes(rty, a, &mut |s, w, v| { let n = s.bin1(B::Sub, w, &Val::C(0), &v[0]); let c = s.cmp1(Pred::Slt, w, &v[0], &Val::C(0)); s.ite(&c, w, &n, &v[0]) })),
            "ucmp" | "scmp" => {
                let w = tys[0].bits();
                let rw = rty.bits();
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp1(lt, w, &a[0], &a[1]);
                let g = self.cmp1(gt, w, &a[0], &a[1]);
                let x = self.ite(&g, rw, &Val::C(1), &Val::C(0));
                Some(self.ite(&l, rw, &Val::C(cmask(rw)), &x))
            }
            "usub.sat" => Some(self.lanes(rty, a, &mut |s, w, v| { let c = s.cmp1(Pred::Ugt, w, &v[0], &v[1]); let d = s.bin1(B::Sub, w, &v[0], &v[1]); s.ite(&c, w, &d, &Val::C(0)) })),
            "uadd.sat" => Some(self.lanes(rty, a, &mut |s, w, v| { let d = s.bin1(B::Add, w, &v[0], &v[1]); let c = s.cmp1(Pred::Ult, w, &d, &v[0]); s.ite(&c, w, &Val::C(cmask(w)), &d) })),
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let w = tys[0].bits();
                let signed = base.starts_with('s');
                let op = match &base[1..4] { "add" => B::Add, "sub" => B::Sub, _ => B::Mul };
                let r = self.bin1(op, w, &a[0], &a[1]);
                let o = if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    if signed {
                        let (x, y) = (sext(*x as u128, w), sext(*y as u128, w));
                        let t = match op { B::Add => x + y, B::Sub => x - y, _ => x * y };
                        Val::C((t != sext(t as u128 & mask(w), w)) as u64)
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        Val::C(match op { B::Add => x + y > mask(w), B::Sub => x < y, _ => x * y > mask(w) } as u64)
                    }
                } else {
                    let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                    let ww = if op == B::Mul { w * 2 } else { w + 1 };
                    if ww > 128 { self.die(st, "wide overflow check"); }
                    let (x, y) = if signed { (self.cx.sext_e(x, ww), self.cx.sext_e(y, ww)) } else { (self.cx.zext(x, ww), self.cx.zext(y, ww)) };
                    let t = self.cx.bin(op, x, y);
                    let lo = self.cx.extract(t, w - 1, 0);
                    let back = if signed { self.cx.sext_e(lo, ww) } else { self.cx.zext(lo, ww) };
                    let eq = self.cx.cmp(P::Eq, back, t);
                    let ne = self.cx.not(eq);
                    self.norm(ne)
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            "fshl" | "fshr" => {
                let w = rty.bits();
                let k = self.concretise(st, &a[2], w) % w as u64;
                let k = if base == "fshl" { k } else { (w as u64 - k) % w as u64 };
                let r = if base == "fshr" && k == 0 { a[1].clone() } else if k == 0 { a[0].clone() } else {
                    let h = self.bin1(B::Shl, w, &a[0], &Val::C(k));
                    let l = self.bin1(B::LShr, w, &a[1], &Val::C(w as u64 - k));
                    self.bin1(B::Or, w, &h, &l)
                };
                Some(r)
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = rty.bits();
                match &a[0] {
                    Val::C(x) => {
                        let x = *x;
                        Some(Val::C(match base.as_str() {
                            "ctlz" => (x.leading_zeros() + w).wrapping_sub(64) as u64,
                            "cttz" => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                            "ctpop" => x.count_ones() as u64,
                            "bswap" => x.swap_bytes() >> (64 - w),
                            _ => x.reverse_bits() >> (64 - w),
                        }))
                    }
                    Val::S(e) => {
                        let e = *e;
                        let bit = |s: &mut Exec, i: u32| s.cx.extract(e, i, i);
                        let r = match base.as_str() {
                            "cttz" | "ctlz" => {
                                let mut r = self.cx.konst(w as u128, w);
                                for k in 0..w {
                                    // innermost = last candidate
                                    let i = if base == "cttz" { w - 1 - k } else { k };
                                    let b = bit(self, i);
                                    let v = self.cx.konst(if base == "cttz" { i } else { w - 1 - i } as u128, w);
                                    r = self.cx.ite(b, v, r);
                                }
                                r
                            }
                            "ctpop" => { let mut r = self.cx.konst(0, w); for i in 0..w { let b = bit(self, i); let z = self.cx.zext(b, w); r = self.cx.bin(B::Add, r, z); } r }
                            "bswap" => { let mut r: Option<E> = None; for i in 0..w / 8 { let b = self.cx.extract(e, i * 8 + 7, i * 8); r = Some(match r { None => b, Some(h) => self.cx.concat(h, b) }); } r.unwrap() }
                            _ => { let mut r: Option<E> = None; for i in 0..w { let b = bit(self, i); r = Some(match r { None => b, Some(h) => self.cx.concat(h, b) }); } r.unwrap() }
                        };
                        Some(self.norm(r))
                    }
                    _ => self.die(st, "bit intrinsic"),
                }
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" => {
                let op = match base.rsplit('.').next().unwrap() { "or" => B::Or, "and" => B::And, "add" => B::Add, _ => B::Xor };
                let w = rty.bits();
                if let Val::A(l) = &a[0] { let mut r = l[0].clone(); for x in l.iter().skip(1) { r = self.bin1(op, w, &r, x); } Some(r) } else { self.die(st, "reduce") }
            }
            "fptosi.sat" | "fptoui.sat" => {
                let x = match &a[0] { Val::C(x) => *x, _ => self.die(st, "symbolic float") };
                let f = if tys[0] == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let w = rty.bits();
                Some(Val::C(if base == "fptosi.sat" { if w == 64 { f as i64 as u64 } else { f as i32 as u32 as u64 } } else if w == 64 { f as u64 } else { f as u32 as u64 }))
            }
            "fabs" => { let x = match &a[0] { Val::C(x) => *x, _ => self.die(st, "symbolic float") }; Some(Val::C(if tys[0] == Ty::F32 { x & 0x7fff_ffff } else { x & !(1 << 63) })) }
            "trap" => return Err(End::Panic("trap 0".into())),
            _ => self.die(st, &format!("unmodelled intrinsic llvm.{}", name)),
        })
    }
    pub fn clear_ext(&mut self) { self.ext_hits.clear(); }
    pub fn ext_summary(&self) -> Vec<(String, u64)> { let mut v: Vec<_> = self.ext_hits.iter().map(|(k, v)| (k.clone(), *v)).collect(); v.sort(); v }
}
