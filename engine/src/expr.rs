//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P { Eq, Ult, Ule, Slt, Sle }

pub type Set = [u64; 4];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(P, E, E),
    Not(E),
    Ite(E, E, E),
    Extract(E, u32, u32), // hi, lo
    Concat(E, E),         // high, low
    ZExt(E),
    SExt(E),
    /// byte variable `var` lies in the set (canonical form of every single-byte predicate)
    In(u32, Set),
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s }
}
pub fn fold(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        B::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let x = sext(a, w); (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128 }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    r & m
}
pub fn fold_cmp(p: P, a: u128, b: u128, w: u32) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sext(a, w) < sext(b, w),
        P::Sle => sext(a, w) <= sext(b, w),
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    pub vars: Vec<u128>,
    map: HashMap<(Node, u32), E>,
    canon: HashMap<E, E>,
    slices: HashMap<(E, u32, u32), E>,
    /// size of each expression written out as a tree (saturating): how far a rewriting may reach
    size: Vec<u32>,
    eval_memo: Vec<u128>,
    eval_stamp: Vec<u32>,
    stamp: u32,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], width: vec![], vars: vec![], map: HashMap::new(), canon: HashMap::new(), slices: HashMap::new(), size: vec![],
              eval_memo: vec![], eval_stamp: vec![], stamp: 0 }
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n.clone(), w)) { return e; }
        let v = match &n {
            Node::Const(_) => 0,
            Node::Var(i) | Node::In(i, _) => 1u128 << *i,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.vars[*a as usize] | self.vars[*b as usize],
            Node::Not(a) | Node::Extract(a, _, _) | Node::ZExt(a) | Node::SExt(a) => self.vars[*a as usize],
            Node::Ite(c, a, b) => self.vars[*c as usize] | self.vars[*a as usize] | self.vars[*b as usize],
        };
        let id = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.width.push(w);
        self.vars.push(v);
        let sz = |e: &E| self.size[*e as usize];
        let size = match &n {
            Node::Const(_) | Node::Var(_) | Node::In(..) => 1u32,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => 1u32.saturating_add(sz(a)).saturating_add(sz(b)),
            Node::Not(a) | Node::Extract(a, _, _) | Node::ZExt(a) | Node::SExt(a) => 1u32.saturating_add(sz(a)),
            Node::Ite(c, a, b) => 1u32.saturating_add(sz(c)).saturating_add(sz(a)).saturating_add(sz(b)),
        };
        self.size.push(size);
        self.eval_memo.push(0);
        self.eval_stamp.push(0);
        self.map.insert((n, w), id);
        id
    }
    pub fn w(&self, e: E) -> u32 { self.width[e as usize] }
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn as_const(&self, e: E) -> Option<u128> { if let Node::Const(c) = self.nodes[e as usize] { Some(c) } else { None } }
    pub fn konst(&mut self, v: u128, w: u32) -> E { self.mk(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, i: u32) -> E { assert!(i < 128, "too many symbolic bytes (128 max)"); self.mk(Node::Var(i), 8) }
    pub fn tru(&mut self) -> E { self.konst(1, 1) }
    pub fn fls(&mut self) -> E { self.konst(0, 1) }

    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        match self.n(a).clone() {
            Node::Const(c) => self.konst(c ^ 1, 1),
            Node::Not(x) => x,
            Node::In(v, s) => self.mk(Node::In(v, [!s[0], !s[1], !s[2], !s[3]]), 1),
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        assert!(aw < w);
        match self.n(a).clone() {
            Node::Const(c) => self.konst(c, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.mk(Node::ZExt(a), w),
        }
    }
    pub fn sext_e(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a).clone() {
            Node::Const(c) => self.konst(sext(c, aw) as u128, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::SExt(x) => self.sext_e(x, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x = self.sext_e(x, w); let y = self.sext_e(y, w); self.ite(c, x, y)
            }
            _ => self.mk(Node::SExt(a), w),
        }
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let aw = self.w(a);
        assert!(hi >= lo && hi < aw);
        let w = hi - lo + 1;
        if w == aw { return a; }
        if let Some(&r) = self.slices.get(&(a, hi, lo)) { return r; }
        let r = self.slice(a, hi, lo);
        self.slices.insert((a, hi, lo), r);
        r
    }
    fn slice(&mut self, a: E, hi: u32, lo: u32) -> E {
        let w = hi - lo + 1;
        // distributing a slice over a large operation (a hash, say) only multiplies its size
        let small = self.size[a as usize] <= 200;
        match self.n(a).clone() {
            Node::Const(c) => self.konst(c >> lo, w),
            Node::Extract(x, _, l2) => self.extract(x, hi + l2, lo + l2),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if hi < lw { self.extract(l, hi, lo) }
                else if lo >= lw { self.extract(h, hi - lw, lo - lw) }
                else {
                    let hh = self.extract(h, hi - lw, 0);
                    let ll = self.extract(l, lw - 1, lo);
                    self.concat(hh, ll)
                }
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { self.konst(0, w) }
                else if hi < xw { self.extract(x, hi, lo) }
                else { let y = self.extract(x, xw - 1, lo); self.zext(y, w) }
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if hi < xw { self.extract(x, hi, lo) }
                else if lo < xw { let y = self.extract(x, xw - 1, lo); self.sext_e(y, w) }
                else { let y = self.extract(x, xw - 1, xw - 1); self.sext_e(y, w) }
            }
            Node::Bin(op @ (B::And | B::Or | B::Xor), x, y) if small => {
                let x = self.extract(x, hi, lo); let y = self.extract(y, hi, lo);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 && small => {
                let x = self.extract(x, hi, 0); let y = self.extract(y, hi, 0);
                self.bin(op, x, y)
            }
            Node::Ite(c, x, y) if small || self.leaf_const_ite(a, 300) => {
                let x = self.extract(x, hi, lo); let y = self.extract(y, hi, lo);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::Extract(a, hi, lo), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.n(h).clone(), self.n(l).clone()) {
            (Node::Const(a), Node::Const(b)) => return self.konst((a << lw) | b, w),
            (Node::Const(0), _) => return self.zext(l, w),
            (Node::Extract(x, h1, l1), Node::Extract(y, h2, l2)) if x == y && l1 == h2 + 1 => return self.extract(x, h1, l2),
            (Node::Extract(x, h1, l1), _) if x == l && l1 == lw => return self.extract(x, h1, 0),
            _ => {}
        }
        // extract(zext(x)) above x collapses to const 0, handled by the Const(0) case
        self.mk(Node::Concat(h, l), w)
    }
    fn leaf_const_ite(&self, e: E, depth: u32) -> bool {
        match self.n(e) {
            Node::Const(_) => true,
            Node::Ite(_, a, b) => depth > 0 && self.leaf_const_ite(*a, depth - 1) && self.leaf_const_ite(*b, depth - 1),
            _ => false,
        }
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = fold(op, x, y, w); return self.konst(v, w); }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { return self.bin(op, b, a).into(); }
        let m = mask(w);
        if let Some(c) = cb {
            match op {
                B::Add | B::Or | B::Xor | B::Shl | B::LShr | B::AShr | B::Sub if c == 0 => return a,
                B::Sub => { let k = self.konst(0u128.wrapping_sub(c), w); return self.bin(B::Add, a, k); }
                B::Mul if c == 0 => return b,
                B::Mul | B::UDiv if c == 1 => return a,
                B::And if c == 0 => return b,
                B::And if c == m => return a,
                B::Or if c == m => return b,
                B::Xor if w == 1 => return self.not(a),
                _ => {}
            }
            if op == B::And {
                // low mask
                let k = (c + 1).trailing_zeros();
                if c & (c + 1) == 0 && k < w {
                    let x = self.extract(a, k - 1, 0);
                    return self.zext(x, w);
                }
                if let Node::ZExt(x) = *self.n(a) {
                    let xw = self.w(x);
                    let k = self.konst(c, xw);
                    let y = self.bin(B::And, x, k);
                    return self.zext(y, w);
                }
            }
            if op == B::Mul && c.is_power_of_two() {
                let k = self.konst(c.trailing_zeros() as u128, w);
                return self.bin(B::Shl, a, k);
            }
            if op == B::LShr && c < w as u128 {
                let x = self.extract(a, w - 1, c as u32);
                return self.zext(x, w);
            }
            if op == B::AShr && c < w as u128 {
                let x = self.extract(a, w - 1, c as u32);
                return self.sext_e(x, w);
            }
            if op == B::Shl && c < w as u128 {
                let x = self.extract(a, w - 1 - c as u32, 0);
                let z = self.konst(0, c as u32);
                return self.concat(x, z);
            }
            if (op == B::Shl || op == B::LShr) && c >= w as u128 { return self.konst(0, w); }
            if op == B::Add {
                if let Node::Bin(B::Add, x, y) = *self.n(a) {
                    if let Some(c2) = self.as_const(y) {
                        let k = self.konst(c.wrapping_add(c2), w);
                        return self.bin(B::Add, x, k);
                    }
                }
            }
            if (op == B::And || op == B::Or || op == B::Xor) && matches!(self.n(a), Node::Bin(o, _, _) if *o == op) {
                if let Node::Bin(_, x, y) = *self.n(a) {
                    if let Some(c2) = self.as_const(y) {
                        let k = self.konst(fold(op, c, c2, w), w);
                        return self.bin(op, x, k);
                    }
                }
            }
            if self.leaf_const_ite(a, 6) {
                if let Node::Ite(cc, x, y) = *self.n(a) {
                    let x = self.bin(op, x, b); let y = self.bin(op, y, b);
                    return self.ite(cc, x, y);
                }
            }
        } else if let Some(_) = ca {
            if self.leaf_const_ite(b, 6) {
                if let Node::Ite(cc, x, y) = *self.n(b) {
                    let x = self.bin(op, a, x); let y = self.bin(op, a, y);
                    return self.ite(cc, x, y);
                }
            }
        }
        if a == b {
            match op {
                B::Sub | B::Xor => return self.konst(0, w),
                B::And | B::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            let r = match op {
                B::Add | B::Sub => return self.bin(B::Xor, a, b),
                B::Mul => return self.bin(B::And, a, b),
                B::And => {
                    if let (Node::In(v1, s1), Node::In(v2, s2)) = (self.n(a).clone(), self.n(b).clone()) {
                        if v1 == v2 { return self.in_set(v1, [s1[0] & s2[0], s1[1] & s2[1], s1[2] & s2[2], s1[3] & s2[3]]); }
                    }
                    let nb = self.not(b);
                    if a == nb { return self.fls(); }
                    self.mk(Node::Bin(op, a, b), 1)
                }
                B::Or => {
                    if let (Node::In(v1, s1), Node::In(v2, s2)) = (self.n(a).clone(), self.n(b).clone()) {
                        if v1 == v2 { return self.in_set(v1, [s1[0] | s2[0], s1[1] | s2[1], s1[2] | s2[2], s1[3] | s2[3]]); }
                    }
                    let nb = self.not(b);
                    if a == nb { return self.tru(); }
                    self.mk(Node::Bin(op, a, b), 1)
                }
                _ => self.mk(Node::Bin(op, a, b), 1),
            };
            return self.canon1(r);
        }
        // disjoint or: zext(x) | concat(h, 0)  ==> concat
        if op == B::Or || op == B::Add || op == B::Xor {
            for (p, q) in [(a, b), (b, a)] {
                if let (Node::ZExt(x), Node::Concat(h, l)) = (self.n(p).clone(), self.n(q).clone()) {
                    if self.as_const(l) == Some(0) && self.w(x) <= self.w(l) {
                        let lw = self.w(l);
                        let xl = self.zext(x, lw);
                        return self.concat(h, xl);
                    }
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    pub fn in_set(&mut self, v: u32, s: Set) -> E {
        if s == [0; 4] { return self.fls(); }
        if s == [!0; 4] { return self.tru(); }
        self.mk(Node::In(v, s), 1)
    }
    /// canonicalise a one-bit expression that depends on exactly one byte
    fn canon1(&mut self, e: E) -> E {
        let vm = self.vars[e as usize];
        if vm == 0 || vm & (vm - 1) != 0 { return e; }
        if let Node::In(..) = self.n(e) { return e; }
        if let Some(&c) = self.canon.get(&e) { return c; }
        let v = vm.trailing_zeros();
        let mut model = vec![0u8; v as usize + 1];
        let mut s: Set = [0; 4];
        for x in 0..256usize {
            model[v as usize] = x as u8;
            if self.eval(e, &model) == 1 { s[x / 64] |= 1 << (x % 64); }
        }
        let c = self.in_set(v, s);
        self.canon.insert(e, c);
        c
    }
    pub fn cmp(&mut self, p: P, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(fold_cmp(p, x, y, w) as u128, 1); }
        if a == b { return match p { P::Eq | P::Ule | P::Sle => self.tru(), _ => self.fls() }; }
        if p == P::Eq && ca.is_some() { return self.cmp(P::Eq, b, a); }
        if p == P::Eq && cb.is_none() && a > b { return self.cmp(P::Eq, b, a); }
        // sign of zero-extended values
        if matches!(p, P::Slt | P::Sle) {
            let nonneg = |s: &Ctx, e: E| match s.n(e) { Node::ZExt(_) => true, Node::Const(c) => sext(*c, w) >= 0, _ => false };
            if nonneg(self, a) && nonneg(self, b) {
                return self.cmp(if p == P::Slt { P::Ult } else { P::Ule }, a, b);
            }
        }
        match p {
            P::Ule => { let r = self.cmp(P::Ult, b, a); return self.not(r); }
            P::Sle => { let r = self.cmp(P::Slt, b, a); return self.not(r); }
            _ => {}
        }
        if let Some(c) = cb {
            if p == P::Eq {
                if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                match self.n(a).clone() {
                    Node::ZExt(x) => {
                        let xw = self.w(x);
                        if c > mask(xw) { return self.fls(); }
                        let k = self.konst(c, xw);
                        return self.cmp(P::Eq, x, k);
                    }
                    Node::SExt(x) => {
                        let xw = self.w(x);
                        if (sext(c & mask(xw), xw) as u128) & mask(w) != c { return self.fls(); }
                        let k = self.konst(c, xw);
                        return self.cmp(P::Eq, x, k);
                    }
                    Node::Concat(h, l) => {
                        let (hw, lw) = (self.w(h), self.w(l));
                        let kh = self.konst(c >> lw, hw);
                        let kl = self.konst(c, lw);
                        let x = self.cmp(P::Eq, h, kh);
                        let y = self.cmp(P::Eq, l, kl);
                        return self.bin(B::And, x, y);
                    }
                    Node::Bin(B::Add, x, y) if self.as_const(y).is_some() => {
                        let k = self.konst(c.wrapping_sub(self.as_const(y).unwrap()), w);
                        return self.cmp(P::Eq, x, k);
                    }
                    Node::Bin(B::Xor, x, y) if self.as_const(y).is_some() => {
                        let k = self.konst(c ^ self.as_const(y).unwrap(), w);
                        return self.cmp(P::Eq, x, k);
                    }
                    Node::Bin(B::Xor, x, y) if c == 0 => return self.cmp(P::Eq, x, y),
                    _ => {}
                }
            }
            if p == P::Ult {
                if c == 0 { return self.fls(); }
                if let Node::ZExt(x) = *self.n(a) {
                    let xw = self.w(x);
                    if c > mask(xw) { return self.tru(); }
                    let k = self.konst(c, xw);
                    return self.cmp(P::Ult, x, k);
                }
            }
        }
        if let Some(c) = ca {
            if p == P::Ult {
                if c == mask(w) { return self.fls(); }
                if let Node::ZExt(x) = *self.n(b) {
                    let xw = self.w(x);
                    if c >= mask(xw) { return self.fls(); }
                    let k = self.konst(c, xw);
                    return self.cmp(P::Ult, k, x);
                }
            }
        }
        // push comparison with a constant into an if-then-else with constant leaves
        if cb.is_some() && self.leaf_const_ite(a, 40) {
            if let Node::Ite(c, x, y) = *self.n(a) {
                let x = self.cmp(p, x, b); let y = self.cmp(p, y, b);
                return self.ite(c, x, y);
            }
        }
        if ca.is_some() && self.leaf_const_ite(b, 40) {
            if let Node::Ite(c, x, y) = *self.n(b) {
                let x = self.cmp(p, a, x); let y = self.cmp(p, a, y);
                return self.ite(c, x, y);
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) && (p == P::Eq || p == P::Ult) => return self.cmp(p, x, y),
            _ => {}
        }
        let r = self.mk(Node::Cmp(p, a, b), 1);
        self.canon1(r)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if let Node::Not(x) = *self.n(c) { return self.ite(x, b, a); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(_), None) => { let nc = self.not(c); return self.bin(B::And, nc, b); }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(_)) => { let nc = self.not(c); return self.bin(B::Or, nc, a); }
                _ => {}
            }
        }
        // nested same condition
        let a = if let Node::Ite(c2, x, _) = *self.n(a) { if c2 == c { x } else { a } } else { a };
        let b = if let Node::Ite(c2, _, y) = *self.n(b) { if c2 == c { y } else { b } } else { b };
        if a == b { return a; }
        let r = self.mk(Node::Ite(c, a, b), w);
        if w == 1 { self.canon1(r) } else { r }
    }
    /// function of a single byte variable given as a table of 256 values
    pub fn byte_table(&mut self, v: u32, vals: &[u128], w: u32) -> E {
        // group by value; build ite(in set) chain
        let mut groups: Vec<(u128, Set)> = vec![];
        for (x, &val) in vals.iter().enumerate() {
            match groups.iter_mut().find(|g| g.0 == val) {
                Some(g) => g.1[x / 64] |= 1 << (x % 64),
                None => { let mut s = [0u64; 4]; s[x / 64] |= 1 << (x % 64); groups.push((val, s)); }
            }
        }
        let mut r = self.konst(groups.last().unwrap().0, w);
        for g in groups.iter().rev().skip(1) {
            let c = self.in_set(v, g.1);
            let k = self.konst(g.0, w);
            r = self.ite(c, k, r);
        }
        r
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.stamp += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        if self.eval_stamp[e as usize] == self.stamp { return self.eval_memo[e as usize]; }
        let w = self.w(e);
        let r = match self.nodes[e as usize] {
            Node::Const(c) => c,
            Node::Var(i) => *m.get(i as usize).unwrap_or(&0) as u128,
            Node::In(i, ref s) => { let s = *s; let x = *m.get(i as usize).unwrap_or(&0) as usize; ((s[x / 64] >> (x % 64)) & 1) as u128 }
            Node::Bin(op, a, b) => { let x = self.ev(a, m); let y = self.ev(b, m); fold(op, x, y, w) }
            Node::Cmp(p, a, b) => { let aw = self.w(a); let x = self.ev(a, m); let y = self.ev(b, m); fold_cmp(p, x, y, aw) as u128 }
            Node::Not(a) => self.ev(a, m) ^ 1,
            Node::Ite(c, a, b) => if self.ev(c, m) == 1 { self.ev(a, m) } else { self.ev(b, m) },
            Node::Extract(a, _, lo) => (self.ev(a, m) >> lo) & mask(w),
            Node::Concat(h, l) => { let lw = self.w(l); let x = self.ev(h, m); let y = self.ev(l, m); (x << lw) | y }
            Node::ZExt(a) => self.ev(a, m),
            Node::SExt(a) => { let aw = self.w(a); sext(self.ev(a, m), aw) as u128 & mask(w) }
        };
        self.eval_stamp[e as usize] = self.stamp;
        self.eval_memo[e as usize] = r;
        r
    }
}
