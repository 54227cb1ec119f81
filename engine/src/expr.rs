//! Hash-consed bit-vector expression DAG (widths 1..=128) with an aggressive simplifier.
//! Expressions are `u32` ids; constant bytes 0..=255 have the ids 0..=255.

use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Default)]
pub struct Model {
    pub vals: FxMap<u32, u128>,
    pub memo: RefCell<FxMap<u32, u128>>,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub rng: Vec<(u128, u128)>,
    consts: Vec<u128>,
    intern: FxMap<Node, u32>,
    cintern: FxMap<(u8, u128), u32>,
    pub vars: Vec<(u8, String)>,
    varset: FxMap<u32, Rc<Vec<u32>>>,
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            rng: vec![],
            consts: vec![],
            intern: Default::default(),
            cintern: Default::default(),
            vars: vec![],
            varset: Default::default(),
        };
        for i in 0..256u128 {
            let id = c.con(8, i);
            assert_eq!(id as u128, i);
        }
        c
    }
    #[inline]
    pub fn con(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        if w == 8 && self.nodes.len() >= 256 {
            return v as u32;
        }
        if let Some(&i) = self.cintern.get(&(w, v)) {
            return i;
        }
        let id = self.nodes.len() as u32;
        self.consts.push(v);
        self.nodes.push(Node { op: Op::Const, w, a: (self.consts.len() - 1) as u32, b: 0, c: 0 });
        self.rng.push((v, v));
        self.cintern.insert((w, v), id);
        id
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        if e < 256 {
            return Some(e as u128);
        }
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn var(&mut self, w: u8, name: &str) -> E {
        let i = self.vars.len() as u32;
        self.vars.push((w, name.to_string()));
        self.mk(Op::Var, w, i, 0, 0)
    }
    pub fn var_ref(&mut self, i: u32) -> E {
        let w = self.vars[i as usize].0;
        self.mk(Op::Var, w, i, 0, 0)
    }
    pub fn tru(&mut self) -> E {
        self.con(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.con(1, 0)
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&i) = self.intern.get(&n) {
            return i;
        }
        let r = self.range_of(&n);
        if r.0 == r.1 && op != Op::Var {
            return self.con(w, r.0);
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.rng.push(r);
        self.intern.insert(n, id);
        id
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let full = (0, mask(n.w));
        let r = |e: u32| self.rng[e as usize];
        match n.op {
            Op::ZExt => r(n.a),
            Op::Concat => {
                let wl = self.w(n.b);
                let (h, l) = (r(n.a), r(n.b));
                ((h.0 << wl) | if h.0 == h.1 { l.0 } else { l.0 }, (h.1 << wl) + l.1)
            }
            Op::Add => {
                let (x, y) = (r(n.a), r(n.b));
                match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                    (Some(lo), Some(hi)) if hi <= mask(n.w) => (lo, hi),
                    // a constant addend that wraps for every value of the other operand
                    (Some(lo), Some(hi)) if n.w < 127 && lo > mask(n.w) => (lo & mask(n.w), hi & mask(n.w)),
                    _ => full,
                }
            }
            Op::Sub => {
                let (x, y) = (r(n.a), r(n.b));
                if x.0 >= y.1 {
                    (x.0 - y.1, x.1 - y.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (x, y) = (r(n.a), r(n.b));
                match (x.0.checked_mul(y.0), x.1.checked_mul(y.1)) {
                    (Some(lo), Some(hi)) if hi <= mask(n.w) => (lo, hi),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (x, y) = (r(n.a), r(n.b));
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (x, y) = (r(n.a), r(n.b));
                if y.0 > 0 {
                    (0, x.1.min(y.1 - 1))
                } else {
                    full
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or => (r(n.a).0.max(r(n.b).0), bitceil(r(n.a).1 | r(n.b).1).min(mask(n.w))),
            Op::Xor => (0, bitceil(r(n.a).1 | r(n.b).1).min(mask(n.w))),
            Op::LShr => (0, r(n.a).1),
            Op::Extract => {
                let x = r(n.a);
                let lo = n.b as u8;
                if (x.1 >> lo) <= mask(n.w) {
                    (x.0 >> lo, x.1 >> lo)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (x, y) = (r(n.b), r(n.c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            _ => full,
        }
    }

    // ---- bitwise / boolean -------------------------------------------------
    pub fn not(&mut self, x: E) -> E {
        let w = self.w(x);
        if let Some(v) = self.cv(x) {
            return self.con(w, !v);
        }
        let n = self.n(x);
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Op::Not, w, x, 0, 0)
    }
    /// Flattened concat segments, most significant first.
    fn segs(&self, e: E, out: &mut Vec<(E, u8)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.segs(n.a, out);
                self.segs(n.b, out);
            }
            _ => out.push((e, n.w)),
        }
    }
    fn has_struct(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::Concat | Op::ZExt | Op::Const)
    }
    fn bounds(&self, e: E, lo: u8, out: &mut Vec<u8>) {
        // cut points (bit offsets) of e's structure
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                let wl = self.w(n.b);
                self.bounds(n.b, lo, out);
                out.push(lo + wl);
                self.bounds(n.a, lo + wl, out);
            }
            Op::ZExt => {
                let wl = self.w(n.a);
                self.bounds(n.a, lo, out);
                out.push(lo + wl);
            }
            Op::Const => {
                let v = self.cv(e).unwrap();
                let mut prev = v & 1;
                for i in 1..n.w {
                    let b = (v >> i) & 1;
                    if b != prev {
                        out.push(lo + i);
                        prev = b;
                    }
                }
            }
            _ => {}
        }
    }
    fn bitop(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(
                w,
                match op {
                    Op::And => x & y,
                    Op::Or => x | y,
                    _ => x ^ y,
                },
            );
        }
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            return match op {
                Op::Xor => self.con(w, 0),
                _ => a,
            };
        }
        if let Some(k) = self.cv(b) {
            let m = mask(w);
            match op {
                Op::And => {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                }
                Op::Or => {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                _ => {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                }
            }
            let n = self.n(a);
            if n.op == op {
                if let Some(k2) = self.cv(n.b) {
                    let kk = match op {
                        Op::And => k & k2,
                        Op::Or => k | k2,
                        _ => k ^ k2,
                    };
                    let kk = self.con(w, kk);
                    return self.bitop(op, n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let t = self.bitop(op, n.b, b);
                let f = self.bitop(op, n.c, b);
                return self.ite(n.a, t, f);
            }
        }
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return match op {
                    Op::And => self.con(1, 0),
                    _ => self.con(1, 1),
                };
            }
            // absorption: a & (a & c) -> a & c ; a & (a|c) -> a
            for (x, y, ny) in [(a, b, nb), (b, a, na)] {
                if ny.op == op && op != Op::Xor && (ny.a == x || ny.b == x) {
                    return y;
                }
            }
            if op == Op::Xor {
                if na.op == Op::Not {
                    let r = self.bitop(Op::Xor, na.a, b);
                    return self.not(r);
                }
                if nb.op == Op::Not {
                    let r = self.bitop(Op::Xor, a, nb.a);
                    return self.not(r);
                }
            }
            return self.mk(op, 1, a, b, 0);
        }
        // segment-wise handling when it resolves every piece that mixes structure
        if self.has_struct(a) || self.has_struct(b) {
            let mut cuts = vec![];
            self.bounds(a, 0, &mut cuts);
            self.bounds(b, 0, &mut cuts);
            cuts.sort();
            cuts.dedup();
            if !cuts.is_empty() && cuts.len() <= 18 {
                cuts.push(w);
                let mut lo = 0u8;
                let mut pieces: Vec<E> = vec![];
                let mut general = 0;
                for &hi in &cuts {
                    if hi == lo {
                        continue;
                    }
                    let pa = self.extract(a, lo, hi - lo);
                    let pb = self.extract(b, lo, hi - lo);
                    let pw = hi - lo;
                    let (ca, cb) = (self.cv(pa), self.cv(pb));
                    let m = mask(pw);
                    let r = match op {
                        Op::And => {
                            if ca == Some(0) || cb == Some(0) {
                                Some(self.con(pw, 0))
                            } else if ca == Some(m) {
                                Some(pb)
                            } else if cb == Some(m) {
                                Some(pa)
                            } else {
                                None
                            }
                        }
                        Op::Or => {
                            if ca == Some(0) {
                                Some(pb)
                            } else if cb == Some(0) {
                                Some(pa)
                            } else if ca == Some(m) || cb == Some(m) {
                                Some(self.con(pw, m))
                            } else {
                                None
                            }
                        }
                        _ => {
                            if ca == Some(0) {
                                Some(pb)
                            } else if cb == Some(0) {
                                Some(pa)
                            } else if ca == Some(m) {
                                Some(self.not(pb))
                            } else if cb == Some(m) {
                                Some(self.not(pa))
                            } else {
                                None
                            }
                        }
                    };
                    match r {
                        Some(r) => pieces.push(r),
                        None => {
                            if pa == pb {
                                pieces.push(if op == Op::Xor { self.con(pw, 0) } else { pa });
                            } else {
                                general += 1;
                                let (x, y) = if pa <= pb { (pa, pb) } else { (pb, pa) };
                                let g = self.mk(op, pw, x, y, 0);
                                pieces.push(g);
                            }
                        }
                    }
                    lo = hi;
                }
                if general == 0 || (general < pieces.len() && op != Op::Xor) || (op == Op::Xor && general <= 1) {
                    let mut acc = pieces[0];
                    for p in &pieces[1..] {
                        acc = self.concat(*p, acc);
                    }
                    return acc;
                }
            }
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bitop(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bitop(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        self.bitop(Op::Xor, a, b)
    }

    // ---- structure -----------------------------------------------------------
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.con(w, (x << wl) | y);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        // merge adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl as u32 {
            return self.extract(nh.a, nl.b as u8, w);
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let f = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, f);
        }
        if nl.op == Op::Concat {
            // right-nest on the high side: concat(h, concat(a,b)) -> concat(concat(h,a), b)
            let ha = self.concat(h, nl.a);
            return self.concat(ha, nl.b);
        }
        if nh.op == Op::Concat {
            // concat(concat(x, y), l): merge y,l when possible
            let ny = self.n(nh.b);
            if ny.op == Op::Extract && nl.op == Op::Extract && ny.a == nl.a && ny.b == nl.b + wl as u32 {
                let m = self.extract(ny.a, nl.b as u8, self.w(nh.b) + wl);
                return self.concat(nh.a, m);
            }
            if let (Some(x), Some(y)) = (self.cv(nh.b), self.cv(l)) {
                let wm = self.w(nh.b) + wl;
                let m = self.con(wm, (x << wl) | y);
                return self.concat(nh.a, m);
            }
            if ny.op == Op::Ite && nl.op == Op::Ite && ny.a == nl.a {
                let m = self.concat(nh.b, l);
                return self.concat(nh.a, m);
            }
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, x: E, w: u8) -> E {
        let xw = self.w(x);
        if xw == w {
            return x;
        }
        debug_assert!(xw < w);
        if let Some(v) = self.cv(x) {
            return self.con(w, v);
        }
        let n = self.n(x);
        if n.op == Op::ZExt {
            return self.mk(Op::ZExt, w, n.a, 0, 0);
        }
        self.mk(Op::ZExt, w, x, 0, 0)
    }
    pub fn sext(&mut self, x: E, w: u8) -> E {
        let xw = self.w(x);
        if xw == w {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.con(w, sx(v, xw) as u128);
        }
        if self.rng[x as usize].1 < (1u128 << (xw - 1)) {
            return self.zext(x, w);
        }
        if xw == 1 {
            let t = self.con(w, u128::MAX);
            let f = self.con(w, 0);
            return self.ite(x, t, f);
        }
        self.mk(Op::SExt, w, x, 0, 0)
    }
    pub fn trunc(&mut self, x: E, w: u8) -> E {
        self.extract(x, 0, w)
    }
    pub fn extract(&mut self, x: E, lo: u8, w: u8) -> E {
        let n = self.n(x);
        if lo == 0 && n.w == w {
            return x;
        }
        debug_assert!(lo + w <= n.w, "extract {lo}+{w} of {}", n.w);
        match n.op {
            Op::Const => {
                let v = self.cv(x).unwrap();
                self.con(w, v >> lo)
            }
            Op::Extract => self.extract(n.a, n.b as u8 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, w - (wl - lo));
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    self.con(w, 0)
                } else if lo + w <= wa {
                    self.extract(n.a, lo, w)
                } else {
                    let l = self.extract(n.a, lo, wa - lo);
                    self.zext(l, w)
                }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Op::Extract, w, x, lo as u32, 0)
                }
            }
            Op::Ite => {
                let (cb, cc) = (self.cv(n.b).is_some(), self.cv(n.c).is_some());
                if cb || cc || (self.n(n.b).op != Op::Ite && self.n(n.c).op != Op::Ite) {
                    let t = self.extract(n.b, lo, w);
                    let f = self.extract(n.c, lo, w);
                    self.ite(n.a, t, f)
                } else {
                    self.mk(Op::Extract, w, x, lo as u32, 0)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    self.bitop(n.op, a, b)
                } else {
                    self.mk(Op::Extract, w, x, lo as u32, 0)
                }
            }
            Op::Not => {
                let a = self.extract(n.a, lo, w);
                self.not(a)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w >= 8 => {
                // truncation distributes; only do so when it strips a widening
                let (na, nb) = (self.n(n.a), self.n(n.b));
                let strip = |m: &Node| matches!(m.op, Op::ZExt | Op::SExt | Op::Const);
                if strip(&na) && strip(&nb) {
                    let a = self.extract(n.a, 0, w);
                    let b = self.extract(n.b, 0, w);
                    match n.op {
                        Op::Add => self.add(a, b),
                        Op::Sub => self.sub(a, b),
                        _ => self.mul(a, b),
                    }
                } else {
                    self.mk(Op::Extract, w, x, 0, 0)
                }
            }
            _ => self.mk(Op::Extract, w, x, lo as u32, 0),
        }
    }

    // ---- arithmetic ---------------------------------------------------------
    fn lin(&self, e: E, k: u128, acc: &mut Vec<(E, u128)>, c: &mut u128, depth: u32) {
        let n = self.n(e);
        let m = mask(n.w);
        match n.op {
            Op::Const => *c = c.wrapping_add(self.cv(e).unwrap().wrapping_mul(k)) & m,
            Op::Add if depth < 12 => {
                self.lin(n.a, k, acc, c, depth + 1);
                self.lin(n.b, k, acc, c, depth + 1);
            }
            Op::Sub if depth < 12 => {
                self.lin(n.a, k, acc, c, depth + 1);
                self.lin(n.b, k.wrapping_neg() & m, acc, c, depth + 1);
            }
            Op::Mul if depth < 12 && self.cv(n.b).is_some() => {
                let k2 = self.cv(n.b).unwrap();
                self.lin(n.a, k.wrapping_mul(k2) & m, acc, c, depth + 1);
            }
            _ => {
                for t in acc.iter_mut() {
                    if t.0 == e {
                        t.1 = t.1.wrapping_add(k) & m;
                        return;
                    }
                }
                acc.push((e, k & m));
            }
        }
    }
    fn unlin(&mut self, w: u8, mut terms: Vec<(E, u128)>, c: u128) -> E {
        let m = mask(w);
        terms.retain(|t| t.1 & m != 0);
        if terms.is_empty() {
            return self.con(w, c);
        }
        terms.sort();
        let mut acc: Option<E> = None;
        for &(e, k) in &terms {
            let neg = k > (m >> 1) && k != 1;
            if neg {
                continue;
            }
            let t = if k == 1 {
                e
            } else {
                let kc = self.con(w, k);
                self.mk(Op::Mul, w, e, kc, 0)
            };
            acc = Some(match acc {
                None => t,
                Some(a) => self.mk(Op::Add, w, a, t, 0),
            });
        }
        let has_neg = terms.iter().any(|t| t.1 > (m >> 1) && t.1 != 1);
        // put the constant before the subtractions so that ranges stay precise
        let mut cdone = c & m == 0;
        if has_neg && acc.is_none() {
            acc = Some(self.con(w, c));
            cdone = true;
        } else if has_neg && !cdone && (c & m) <= (m >> 1) {
            let cc = self.con(w, c);
            acc = Some(self.mk(Op::Add, w, acc.unwrap(), cc, 0));
            cdone = true;
        }
        for &(e, k) in &terms {
            let neg = k > (m >> 1) && k != 1;
            if !neg {
                continue;
            }
            let kk = k.wrapping_neg() & m;
            let t = if kk == 1 {
                e
            } else {
                let kc = self.con(w, kk);
                self.mk(Op::Mul, w, e, kc, 0)
            };
            acc = Some(self.mk(Op::Sub, w, acc.unwrap(), t, 0));
        }
        let mut r = acc.unwrap();
        if !cdone {
            // prefer x - k for "negative" constants so that ranges work
            let cm = c & m;
            if cm > (m >> 1) {
                let kc = self.con(w, cm.wrapping_neg() & m);
                let s = self.mk(Op::Sub, w, r, kc, 0);
                r = s;
            } else {
                let cc = self.con(w, cm);
                r = self.mk(Op::Add, w, r, cc, 0);
            }
        }
        r
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(w, x.wrapping_add(y));
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        if self.cv(a) == Some(0) {
            return b;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.linop(a, b, 1)
    }
    fn linop(&mut self, a: E, b: E, kb: u128) -> E {
        let w = self.w(a);
        // ite with constants: push constant addition in
        for (x, y, first) in [(a, b, true), (b, a, false)] {
            let n = self.n(x);
            if n.op == Op::Ite && self.cv(y).is_some() && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let (t, f);
                if kb == 1 {
                    t = self.add(n.b, y);
                    f = self.add(n.c, y);
                } else if first {
                    t = self.sub(n.b, y);
                    f = self.sub(n.c, y);
                } else {
                    t = self.sub(y, n.b);
                    f = self.sub(y, n.c);
                }
                return self.ite(n.a, t, f);
            }
        }
        let mut terms = vec![];
        let mut c = 0;
        self.lin(a, 1, &mut terms, &mut c, 0);
        self.lin(b, kb & mask(w), &mut terms, &mut c, 0);
        self.unlin(w, terms, c)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(w, x.wrapping_sub(y));
        }
        if a == b {
            return self.con(w, 0);
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.linop(a, b, u128::MAX)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(w, x.wrapping_mul(y));
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if w > 1 {
                let mut terms = vec![];
                let mut c = 0;
                self.lin(a, k, &mut terms, &mut c, 0);
                return self.unlin(w, terms, c);
            }
        }
        if self.cv(b).is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.con(w, 0);
            }
            let k = k as u8;
            if k == 0 {
                return a;
            }
            let lo = self.extract(a, 0, w - k);
            let z = self.con(k, 0);
            return self.concat(lo, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.shift_ite(a, b, Op::Shl) {
            return r;
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.con(w, 0);
            }
            let k = k as u8;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, k, w - k);
            return self.zext(hi, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.shift_ite(a, b, Op::LShr) {
            return r;
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    fn shift_ite(&mut self, a: E, b: E, op: Op) -> Option<E> {
        let n = self.n(b);
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let t = if op == Op::Shl { self.shl(a, n.b) } else { self.lshr(a, n.b) };
            let f = if op == Op::Shl { self.shl(a, n.c) } else { self.lshr(a, n.c) };
            return Some(self.ite(n.a, t, f));
        }
        None
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.cv(a), self.cv(b)) {
            let k = k.min(127) as u32;
            return self.con(w, (sx(x, w) >> k) as u128);
        }
        if self.rng[a as usize].1 <= mask(w) >> 1 {
            return self.lshr(a, b);
        }
        if let Some(k) = self.cv(b) {
            let k = (k.min(w as u128 - 1)) as u8;
            let hi = self.extract(a, k, w - k);
            return self.sext(hi, w);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.con(w, x / y),
            (_, Some(1)) => return a,
            (_, Some(y)) if y != 0 && y.is_power_of_two() => {
                let k = self.con(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
            _ => {}
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.con(w, x % y),
            (_, Some(y)) if y != 0 && y.is_power_of_two() => {
                let k = self.con(w, y - 1);
                return self.and(a, k);
            }
            _ => {}
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.con(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        let h = mask(w) >> 1;
        if self.rng[a as usize].1 <= h && self.rng[b as usize].1 <= h {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.con(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        let h = mask(w) >> 1;
        if self.rng[a as usize].1 <= h && self.rng[b as usize].1 <= h {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0)
    }

    // ---- comparisons --------------------------------------------------------
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.con(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(1, (x == y) as u128);
        }
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.con(1, 0);
        }
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let n = self.n(a);
        if let Some(k) = self.cv(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match n.op {
                Op::ZExt => {
                    let wa = self.w(n.a);
                    if k > mask(wa) {
                        return self.con(1, 0);
                    }
                    let kc = self.con(wa, k);
                    return self.eq(n.a, kc);
                }
                Op::SExt => {
                    let wa = self.w(n.a);
                    if sx(k & mask(wa), wa) != sx(k, w) {
                        return self.con(1, 0);
                    }
                    let kc = self.con(wa, k);
                    return self.eq(n.a, kc);
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    let kh = self.con(w - wl, k >> wl);
                    let kl = self.con(wl, k);
                    let h = self.eq(n.a, kh);
                    if self.cv(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::Add if self.cv(n.b).is_some() => {
                    let kc = self.sub(b, n.b);
                    return self.eq(n.a, kc);
                }
                Op::Sub if self.cv(n.b).is_some() => {
                    let kc = self.add(b, n.b);
                    return self.eq(n.a, kc);
                }
                Op::Sub if self.cv(n.a).is_some() => {
                    let kc = self.sub(n.a, b);
                    return self.eq(n.b, kc);
                }
                Op::Sub if k == 0 => return self.eq(n.a, n.b),
                Op::Xor if self.cv(n.b).is_some() => {
                    let kc = self.xor(b, n.b);
                    return self.eq(n.a, kc);
                }
                Op::Xor if k == 0 => return self.eq(n.a, n.b),
                Op::Not => {
                    let kc = self.not(b);
                    return self.eq(n.a, kc);
                }
                Op::Or if k == 0 => {
                    let z = self.con(w, 0);
                    let x = self.eq(n.a, z);
                    let y = self.eq(n.b, z);
                    return self.and(x, y);
                }
                Op::Ite => {
                    let (t, f) = (self.eq_quick(n.b, k), self.eq_quick(n.c, k));
                    if t.is_some() || f.is_some() {
                        let t = match t {
                            Some(v) => self.con(1, v as u128),
                            None => self.eq(n.b, b),
                        };
                        let f = match f {
                            Some(v) => self.con(1, v as u128),
                            None => self.eq(n.c, b),
                        };
                        return self.ite(n.a, t, f);
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if n.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(n.a), self.w(nb.a));
                let m = wa.max(wb);
                if m < w {
                    let x = self.zext(n.a, m);
                    let y = self.zext(nb.a, m);
                    return self.eq(x, y);
                }
            }
            if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                let h = self.eq(n.a, nb.a);
                if self.cv(h) == Some(0) {
                    return h;
                }
                let l = self.eq(n.b, nb.b);
                return self.and(h, l);
            }
            if w > 1 && (matches!(n.op, Op::Add | Op::Sub) || matches!(nb.op, Op::Add | Op::Sub)) {
                let d = self.sub(a, b);
                if let Some(v) = self.cv(d) {
                    return self.con(1, (v == 0) as u128);
                }
            }
            if n.op == Op::Ite && n.b == b {
                let f = self.eq(n.c, b);
                return self.or(n.a, f);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    fn eq_quick(&self, e: E, k: u128) -> Option<bool> {
        if let Some(v) = self.cv(e) {
            return Some(v == k);
        }
        let r = self.rng[e as usize];
        if k < r.0 || k > r.1 {
            return Some(false);
        }
        // nested ite of constants
        let n = self.n(e);
        if n.op == Op::Ite {
            let a = self.eq_quick(n.b, k);
            let b = self.eq_quick(n.c, k);
            if a.is_some() && a == b {
                return a;
            }
        }
        None
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.eq(a, b);
        self.not(x)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.con(1, 0);
        }
        let w = self.w(a);
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        if ra.1 < rb.0 {
            return self.con(1, 1);
        }
        if ra.0 >= rb.1 {
            return self.con(1, 0);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(k) = self.cv(b) {
            if k == 1 {
                let z = self.con(w, 0);
                return self.eq(a, z);
            }
            if k == mask(w) {
                return self.ne(a, b);
            }
            if k == ra.0 + 1 {
                let z = self.con(w, ra.0);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let wa = self.w(na.a);
                let kc = self.con(wa, k); // k <= mask(wa) since ra.1 >= k
                return self.ult(na.a, kc);
            }
            if na.op == Op::Concat && self.w(na.b) <= k.trailing_zeros() as u8 {
                // low part is irrelevant
                let wl = self.w(na.b);
                let kh = self.con(w - wl, k >> wl);
                return self.ult(na.a, kh);
            }
            if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                let t = self.ult(na.b, b);
                let f = self.ult(na.c, b);
                return self.ite(na.a, t, f);
            }
            if na.op == Op::Add {
                // (x + c) < k with no wrap possible
                if let Some(c) = self.cv(na.b) {
                    let rx = self.rng[na.a as usize];
                    if let Some(s) = rx.1.checked_add(c) {
                        if s <= mask(w) && c <= k {
                            let kc = self.con(w, k - c);
                            return self.ult(na.a, kc);
                        }
                    }
                }
            }
            if na.op == Op::Sub {
                if let Some(c) = self.cv(na.b) {
                    if self.rng[na.a as usize].0 >= c {
                        if let Some(s) = k.checked_add(c) {
                            if s <= mask(w) {
                                let kc = self.con(w, s);
                                return self.ult(na.a, kc);
                            }
                        }
                    }
                }
            }
        }
        if let Some(k) = self.cv(a) {
            if k == 0 {
                return self.ne(b, a);
            }
            if k + 1 == rb.1 {
                let z = self.con(w, rb.1);
                return self.eq(b, z);
            }
            if nb.op == Op::ZExt {
                let wb = self.w(nb.a);
                let kc = self.con(wb, k);
                return self.ult(kc, nb.a);
            }
            if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                let t = self.ult(a, nb.b);
                let f = self.ult(a, nb.c);
                return self.ite(nb.a, t, f);
            }
            if nb.op == Op::Add {
                if let Some(c) = self.cv(nb.b) {
                    let rx = self.rng[nb.a as usize];
                    if let Some(s) = rx.1.checked_add(c) {
                        if s <= mask(w) {
                            // k < x + c
                            if c > k {
                                return self.con(1, 1);
                            }
                            let kc = self.con(w, k - c);
                            return self.ult(kc, nb.a);
                        }
                    }
                }
            }
            if nb.op == Op::Sub {
                if let Some(c) = self.cv(nb.b) {
                    if self.rng[nb.a as usize].0 >= c {
                        if let Some(s) = k.checked_add(c) {
                            if s <= mask(w) {
                                let kc = self.con(w, s);
                                return self.ult(kc, nb.a);
                            }
                        }
                    }
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        // x + c < x   (overflow test):  true iff x > max - c
        if na.op == Op::Add && na.a == b {
            if let Some(c) = self.cv(na.b) {
                let kc = self.con(w, mask(w) - c);
                return self.ult(kc, b);
            }
        }
        // x - c < x  (c != 0): true iff x >= c
        if na.op == Op::Sub && na.a == b {
            if let Some(c) = self.cv(na.b) {
                let kc = self.con(w, c);
                let l = self.ult(b, kc);
                return self.not(l);
            }
        }
        // x < x + c  (c != 0): true iff no wrap
        if nb.op == Op::Add && nb.a == a {
            if let Some(c) = self.cv(nb.b) {
                let kc = self.con(w, mask(w) - c);
                let l = self.ult(kc, a);
                return self.not(l);
            }
        }
        // x < x - c  (c != 0): true iff x < c
        if nb.op == Op::Sub && nb.a == a {
            if let Some(c) = self.cv(nb.b) {
                let kc = self.con(w, c);
                return self.ult(a, kc);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.con(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.con(1, (sx(x, w) < sx(y, w)) as u128);
        }
        let h = mask(w) >> 1;
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        let (an, bn) = (ra.1 <= h, rb.1 <= h);
        if an && bn {
            return self.ult(a, b);
        }
        let (aneg, bneg) = (ra.0 > h, rb.0 > h);
        if aneg && bneg {
            return self.ult(a, b);
        }
        if an && bneg {
            return self.con(1, 0);
        }
        if aneg && bn {
            return self.con(1, 1);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let t = self.slt(na.b, b);
            let f = self.slt(na.c, b);
            return self.ite(na.a, t, f);
        }
        if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
            let t = self.slt(a, nb.b);
            let f = self.slt(a, nb.c);
            return self.ite(nb.a, t, f);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, f),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, f);
                }
                (_, Some(0)) => return self.and(c, t),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, t);
                }
                _ => {}
            }
        }
        let (nt, nf) = (self.n(t), self.n(f));
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        if nf.op == Op::Ite && nf.b == t {
            let cc = self.or(c, nf.a);
            return self.ite(cc, t, nf.c);
        }
        if nt.op == Op::Ite && nt.c == f {
            let cc = self.and(c, nt.a);
            return self.ite(cc, nt.b, f);
        }
        // x == k ? k : x  -> x
        if nc.op == Op::Eq && ((nc.a == f && nc.b == t) || (nc.b == f && nc.a == t)) {
            return f;
        }
        if nt.op == Op::ZExt || nf.op == Op::ZExt {
            // pull a common zero-extension out
            let wt = if nt.op == Op::ZExt { Some(self.w(nt.a)) } else { self.cv(t).map(|v| (128 - v.leading_zeros()).max(1) as u8) };
            let wf = if nf.op == Op::ZExt { Some(self.w(nf.a)) } else { self.cv(f).map(|v| (128 - v.leading_zeros()).max(1) as u8) };
            if let (Some(x), Some(y)) = (wt, wf) {
                let m = x.max(y);
                if m < w {
                    let tt = self.extract(t, 0, m);
                    let ff = self.extract(f, 0, m);
                    let i = self.ite(c, tt, ff);
                    return self.zext(i, w);
                }
            }
        }
        self.mk(Op::Ite, w, c, t, f)
    }

    // ---- evaluation ---------------------------------------------------------
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        if let Some(v) = self.cv(e) {
            return v;
        }
        let mut memo = m.memo.borrow_mut();
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let (ka, kb, kc) = match n.op {
                Op::Const | Op::Var => (false, false, false),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => (true, false, false),
                Op::Ite => (true, true, true),
                _ => (true, true, false),
            };
            let get = |i: u32| -> Option<u128> { self.cv(i).or_else(|| memo.get(&i).copied()) };
            let mut miss = false;
            if n.op == Op::Ite {
                // lazily evaluate only the taken arm
                match get(n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(c) => {
                        let arm = if c == 1 { n.b } else { n.c };
                        match get(arm) {
                            None => {
                                stack.push(arm);
                                continue;
                            }
                            Some(v) => {
                                memo.insert(x, v);
                                stack.pop();
                                continue;
                            }
                        }
                    }
                }
            }
            for (k, i) in [(ka, n.a), (kb, n.b), (kc, n.c)] {
                if k && get(i).is_none() {
                    stack.push(i);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let va = if ka { get(n.a).unwrap() } else { 0 };
            let vb = if kb { get(n.b).unwrap() } else { 0 };
            let w = n.w;
            let mk = mask(w);
            let v = match n.op {
                Op::Const => self.cv(x).unwrap(),
                Op::Var => m.vals.get(&n.a).copied().unwrap_or(0),
                Op::Not => !va & mk,
                Op::Add => va.wrapping_add(vb) & mk,
                Op::Sub => va.wrapping_sub(vb) & mk,
                Op::Mul => va.wrapping_mul(vb) & mk,
                Op::UDiv => {
                    if vb == 0 {
                        mk
                    } else {
                        va / vb
                    }
                }
                Op::URem => {
                    if vb == 0 {
                        va
                    } else {
                        va % vb
                    }
                }
                Op::SDiv => {
                    let (x, y) = (sx(va, w), sx(vb, w));
                    (if y == 0 {
                        if x < 0 {
                            1
                        } else {
                            mk
                        }
                    } else {
                        x.wrapping_div(y) as u128
                    }) & mk
                }
                Op::SRem => {
                    let (x, y) = (sx(va, w), sx(vb, w));
                    (if y == 0 { va } else { x.wrapping_rem(y) as u128 }) & mk
                }
                Op::Shl => {
                    if vb >= w as u128 {
                        0
                    } else {
                        (va << vb) & mk
                    }
                }
                Op::LShr => {
                    if vb >= w as u128 {
                        0
                    } else {
                        va >> vb
                    }
                }
                Op::AShr => (sx(va, w) >> vb.min(w as u128 - 1).min(127)) as u128 & mk,
                Op::And => va & vb,
                Op::Or => va | vb,
                Op::Xor => va ^ vb,
                Op::Concat => (va << self.w(n.b)) | vb,
                Op::Extract => (va >> n.b) & mk,
                Op::ZExt => va,
                Op::SExt => sx(va, self.w(n.a)) as u128 & mk,
                Op::Eq => (va == vb) as u128,
                Op::Ult => (va < vb) as u128,
                Op::Slt => {
                    let aw = self.w(n.a);
                    (sx(va, aw) < sx(vb, aw)) as u128
                }
                Op::Ite => unreachable!(),
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e]
    }

    pub fn kids(&self, e: E) -> ([E; 3], usize) {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }

    /// Sorted set of variables occurring in `e`.
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varset.get(&e) {
            return v.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.varset.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Var {
                self.varset.insert(x, Rc::new(vec![n.a]));
                stack.pop();
                continue;
            }
            let (k, c) = self.kids(x);
            let mut miss = false;
            for &i in &k[..c] {
                if !self.varset.contains_key(&i) {
                    stack.push(i);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let r = match c {
                0 => Rc::new(vec![]),
                1 => self.varset[&k[0]].clone(),
                _ => {
                    let mut acc: Rc<Vec<u32>> = self.varset[&k[0]].clone();
                    for &i in &k[1..c] {
                        let o = self.varset[&i].clone();
                        if Rc::ptr_eq(&acc, &o) || o.is_empty() {
                            continue;
                        }
                        if acc.is_empty() {
                            acc = o;
                            continue;
                        }
                        let mut m: Vec<u32> = acc.iter().chain(o.iter()).copied().collect();
                        m.sort_unstable();
                        m.dedup();
                        if m.len() == acc.len() {
                            continue;
                        }
                        acc = if m.len() == o.len() { o } else { Rc::new(m) };
                    }
                    acc
                }
            };
            self.varset.insert(x, r);
            stack.pop();
        }
        self.varset[&e].clone()
    }

    /// Rebuild `e` with the substitution `map` (memoised in `memo`).
    pub fn subst(&mut self, e: E, map: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
        if self.cv(e).is_some() {
            return e;
        }
        if let Some(&r) = map.get(&e) {
            return r;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        if n.op == Op::Var {
            return e;
        }
        let (k, c) = self.kids(e);
        let mut nk = k;
        let mut changed = false;
        for i in 0..c {
            nk[i] = self.subst(k[i], map, memo);
            changed |= nk[i] != k[i];
            if n.op == Op::Ite && i == 0 {
                if let Some(v) = self.cv(nk[0]) {
                    let r = if v == 1 { self.subst(n.b, map, memo) } else { self.subst(n.c, map, memo) };
                    memo.insert(e, r);
                    return r;
                }
            }
        }
        let r = if !changed { e } else { self.rebuild(n, nk) };
        memo.insert(e, r);
        r
    }
    fn rebuild(&mut self, n: Node, k: [E; 3]) -> E {
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => self.not(k[0]),
            Op::Add => self.add(k[0], k[1]),
            Op::Sub => self.sub(k[0], k[1]),
            Op::Mul => self.mul(k[0], k[1]),
            Op::UDiv => self.udiv(k[0], k[1]),
            Op::URem => self.urem(k[0], k[1]),
            Op::SDiv => self.sdiv(k[0], k[1]),
            Op::SRem => self.srem(k[0], k[1]),
            Op::Shl => self.shl(k[0], k[1]),
            Op::LShr => self.lshr(k[0], k[1]),
            Op::AShr => self.ashr(k[0], k[1]),
            Op::And => self.and(k[0], k[1]),
            Op::Or => self.or(k[0], k[1]),
            Op::Xor => self.xor(k[0], k[1]),
            Op::Concat => self.concat(k[0], k[1]),
            Op::Extract => self.extract(k[0], n.b as u8, n.w),
            Op::ZExt => self.zext(k[0], n.w),
            Op::SExt => self.sext(k[0], n.w),
            Op::Eq => self.eq(k[0], k[1]),
            Op::Ult => self.ult(k[0], k[1]),
            Op::Slt => self.slt(k[0], k[1]),
            Op::Ite => self.ite(k[0], k[1], k[2]),
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if let Some(v) = self.cv(e) {
            return format!("{:#x}:{}", v, self.w(e));
        }
        let n = self.n(e);
        if n.op == Op::Var {
            return format!("v{}:{}", n.a, n.w);
        }
        if depth == 0 {
            return format!("#{}", e);
        }
        let (k, c) = self.kids(e);
        let mut s = format!("({:?}:{}", n.op, n.w);
        if n.op == Op::Extract {
            s += &format!("@{}", n.b);
        }
        for &i in &k[..c] {
            s += " ";
            s += &self.show(i, depth - 1);
        }
        s + ")"
    }
}

fn bitceil(v: u128) -> u128 {
    if v == 0 {
        0
    } else {
        let lz = v.leading_zeros();
        if lz == 0 {
            u128::MAX
        } else {
            (1u128 << (128 - lz)) - 1
        }
    }
}
