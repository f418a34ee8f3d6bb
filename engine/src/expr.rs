//! Hash-consed bit-vector expressions (per worker), with a simplifier that keeps byte assembly,
//! selector tables and comparisons in a small canonical form.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
    Table,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub minv: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u128,
    pub vars: u128,
    pub h: u128,
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    ((v << (128 - w as u32)) as i128) >> (128 - w as u32)
}
pub fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(47)).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
    let y = x ^ (x >> 67);
    y.wrapping_mul(0xD6E8_FEB8_6659_FD93_A5A3_5672_1F3D_2F0B).wrapping_add(b) ^ (y >> 59)
}

pub fn fold(k: K, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match k {
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        K::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let s = sext(a, w);
            (s >> (b.min(127) as u32)) as u128
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Slt => (sext(a, w) < sext(b, w)) as u128,
        _ => unreachable!(),
    };
    match k {
        K::Eq | K::Ult | K::Slt => r,
        _ => r & m,
    }
}

pub struct Ctx {
    pub n: Vec<Node>,
    cons: FxMap<(u8, u8, E, E, E, u128), E>,
    pub tables: Vec<Rc<Vec<u128>>>,
    tcons: HashMap<Rc<Vec<u128>>, u32, BuildHasherDefault<Fx>>,
    tabs: HashMap<E, Rc<Vec<u128>>, BuildHasherDefault<Fx>>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { n: Vec::new(), cons: Default::default(), tables: vec![], tcons: Default::default(), tabs: Default::default(), memo: vec![], epoch: 0 }
    }
    fn mk(&mut self, k: K, w: u8, a: E, b: E, c: E, v: u128) -> E {
        let key = (k as u8, w, a, b, c, v);
        if let Some(e) = self.cons.get(&key) {
            return *e;
        }
        let arity = match k {
            K::Const | K::Var => 0,
            K::ZExt | K::SExt | K::Extract | K::Table => 1,
            K::Ite => 3,
            _ => 2,
        };
        let mut vars = 0u128;
        let mut minv = 255u8;
        let ch = [a, b, c];
        for x in &ch[..arity] {
            vars |= self.n[*x as usize].vars;
        }
        if k == K::Var {
            vars = 1u128 << v;
        }
        if vars != 0 {
            minv = vars.trailing_zeros() as u8;
        }
        let mut h = mix(0x1234_5678 + k as u128, w as u128);
        match k {
            K::Var => {}
            K::Table => {
                for x in self.tables[v as usize].iter() {
                    h = mix(h, *x);
                }
            }
            _ => h = mix(h, v),
        }
        for x in &ch[..arity] {
            let nx = &self.n[*x as usize];
            let rel = if nx.vars == 0 { 255 } else { nx.minv - minv };
            h = mix(mix(h, nx.h), rel as u128);
        }
        let id = self.n.len() as E;
        self.n.push(Node { k, w, minv, a, b, c, v, vars, h });
        self.cons.insert(key, id);
        id
    }
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn nd(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn cst(&mut self, v: u128, w: u8) -> E {
        self.mk(K::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, i: u32) -> E {
        self.mk(K::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn table(&mut self, sel: E, t: Vec<u128>, w: u8) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0], w);
        }
        if let Some(v) = self.is_c(sel) {
            let x = t.get(v as usize).copied().unwrap_or(0);
            return self.cst(x, w);
        }
        let rc = Rc::new(t);
        let id = match self.tcons.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(rc.clone());
                self.tcons.insert(rc, i);
                i
            }
        };
        self.mk(K::Table, w, sel, 0, 0, id as u128)
    }
    pub fn tab(&self, e: E) -> Option<(E, Rc<Vec<u128>>)> {
        let n = &self.n[e as usize];
        if n.k == K::Table {
            Some((n.a, self.tables[n.v as usize].clone()))
        } else {
            None
        }
    }
    /// operands are tables over one selector (or constants): returns the selector and its length
    fn same_sel(&self, es: &[E]) -> Option<(E, usize)> {
        let mut r: Option<(E, usize)> = None;
        for e in es {
            let n = &self.n[*e as usize];
            match n.k {
                K::Const => {}
                K::Table => {
                    let l = self.tables[n.v as usize].len();
                    match r {
                        None => r = Some((n.a, l)),
                        Some((s, l0)) if s == n.a && l0 == l => {}
                        _ => return None,
                    }
                }
                _ => return None,
            }
        }
        r
    }
    fn at(&self, e: E, i: usize) -> u128 {
        let n = &self.n[e as usize];
        match n.k {
            K::Const => n.v,
            _ => self.tables[n.v as usize][i],
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let one = self.cst(1, 1);
        self.bin(K::Xor, a, one)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(K::Eq, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.bin(K::Ult, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(K::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(K::Or, a, b)
    }

    pub fn bin(&mut self, k: K, mut a: E, mut b: E) -> E {
        let (na, nb) = (self.nd(a), self.nd(b));
        debug_assert_eq!(na.w, nb.w);
        let w = na.w;
        let rw = match k {
            K::Eq | K::Ult | K::Slt => 1,
            _ => w,
        };
        if na.k == K::Const && nb.k == K::Const {
            return self.cst(fold(k, w, na.v, nb.v), rw);
        }
        if let Some((s, l)) = self.same_sel(&[a, b]) {
            let t: Vec<u128> = (0..l).map(|i| fold(k, w, self.at(a, i), self.at(b, i))).collect();
            return self.table(s, t, rw);
        }
        // constants to the right for commutative operations
        if na.k == K::Const && matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) {
            std::mem::swap(&mut a, &mut b);
        } else if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) && nb.k != K::Const && (na.vars, na.h, a) > (nb.vars, nb.h, b) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.nd(a), self.nd(b));
        let cb = if nb.k == K::Const { Some(nb.v) } else { None };
        let m = mask(w);
        if w >= 16 && (matches!(k, K::Add | K::Sub) || (matches!(k, K::Mul | K::Shl) && cb.is_some() && na.k == K::Add)) {
            if let Some(r) = self.linear(k, a, b) {
                return r;
            }
        }
        match k {
            K::Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if na.k == K::Add {
                        if let Some(c2) = self.is_c(na.b) {
                            let s = self.cst(c.wrapping_add(c2), w);
                            return self.bin(K::Add, na.a, s);
                        }
                    }
                }
            }
            K::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    let n = self.cst(c.wrapping_neg(), w);
                    return self.bin(K::Add, a, n);
                }
            }
            K::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(K::Shl, a, s);
                    }
                }
            }
            K::UDiv => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(K::LShr, a, s);
                    }
                }
            }
            K::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(c - 1, w);
                        return self.bin(K::And, a, s);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    if (c & (c + 1)) == 0 {
                        let nbits = c.count_ones() as u8;
                        let x = self.extract(a, 0, nbits);
                        return self.zext(x, w);
                    }
                    let tz = c.trailing_zeros() as u8;
                    let hi = 128 - c.leading_zeros() as u8;
                    if (c >> tz) & ((c >> tz) + 1) == 0 {
                        // contiguous field
                        let x = self.extract(a, tz, hi - tz);
                        let z = self.cst(0, tz);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                if w > 1 {
                    if let Some(r) = self.split_bitop(k, a, b) {
                        return r;
                    }
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.split_bitop(k, a, b) {
                        return r;
                    }
                }
            }
            K::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if na.k == K::Xor {
                        if let Some(c2) = self.is_c(na.b) {
                            let s = self.cst(c ^ c2, w);
                            return self.bin(K::Xor, na.a, s);
                        }
                    }
                }
                if w > 1 {
                    if let Some(r) = self.split_bitop(k, a, b) {
                        return r;
                    }
                }
            }
            K::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(0, w);
                    }
                    let x = self.extract(a, 0, w - c as u8);
                    let z = self.cst(0, c as u8);
                    return self.concat(x, z);
                }
            }
            K::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(0, w);
                    }
                    let x = self.extract(a, c as u8, w - c as u8);
                    return self.zext(x, w);
                }
            }
            K::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = c.min(w as u128 - 1) as u8;
                    let x = self.extract(a, c, w - c);
                    return self.sext(x, w);
                }
            }
            K::Eq => return self.mk_eq(a, b),
            K::Ult => return self.mk_ult(a, b),
            K::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                // both known non-negative
                let sa = self.extract(a, w - 1, 1);
                let sb = self.extract(b, w - 1, 1);
                if let (Some(x), Some(y)) = (self.is_c(sa), self.is_c(sb)) {
                    if x == y {
                        return self.mk_ult(a, b);
                    }
                    return self.cst((x == 1) as u128, 1);
                }
                if na.k == K::SExt && nb.k == K::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(K::Slt, na.a, nb.a);
                }
            }
            _ => {}
        }
        self.mk(k, rw, a, b, 0, 0)
    }

    /// terms of a sum of tables over input bytes: adds `by` times the expression
    pub fn sum_terms(&mut self, e: E, by: u128, out: &mut std::collections::BTreeMap<u128, (E, Vec<u128>)>, add: &mut u128) -> bool {
        let n = self.nd(e);
        let m = mask(n.w);
        match n.k {
            K::Const => {
                *add = add.wrapping_add(n.v.wrapping_mul(by)) & m;
                true
            }
            K::Add => self.sum_terms(n.a, by, out, add) && self.sum_terms(n.b, by, out, add),
            K::Sub => self.sum_terms(n.a, by, out, add) && self.sum_terms(n.b, by.wrapping_neg() & m, out, add),
            K::Mul if self.is_c(n.b).is_some() => self.sum_terms(n.a, by.wrapping_mul(self.nd(n.b).v) & m, out, add),
            K::Shl if self.is_c(n.b).is_some() => {
                let c = self.nd(n.b).v;
                c < n.w as u128 && self.sum_terms(n.a, (by << c) & m, out, add)
            }
            _ if n.vars.count_ones() == 1 => {
                let (sel, t): (E, Rc<Vec<u128>>) = if n.k == K::Table && self.nd(n.a).k == K::Var {
                    (n.a, self.tables[n.v as usize].clone())
                } else {
                    (self.var(n.vars.trailing_zeros()), self.tabulate(e))
                };
                let x = out.entry(self.nd(sel).vars).or_insert((sel, vec![0; t.len()]));
                if x.1.len() != t.len() {
                    return false;
                }
                for (x, y) in x.1.iter_mut().zip(t.iter()) {
                    *x = x.wrapping_add(y.wrapping_mul(by)) & m;
                }
                true
            }
            _ => false,
        }
    }
    /// a sum in canonical form over at least two bytes
    fn is_sum(&self, e: E) -> bool {
        let n = self.nd(e);
        let b = self.nd(n.b).k;
        n.k == K::Add && n.vars.count_ones() > 1 && (b == K::Table || b == K::Const) && {
            let k = self.nd(n.a).k;
            k == K::Table || self.is_sum(n.a)
        }
    }
    /// the values of an expression over one input byte
    fn tabulate(&mut self, e: E) -> Rc<Vec<u128>> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let v = self.n[e as usize].vars.trailing_zeros() as usize;
        let mut m = vec![0u8; v + 1];
        let t: Rc<Vec<u128>> = Rc::new(
            (0..256)
                .map(|i| {
                    m[v] = i as u8;
                    self.eval(e, &m)
                })
                .collect(),
        );
        self.tabs.insert(e, t.clone());
        t
    }
    /// canonical form of sums of tables over several input bytes
    fn linear(&mut self, k: K, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let m = mask(w);
        let mut terms = Default::default();
        let mut add = 0u128;
        let ok = match k {
            K::Add => self.sum_terms(a, 1, &mut terms, &mut add) && self.sum_terms(b, 1, &mut terms, &mut add),
            K::Sub => self.sum_terms(a, 1, &mut terms, &mut add) && self.sum_terms(b, m, &mut terms, &mut add),
            K::Mul => self.sum_terms(a, self.is_c(b)?, &mut terms, &mut add),
            _ => {
                let c = self.is_c(b)?;
                c < w as u128 && self.sum_terms(a, 1 << c, &mut terms, &mut add)
            }
        };
        if !ok || (terms.len() < 2 && k != K::Sub) {
            return None;
        }
        let mut acc: Option<E> = None;
        for (_, (sel, mut t)) in terms {
            let z = t[0];
            add = add.wrapping_add(z) & m;
            for x in t.iter_mut() {
                *x = x.wrapping_sub(z) & m;
            }
            let t = self.table(sel, t, w);
            if self.is_c(t).is_some() {
                continue;
            }
            acc = Some(match acc {
                None => t,
                Some(a) => self.mk(K::Add, w, a, t, 0, 0),
            });
        }
        let c = self.cst(add, w);
        Some(match acc {
            None => c,
            Some(a) if add == 0 => a,
            Some(a) if self.nd(a).k == K::Table => return self.same_sel(&[a, c]).map(|_| self.bin(K::Add, a, c)),
            Some(a) => self.mk(K::Add, w, a, c, 0, 0),
        })
    }

    /// bitwise operation on operands with a common field boundary where one side is constant
    fn split_bitop(&mut self, k: K, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let bnd = |s: &Self, e: E| -> Option<u8> {
            let n = s.nd(e);
            match n.k {
                K::Concat => Some(s.w(n.b)),
                K::ZExt => Some(s.w(n.a)),
                _ => None,
            }
        };
        let mut cands = [bnd(self, a), bnd(self, b)];
        if cands[0].is_none() {
            cands.swap(0, 1);
        }
        for c in cands.iter().flatten() {
            let c = *c;
            let (ah, al) = (self.extract(a, c, w - c), self.extract(a, 0, c));
            let (bh, bl) = (self.extract(b, c, w - c), self.extract(b, 0, c));
            let easy = |s: &Self, x: E, y: E| s.is_c(x).is_some() || s.is_c(y).is_some();
            if easy(self, ah, bh) && easy(self, al, bl) {
                let h = self.bin(k, ah, bh);
                let l = self.bin(k, al, bl);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    fn mk_eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let (na, nb) = (self.nd(a), self.nd(b));
        let w = na.w;
        if nb.k == K::Const {
            let c = nb.v;
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
            match na.k {
                K::Concat => {
                    let wl = self.w(na.b);
                    let ch = self.cst(c >> wl, w - wl);
                    let cl = self.cst(c, wl);
                    let x = self.mk_eq(na.b, cl);
                    if self.is_c(x) == Some(0) {
                        return x;
                    }
                    let y = self.mk_eq(na.a, ch);
                    return self.and(x, y);
                }
                K::ZExt => {
                    let wl = self.w(na.a);
                    if c >> wl != 0 {
                        return self.cst(0, 1);
                    }
                    let cl = self.cst(c, wl);
                    return self.mk_eq2(na.a, cl);
                }
                K::SExt => {
                    let wl = self.w(na.a);
                    if (sext(c & mask(wl), wl) as u128) & mask(w) != c {
                        return self.cst(0, 1);
                    }
                    let cl = self.cst(c, wl);
                    return self.mk_eq2(na.a, cl);
                }
                K::Add => {
                    if let Some(c2) = self.is_c(na.b) {
                        let s = self.cst(c.wrapping_sub(c2), w);
                        return self.mk_eq2(na.a, s);
                    }
                }
                K::Xor => {
                    if let Some(c2) = self.is_c(na.b) {
                        let s = self.cst(c ^ c2, w);
                        return self.mk_eq2(na.a, s);
                    }
                    if c == 0 {
                        return self.mk_eq2(na.a, na.b);
                    }
                }
                K::Or if c == 0 => {
                    let x = self.mk_eq2(na.a, b);
                    let y = self.mk_eq2(na.b, b);
                    return self.and(x, y);
                }
                K::Sub if c == 0 => return self.mk_eq2(na.a, na.b),
                K::Ite => {
                    if let (Some(x), Some(y)) = (self.is_c(na.b), self.is_c(na.c)) {
                        return match (x == c, y == c) {
                            (true, true) => self.cst(1, 1),
                            (true, false) => na.a,
                            (false, true) => self.not(na.a),
                            _ => self.cst(0, 1),
                        };
                    }
                    if self.is_c(na.b).is_some() || self.is_c(na.c).is_some() {
                        let x = self.mk_eq2(na.b, b);
                        let y = self.mk_eq2(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.bin(K::Xor, a, b);
                return self.not(x);
            }
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if self.is_c(x) == Some(0) {
                    return x;
                }
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if (na.k == K::ZExt && nb.k == K::ZExt || na.k == K::SExt && nb.k == K::SExt) && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Add && nb.k == K::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Concat || nb.k == K::Concat {
                let wl = if na.k == K::Concat { self.w(na.b) } else { self.w(nb.b) };
                let (ah, al) = (self.extract(a, wl, w - wl), self.extract(a, 0, wl));
                let (bh, bl) = (self.extract(b, wl, w - wl), self.extract(b, 0, wl));
                let x = self.eq(ah, bh);
                if self.is_c(x) == Some(0) {
                    return x;
                }
                let y = self.eq(al, bl);
                return self.and(x, y);
            }
        }
        self.mk(K::Eq, 1, a, b, 0, 0)
    }
    fn mk_eq2(&mut self, a: E, b: E) -> E {
        self.bin(K::Eq, a, b)
    }

    fn mk_ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        let (na, nb) = (self.nd(a), self.nd(b));
        let w = na.w;
        let m = mask(w);
        if nb.k == K::Const {
            let c = nb.v;
            if c == 0 {
                return self.cst(0, 1);
            }
            if c == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if na.k == K::ZExt {
                let wl = self.w(na.a);
                if c > mask(wl) {
                    return self.cst(1, 1);
                }
                let cl = self.cst(c, wl);
                return self.ult(na.a, cl);
            }
            if c == m {
                let mc = self.cst(m, w);
                let e = self.eq(a, mc);
                return self.not(e);
            }
            if na.k == K::Concat {
                let wl = self.w(na.b);
                let hc = self.is_c(na.a);
                if let Some(h) = hc {
                    if h != c >> wl {
                        return self.cst((h < c >> wl) as u128, 1);
                    }
                    let cl = self.cst(c, wl);
                    return self.ult(na.b, cl);
                }
                if c & mask(wl) == 0 {
                    let ch = self.cst(c >> wl, w - wl);
                    return self.ult(na.a, ch);
                }
            }
        }
        if na.k == K::Const {
            // c < x  <=>  !(x < c+1)
            if na.v == m {
                return self.cst(0, 1);
            }
            let c1 = self.cst(na.v + 1, w);
            let e = self.ult(b, c1);
            return self.not(e);
        }
        if na.k == K::ZExt && nb.k == K::ZExt {
            let (x, y) = (self.w(na.a), self.w(nb.a));
            let t = x.max(y);
            if t < w {
                let p = self.zext(na.a, t);
                let q = self.zext(nb.a, t);
                return self.ult(p, q);
            }
        }
        self.mk(K::Ult, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Some((s, l)) = self.same_sel(&[c, a, b]) {
            let t: Vec<u128> = (0..l).map(|i| if self.at(c, i) == 1 { self.at(a, i) } else { self.at(b, i) }).collect();
            return self.table(s, t, w);
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let nc = self.nd(c);
        if nc.k == K::Xor && self.is_c(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        self.mk(K::Ite, w, c, a, b, 0)
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        let na = self.nd(a);
        if na.w == w {
            return a;
        }
        match na.k {
            K::Const => self.cst(na.v, w),
            K::ZExt => self.zext(na.a, w),
            K::Table => {
                let t = (*self.tables[na.v as usize]).clone();
                self.table(na.a, t, w)
            }
            _ => self.mk(K::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let na = self.nd(a);
        if na.w == w {
            return a;
        }
        match na.k {
            K::Const => self.cst(sext(na.v, na.w) as u128, w),
            K::SExt => self.sext(na.a, w),
            K::ZExt => self.zext(na.a, w),
            K::Table => {
                let t = self.tables[na.v as usize].iter().map(|x| sext(*x, na.w) as u128 & mask(w)).collect();
                self.table(na.a, t, w)
            }
            K::Ite if self.is_c(na.b).is_some() && self.is_c(na.c).is_some() => {
                let (x, y) = (self.sext(na.b, w), self.sext(na.c, w));
                self.ite(na.a, x, y)
            }
            _ => self.mk(K::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let na = self.nd(a);
        if lo == 0 && na.w == w {
            return a;
        }
        match na.k {
            K::Const => return self.cst(na.v >> lo, w),
            K::Extract => return self.extract(na.a, lo + na.v as u8, w),
            K::ZExt => {
                let wl = self.w(na.a);
                if lo >= wl {
                    return self.cst(0, w);
                }
                if lo + w <= wl {
                    return self.extract(na.a, lo, w);
                }
                let x = self.extract(na.a, lo, wl - lo);
                return self.zext(x, w);
            }
            K::SExt => {
                let wl = self.w(na.a);
                if lo + w <= wl {
                    return self.extract(na.a, lo, w);
                }
                if lo < wl {
                    let x = self.extract(na.a, lo, wl - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(na.a, wl - 1, 1);
                return self.sext(x, w);
            }
            K::Concat => {
                let wl = self.w(na.b);
                if lo >= wl {
                    return self.extract(na.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(na.b, lo, w);
                }
                let l = self.extract(na.b, lo, wl - lo);
                let h = self.extract(na.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            K::Table => {
                let t = self.tables[na.v as usize].iter().map(|x| (x >> lo) & mask(w)).collect();
                return self.table(na.a, t, w);
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.k, x, y);
            }
            K::Add if na.w >= 16 && self.is_sum(a) => {}
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.k, x, y);
            }
            K::Ite => {
                let x = self.extract(na.b, lo, w);
                let y = self.extract(na.c, lo, w);
                return self.ite(na.a, x, y);
            }
            _ => {}
        }
        self.mk(K::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.nd(h), self.nd(l));
        if nh.w == 0 {
            return l;
        }
        if nl.w == 0 {
            return h;
        }
        let w = nh.w + nl.w;
        if nh.k == K::Const && nl.k == K::Const {
            return self.cst((nh.v << nl.w) | nl.v, w);
        }
        if let Some((s, n)) = self.same_sel(&[h, l]) {
            let t = (0..n).map(|i| (self.at(h, i) << nl.w) | self.at(l, i)).collect();
            return self.table(s, t, w);
        }
        if nh.k == K::Const && nh.v == 0 {
            return self.zext(l, w);
        }
        if nh.k == K::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.k == K::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        if let Some(m) = self.join(h, l) {
            return m;
        }
        if nl.k == K::Concat {
            if let Some(m) = self.join(h, nl.a) {
                return self.concat(m, nl.b);
            }
        }
        if nl.k == K::ZExt && nh.k == K::Const {
            // c . (0 . x)
            let z = self.w(l) - self.w(nl.a);
            let c = self.cst(nh.v << z, nh.w + z);
            return self.concat(c, nl.a);
        }
        self.mk(K::Concat, w, h, l, 0, 0)
    }
    fn join(&mut self, h: E, l: E) -> Option<E> {
        let (nh, nl) = (self.nd(h), self.nd(l));
        if nh.k == K::Const && nl.k == K::Const {
            return Some(self.cst((nh.v << nl.w) | nl.v, nh.w + nl.w));
        }
        if nh.k == K::Extract {
            let (src, lo) = if nl.k == K::Extract { (nl.a, nl.v as u8) } else { return None };
            if src == nh.a && nh.v as u8 == lo + nl.w {
                return Some(self.extract(src, lo, nh.w + nl.w));
            }
        }
        if nh.k == K::Table && nl.k == K::Table && nh.a == nl.a {
            if let Some((s, n)) = self.same_sel(&[h, l]) {
                let t = (0..n).map(|i| (self.at(h, i) << nl.w) | self.at(l, i)).collect();
                return Some(self.table(s, t, nh.w + nl.w));
            }
        }
        None
    }

    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.nd(e);
        match n.k {
            K::Const => return n.v,
            K::Var => return m[n.v as usize] as u128,
            _ => {}
        }
        self.epoch += 1;
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len() * 2, (0, 0));
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return m[n.v as usize] as u128,
            _ => {}
        }
        if self.memo[e as usize].0 == self.epoch {
            return self.memo[e as usize].1;
        }
        let r = match n.k {
            K::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            K::ZExt => self.ev(n.a, m),
            K::SExt => {
                let w = self.n[n.a as usize].w;
                sext(self.ev(n.a, m), w) as u128 & mask(n.w)
            }
            K::Extract => (self.ev(n.a, m) >> n.v) & mask(n.w),
            K::Concat => {
                let wl = self.n[n.b as usize].w;
                (self.ev(n.a, m) << wl) | self.ev(n.b, m)
            }
            K::Table => {
                let s = self.ev(n.a, m) as usize;
                self.tables[n.v as usize].get(s).copied().unwrap_or(0)
            }
            k => {
                let w = self.n[n.a as usize].w;
                let a = self.ev(n.a, m);
                if w == 1 && k == K::And && a == 0 {
                    0
                } else if w == 1 && k == K::Or && a == 1 {
                    1
                } else {
                    let b = self.ev(n.b, m);
                    fold(k, w, a, b)
                }
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}
impl Ctx {
    /// arithmetic at a widened type
    pub fn mkwide(&mut self, k: K, a: E, b: E) -> E {
        self.bin(k, a, b)
    }
}

impl Ctx {
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nd(e);
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.k {
            K::Const => format!("{}", n.v),
            K::Var => format!("v{}", n.v),
            K::Table => {
                let t = &self.tables[n.v as usize];
                format!("T{}[{}; {:?}..]", n.w, self.show(n.a, d), &t[t.len().min(47)..t.len().min(51)])
            }
            K::Ite => format!("(ite {} {} {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            K::ZExt | K::SExt | K::Extract => format!("{:?}{}@{}({})", n.k, n.w, n.v, self.show(n.a, d)),
            k => format!("({:?}{} {} {})", k, n.w, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
