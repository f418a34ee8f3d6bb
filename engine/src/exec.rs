//! Symbolic interpreter for the IR.
use crate::expr::*;
use crate::ir::*;
use crate::solve::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (0 = concrete); expression 0 is reserved
    pub nsym: u32,
    pub writable: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<Val>,
    pub block: u32,
    pub prev: u32,
    pub pc: u32,
    pub allocas: Vec<u32>,
    pub ret_dst: u32,
    pub ret_block: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub path: Path,
    pub choices: Vec<u64>,
    pub replay: usize, // choices still to be replayed start here
    pub covers: [u64; 4],
    pub observes: Rc<Vec<Val>>,
    pub nvars: u32,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Done,
    AssumeFalse,
    Fail(u64),
    Panic(String),
    Limit,
    Depth,
    Error(String),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Sp {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memmove,
    Memset,
    Sym,
    Assume,
    Fail,
    Cover,
    Observe,
    Choose,
    Config,
    Concrete,
    Note,
    Nop,
    Intr,
}

pub fn special(name: &str) -> Sp {
    match name {
        "malloc" => Sp::Malloc,
        "calloc" => Sp::Calloc,
        "realloc" => Sp::CRealloc,
        "free" => Sp::Free,
        "memcmp" => Sp::Memcmp,
        "bcmp" => Sp::Bcmp,
        "strlen" => Sp::Strlen,
        "memcpy" => Sp::Memcpy,
        "memmove" => Sp::Memmove,
        "memset" => Sp::Memset,
        "verif_sym" => Sp::Sym,
        "verif_assume" => Sp::Assume,
        "verif_fail" => Sp::Fail,
        "verif_cover" => Sp::Cover,
        "verif_observe" => Sp::Observe,
        "verif_choose" => Sp::Choose,
        "verif_config" => Sp::Config,
        "verif_concrete" => Sp::Concrete,
        "verif_note" => Sp::Note,
        _ => {
            if name.starts_with("llvm.") {
                Sp::Intr
            } else if name.ends_with("___rust_alloc") || name == "__rust_alloc" {
                Sp::Alloc
            } else if name.ends_with("___rust_alloc_zeroed") || name == "__rust_alloc_zeroed" {
                Sp::AllocZ
            } else if name.ends_with("___rust_dealloc") || name == "__rust_dealloc" {
                Sp::Dealloc
            } else if name.ends_with("___rust_realloc") || name == "__rust_realloc" {
                Sp::Realloc
            } else if name.contains("__rust_no_alloc_shim_is_unstable") {
                Sp::Nop
            } else {
                Sp::None
            }
        }
    }
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
}

pub struct Exec {
    pub m: &'static Module,
    pub s: Solver,
    pub sp: Vec<Sp>,
    pub cfg: Vec<u64>,
    pub lim: Limits,
    pub pending: Vec<State>,
    pub seen: Vec<bool>, // functions executed
    pub globals: Vec<Option<Rc<Obj>>>,
    pub feas: FxMap<(E, u32), [u64; 4]>,
    pub forksites: HashMap<(u32, u32, u32), u64>,
    pub blocks_seen: Vec<Vec<u64>>,
    pub nforks: u64,
    pub split_and: bool,
    pub steps: u64,
}

type R<T> = Result<T, Outcome>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Outcome::Error(s.into()))
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exec {
    pub fn new(m: &'static Module, s: Solver, lim: Limits) -> Exec {
        let mut globals = vec![];
        for g in &m.globals {
            globals.push(if g.name == "<null>" || g.external {
                None
            } else {
                Some(Rc::new(Obj { data: g.data.clone(), sym: vec![], nsym: 0, writable: !g.constant }))
            });
        }
        for _ in &m.fns {
            globals.push(None);
        }
        let sp = m.fns.iter().map(|f| special(&f.name)).collect();
        let mut s = s;
        // expression 0 means "no expression" in memory
        s.x.cst(0, 1);
        Exec {
            m,
            s,
            sp,
            cfg: vec![],
            lim,
            pending: vec![],
            seen: vec![false; m.fns.len()],
            globals,
            feas: Default::default(),
            forksites: HashMap::new(),
            blocks_seen: vec![vec![]; m.fns.len()],
            nforks: 0,
            split_and: false,
            steps: 0,
        }
    }

    pub fn start(&mut self, entry: u32, prefix: Vec<u64>) -> State {
        let f = self.m.func(entry);
        State {
            stack: vec![],
            cur: self.frame(f, u32::MAX, None),
            mem: self.globals.clone(),
            free: vec![],
            path: Path::default(),
            choices: prefix,
            replay: 0,
            covers: [0; 4],
            observes: Rc::new(vec![]),
            nvars: 0,
            steps: 0,
            forks: 0,
        }
    }

    fn frame(&mut self, f: &'static Func, dst: u32, ret_block: Option<u32>) -> Frame {
        self.seen[f.id as usize] = true;
        Frame { f, regs: vec![Val::C(0); f.nregs as usize], block: 0, prev: 0, pc: 0, allocas: vec![], ret_dst: dst, ret_block }
    }

    // ---- values -------------------------------------------------------------------------
    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.cur.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::W(w) => Val::W(Rc::new(*w)),
            Op::K(k) => cval(k),
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.s.x.cst(*c as u128, w as u8),
            Val::W(x) => self.s.x.cst(**x, w as u8),
            Val::S(e) => {
                debug_assert_eq!(self.s.x.w(*e) as u32, w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.s.x.is_c(e) {
            Some(c) => {
                if self.s.x.w(e) > 64 {
                    Val::W(Rc::new(c))
                } else {
                    Val::C(c as u64)
                }
            }
            None => Val::S(e),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.cur.regs[d as usize] = v;
        }
    }

    // ---- forking ------------------------------------------------------------------------
    /// Which side of the condition does this state take? When both are possible, a copy of the
    /// state (which will execute the current instruction again) is queued for the other side.
    pub fn decide(&mut self, st: &mut State, cond: E) -> R<bool> {
        if let Some(v) = self.s.x.is_c(cond) {
            return Ok(v == 1);
        }
        if self.split_and {
            let n = self.s.x.nd(cond);
            if n.k == K::And {
                if !self.decide(st, n.a)? {
                    return Ok(false);
                }
                return self.decide(st, n.b);
            }
            if n.k == K::Xor && self.s.x.is_c(n.b) == Some(1) && self.s.x.nd(n.a).k == K::And {
                return Ok(!self.decide(st, n.a)?);
            }
        }
        if let Some(b) = self.bounds(st, cond) {
            return Ok(b);
        }
        match self.s.decide(&st.path, cond) {
            Decision::Only(b) => Ok(b),
            Decision::Unknown => err("solver gave no answer in time"),
            Decision::Both(side, om) => {
                self.nforks += 1;
                let ncond = self.s.x.not(cond);
                let tag = (self.s.x.nd(cond).h as u64) >> 2 << 1;
                if st.replay < st.choices.len() {
                    let c = st.choices[st.replay];
                    st.replay += 1;
                    if c >> 1 << 1 != tag {
                        return err("replay of a path prefix diverged");
                    }
                    let want = c & 1 == 1;
                    if want == side {
                        self.s.assume(&mut st.path, if side { cond } else { ncond }, None);
                    } else {
                        self.s.assume(&mut st.path, if want { cond } else { ncond }, Some(&om));
                    }
                    return Ok(want);
                }
                st.forks += 1;
                let site = (st.cur.f.id, st.cur.block, st.cur.pc);
                *self.forksites.entry(site).or_insert(0) += 1;
                let mut other = st.clone();
                other.choices.push(tag | (!side) as u64);
                other.replay = other.choices.len();
                self.s.assume(&mut other.path, if side { ncond } else { cond }, Some(&om));
                self.pending.push(other);
                st.choices.push(tag | side as u64);
                st.replay = st.choices.len();
                self.s.assume(&mut st.path, if side { cond } else { ncond }, None);
                Ok(side)
            }
        }
    }

    /// smallest and largest value of a sum of tables over input bytes, when it cannot wrap around
    fn sum_range(&mut self, st: &State, e: E, signed: bool) -> Option<(i128, i128)> {
        let n = self.s.x.nd(e);
        if n.w > 64 {
            return None;
        }
        let mut terms = Default::default();
        let mut add = 0u128;
        if !self.s.x.sum_terms(e, 1, &mut terms, &mut add) {
            return None;
        }
        // the values of the terms are read as signed numbers; their sum is exact when it stays
        // within the range of the type
        let s = |v: u128| sx(v as u64, n.w as u32) as i128;
        let (mut lo, mut hi) = (s(add), s(add));
        for (_, (sel, t)) in terms {
            let d = self.domain(st, self.s.x.n[sel as usize].vars.trailing_zeros(), t.len());
            let base = s(t[d.iter().position(|x| *x)?]);
            let (mut l, mut h) = (base, base);
            for (x, ok) in t.iter().zip(&d) {
                if *ok {
                    l = l.min(s(*x));
                    h = h.max(s(*x));
                }
            }
            lo += l;
            hi += h;
        }
        let (a, b) = if signed { (-(1i128 << (n.w - 1)), (1i128 << (n.w - 1)) - 1) } else { (0, (1i128 << n.w) - 1) };
        if lo < a || hi > b {
            return None;
        }
        Some((lo, hi))
    }
    /// comparisons of sums that the ranges of the bytes decide
    fn bounds(&mut self, st: &State, cond: E) -> Option<bool> {
        let n = self.s.x.nd(cond);
        if n.vars.count_ones() == 1 && !matches!(n.k, K::Extract) {
            return None;
        }
        match n.k {
            K::Const => Some(n.v == 1),
            K::Xor => match (self.bounds(st, n.a), self.bounds(st, n.b)) {
                (Some(a), Some(b)) => Some(a != b),
                _ => None,
            },
            K::Extract if n.w == 1 && n.v as u8 == self.s.x.w(n.a) - 1 => {
                let (lo, hi) = self.sum_range(st, n.a, true)?;
                if hi < 0 {
                    Some(true)
                } else if lo >= 0 {
                    Some(false)
                } else {
                    None
                }
            }
            K::And => match (self.bounds(st, n.a), self.bounds(st, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            K::Or => match (self.bounds(st, n.a), self.bounds(st, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            K::Slt | K::Ult | K::Eq => {
                if self.s.x.nd(n.a).k != K::Add && self.s.x.nd(n.b).k != K::Add {
                    return None;
                }
                let signed = n.k != K::Ult;
                let (al, ah) = self.sum_range(st, n.a, signed)?;
                let (bl, bh) = self.sum_range(st, n.b, signed)?;
                if n.k == K::Eq {
                    return if ah < bl || bh < al { Some(false) } else { None };
                }
                if ah < bl {
                    Some(true)
                } else if al >= bh {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let e = match self.s.x.nd(*e) {
                    n if n.k == K::ZExt => &{ n.a },
                    _ => e,
                };
                let w = self.s.x.w(*e) as u32;
                loop {
                    let k = self.s.x.eval(*e, &st.path.model);
                    let kc = self.s.x.cst(k, w as u8);
                    let c = self.s.x.eq(*e, kc);
                    if self.decide(st, c)? {
                        return Ok(k as u64);
                    }
                }
            }
            _ => err("concretize wide value"),
        }
    }

    /// operands of floating-point arithmetic: the input bytes they depend on become concrete
    fn concretize_f(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        if let Val::S(e) = v {
            let mut vars = self.s.x.n[*e as usize].vars & !st.path.fixed;
            while vars != 0 {
                let i = vars.trailing_zeros();
                vars &= vars - 1;
                let ve = self.s.x.var(i);
                self.concretize(st, &Val::S(ve), 8)?;
            }
            return Ok(self.s.x.eval(*e, &st.path.model) as u64);
        }
        self.concretize(st, v, w)
    }

    /// values of the variable that the path's constraints may allow (over-approximation)
    fn domain(&mut self, st: &State, var: u32, n: usize) -> Vec<bool> {
        let mut r = vec![true; n];
        let bit = 1u128 << var;
        let mut m = st.path.model.clone();
        for g in &st.path.groups {
            if g.vars & bit == 0 {
                continue;
            }
            for c in &g.cons {
                if self.s.x.n[*c as usize].vars != bit {
                    continue;
                }
                let f = match self.feas.get(&(*c, var)) {
                    Some(f) => *f,
                    None => {
                        let mut f = [0u64; 4];
                        for i in 0..256usize {
                            m[var as usize] = i as u8;
                            if self.s.x.eval(*c, &m) == 1 {
                                f[i / 64] |= 1 << (i % 64);
                            }
                        }
                        self.feas.insert((*c, var), f);
                        f
                    }
                };
                for (i, x) in r.iter_mut().enumerate() {
                    *x &= f[i / 64] >> (i % 64) & 1 == 1;
                }
            }
        }
        r
    }

    /// an expression over one input byte as a table over that byte: (var expr, var, values, domain)
    fn as_table(&mut self, st: &State, e: E) -> Option<(E, Vec<u128>, Vec<bool>)> {
        let vars = self.s.x.n[e as usize].vars;
        if vars.count_ones() != 1 {
            return None;
        }
        let var = vars.trailing_zeros();
        let mut n = 256;
        let t = if let Some((s, t)) = self.s.x.tab(e) {
            if self.s.x.nd(s).k == K::Var {
                n = t.len();
                Some((*t).clone())
            } else {
                None
            }
        } else {
            None
        };
        let dom = self.domain(st, var, n);
        let t = match t {
            Some(t) => t,
            None => {
                let mut m = st.path.model.clone();
                (0..n)
                    .map(|i| {
                        if !dom[i] {
                            return 0;
                        }
                        m[var as usize] = i as u8;
                        self.s.x.eval(e, &m)
                    })
                    .collect()
            }
        };
        let ve = self.s.x.var(var);
        Some((ve, t, dom))
    }

    // ---- memory -------------------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > 1 << 26 {
            return err("allocation too large");
        }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![], nsym: 0, writable: true });
        let id = match st.free.pop() {
            Some(i) => {
                st.mem[i as usize] = Some(o);
                i
            }
            None => {
                st.mem.push(Some(o));
                st.mem.len() as u32 - 1
            }
        };
        Ok(obj_addr(id))
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != OBJ_BASE || id < self.globals.len() || id >= st.mem.len() || st.mem[id].is_none() {
            return err(format!("bad free of {:x}", addr));
        }
        st.mem[id] = None;
        st.free.push(id as u32);
        Ok(())
    }
    fn obj<'a>(&self, st: &'a State, addr: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_BASE);
        match st.mem.get(id) {
            Some(Some(o)) if off.checked_add(n).map_or(false, |e| e <= o.data.len() as u64) => Ok((o, off as usize)),
            _ => {
                let g = self.m.globals.get(id).map(|g| g.name.clone()).unwrap_or_default();
                err(format!("invalid access of {} bytes at {:x} {}", n, addr, g))
            }
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        self.obj(st, addr, n)?;
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) - OBJ_BASE;
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        if !o.writable {
            return err("write to constant");
        }
        Ok((o, off as usize))
    }
    fn load_e(x: &mut Ctx, o: &Obj, off: usize, n: usize) -> E {
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            // group concrete bytes
            let piece = if o.sym[off + i] != 0 {
                i += 1;
                o.sym[off + i - 1]
            } else {
                let mut v = 0u128;
                let mut k = 0;
                while i < n && o.sym[off + i] == 0 {
                    v |= (o.data[off + i] as u128) << (8 * k);
                    k += 1;
                    i += 1;
                }
                x.cst(v, 8 * k as u8)
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => x.concat(piece, a),
            });
        }
        acc.unwrap()
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Val> {
        let (o, off) = self.obj(st, addr, n)?;
        let n = n as usize;
        if o.nsym == 0 || o.sym[off..off + n].iter().all(|s| *s == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::W(Rc::new(u128::from_le_bytes(b))));
        }
        let e = Self::load_e(&mut self.s.x, o, off, n);
        Ok(self.v(e))
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        let x = &mut self.s.x;
        let mut parts: Vec<E> = vec![];
        if let Val::S(e) = v {
            for i in 0..n {
                parts.push(x.extract(*e, 8 * i as u8, 8));
            }
        }
        let consts: Vec<Option<u128>> = parts.iter().map(|p| x.is_c(*p)).collect();
        let (o, off) = self.obj_mut(st, addr, n)?;
        let n = n as usize;
        match v {
            Val::C(c) => o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]),
            Val::W(c) => o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]),
            Val::S(_) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    let was = o.sym[off + i] != 0;
                    match consts[i] {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                            o.nsym -= was as u32;
                        }
                        None => {
                            o.sym[off + i] = parts[i];
                            o.nsym += !was as u32;
                        }
                    }
                }
                return Ok(());
            }
            Val::A(_) => return err("store aggregate"),
        }
        if o.nsym > 0 {
            for i in 0..n {
                if o.sym[off + i] != 0 {
                    o.sym[off + i] = 0;
                    o.nsym -= 1;
                }
            }
        }
        Ok(())
    }

    fn load(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        let a = match p {
            Val::C(a) => *a,
            Val::S(e) => {
                if let (true, Some((ve, tab, dom))) = (t.is_scalar(), self.as_table(st, *e)) {
                    if let Some(v) = self.load_table(st, t, ve, &tab, &dom)? {
                        return Ok(v);
                    }
                }
                self.concretize(st, p, 64)?
            }
            _ => return err("load address"),
        };
        self.load_at(st, t, a)
    }
    fn load_table(&mut self, st: &mut State, t: &Ty, ve: E, tab: &[u128], dom: &[bool]) -> R<Option<Val>> {
        let n = t.store_size();
        let mut out = vec![0u128; tab.len()];
        let mut bad = vec![1u128; tab.len()];
        let mut any_bad = false;
        let mut first = None;
        for (i, a) in tab.iter().enumerate() {
            if !dom[i] {
                continue;
            }
            match self.obj(st, *a as u64, n) {
                Err(_) => {
                    bad[i] = 0;
                    any_bad = true;
                }
                Ok((o, off)) => {
                    if o.nsym != 0 && o.sym[off..off + n as usize].iter().any(|s| *s != 0) {
                        return Ok(None);
                    }
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
                    let mut v = u128::from_le_bytes(b);
                    if t.bits() < 8 * n as u32 {
                        v &= mask(t.bits() as u8);
                    }
                    out[i] = v;
                    first.get_or_insert(v);
                }
            }
        }
        if any_bad {
            let c = self.s.x.table(ve, bad, 1);
            if !self.decide(st, c)? {
                return err("invalid access through an input-dependent address");
            }
        }
        let fill = first.unwrap_or(0);
        for (i, d) in dom.iter().enumerate() {
            if !d {
                out[i] = fill;
            }
        }
        let e = self.s.x.table(ve, out, t.bits() as u8);
        Ok(Some(self.v(e)))
    }
    fn load_at(&mut self, st: &State, t: &Ty, a: u64) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = t.store_size();
                let w = t.bits();
                if n > 16 {
                    return err("load of a wide integer");
                }
                let v = self.load_bytes(st, a, n)?;
                if w as u64 == 8 * n {
                    return Ok(v);
                }
                match v {
                    Val::C(c) => Ok(Val::C(c & m64(w))),
                    Val::W(c) => Ok(Val::W(Rc::new(*c & mask(w as u8)))),
                    Val::S(e) => {
                        let e = self.s.x.extract(e, 0, w as u8);
                        Ok(self.v(e))
                    }
                    v => Ok(v),
                }
            }
            _ => {
                let mut out = vec![];
                for i in 0..t.count() {
                    let (o, ft) = t.field(i);
                    out.push(self.load_at(st, ft, a + o)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
        }
    }
    fn store_at(&mut self, st: &mut State, t: &Ty, a: u64, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = t.store_size();
                let w = t.bits();
                if w as u64 == 8 * n {
                    return self.store_bytes(st, a, n, v);
                }
                let v = match v {
                    Val::S(e) => {
                        let e = self.s.x.zext(*e, 8 * n as u8);
                        self.v(e)
                    }
                    v => v.clone(),
                };
                self.store_bytes(st, a, n, &v)
            }
            _ => {
                let vs = match v {
                    Val::A(x) => x.clone(),
                    _ => return err("store of a non-aggregate"),
                };
                for i in 0..t.count() {
                    let (o, ft) = t.field(i);
                    self.store_at(st, ft, a + o, &vs[i])?;
                }
                Ok(())
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, dst: &Val, src: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n, 64)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, dst, 64)?;
        let s = match src {
            Val::C(s) => *s,
            Val::S(e) => {
                // pointwise
                if let Some((ve, tab, dom)) = self.as_table(st, *e) {
                    let mut vals = vec![];
                    let mut ok = true;
                    for i in 0..n {
                        let t2: Vec<u128> = tab.iter().map(|a| a.wrapping_add(i as u128)).collect();
                        match self.load_table(st, &Ty::Int(8), ve, &t2, &dom)? {
                            Some(v) => vals.push(v),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        for (i, v) in vals.iter().enumerate() {
                            self.store_bytes(st, d + i as u64, 1, v)?;
                        }
                        return Ok(());
                    }
                }
                self.concretize(st, src, 64)?
            }
            _ => return err("memcpy src"),
        };
        let (so, soff) = {
            let (o, off) = self.obj(st, s, n)?;
            (o.clone(), off)
        };
        let n = n as usize;
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        let src_sym = so.nsym != 0;
        if src_sym || o.nsym != 0 {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            for i in 0..n {
                let ns = if src_sym { so.sym[soff + i] } else { 0 };
                let was = o.sym[off + i] != 0;
                o.nsym = o.nsym + (ns != 0) as u32 - was as u32;
                o.sym[off + i] = ns;
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, dst: &Val, b: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n, 64)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, dst, 64)?;
        if let Val::C(c) = b {
            let c = *c as u8;
            let (o, off) = self.obj_mut(st, d, n)?;
            for i in off..off + n as usize {
                o.data[i] = c;
                if o.nsym > 0 && o.sym[i] != 0 {
                    o.sym[i] = 0;
                    o.nsym -= 1;
                }
            }
            return Ok(());
        }
        for i in 0..n {
            self.store_bytes(st, d + i, 1, b)?;
        }
        Ok(())
    }
    fn compare(&mut self, st: &mut State, a: &Val, b: &Val, n: &Val, eq_only: bool) -> R<Val> {
        let n = self.concretize(st, n, 64)?;
        if n == 0 {
            return Ok(Val::C(0));
        }
        let mut va = vec![];
        let mut vb = vec![];
        for i in 0..n {
            for (p, out) in [(a, &mut va), (b, &mut vb)] {
                let q = match p {
                    Val::C(c) => Val::C(c + i),
                    Val::S(e) => {
                        let k = self.s.x.cst(i as u128, 64);
                        let e = self.s.x.bin(K::Add, *e, k);
                        self.v(e)
                    }
                    _ => return err("memcmp"),
                };
                out.push(self.load(st, &Ty::Int(8), &q)?);
            }
        }
        if eq_only {
            let mut acc = self.s.x.cst(1, 1);
            for i in 0..n as usize {
                if let (Val::C(x), Val::C(y)) = (&va[i], &vb[i]) {
                    if x != y {
                        return Ok(Val::C(1));
                    }
                }
            }
            for i in 0..n as usize {
                let (x, y) = (self.e(&va[i], 8), self.e(&vb[i], 8));
                let q = self.s.x.eq(x, y);
                acc = self.s.x.and(acc, q);
            }
            let (z, o) = (self.s.x.cst(0, 32), self.s.x.cst(1, 32));
            let r = self.s.x.ite(acc, z, o);
            return Ok(self.v(r));
        }
        let mut r = self.s.x.cst(0, 32);
        for i in (0..n as usize).rev() {
            let (x, y) = (self.e(&va[i], 8), self.e(&vb[i], 8));
            let q = self.s.x.eq(x, y);
            let l = self.s.x.ult(x, y);
            let (p, o) = (self.s.x.cst(u32::MAX as u128, 32), self.s.x.cst(1, 32));
            let d = self.s.x.ite(l, p, o);
            r = self.s.x.ite(q, r, d);
        }
        Ok(self.v(r))
    }

    // ---- instructions -------------------------------------------------------------------
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx(x, w) >> y.min(63)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return err("division by zero"),
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                    Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                };
                return Ok(Val::C(r & m64(w)));
            }
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.bin(op, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        if w > 128 {
            return err("wide arithmetic");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let k = match op {
            Bin::Add => K::Add,
            Bin::Sub => K::Sub,
            Bin::Mul => K::Mul,
            Bin::UDiv => K::UDiv,
            Bin::SDiv => K::SDiv,
            Bin::URem => K::URem,
            Bin::SRem => K::SRem,
            Bin::And => K::And,
            Bin::Or => K::Or,
            Bin::Xor => K::Xor,
            Bin::Shl => K::Shl,
            Bin::LShr => K::LShr,
            Bin::AShr => K::AShr,
        };
        let r = self.s.x.bin(k, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx(x, w) < sx(y, w),
                    Pred::Sle => sx(x, w) <= sx(y, w),
                    Pred::Sgt => sx(x, w) > sx(y, w),
                    Pred::Sge => sx(x, w) >= sx(y, w),
                };
                return Val::C(r as u64);
            }
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let out = (0..x.len()).map(|i| self.icmp(p, w, &x[i], &y[i])).collect();
            return Val::A(Rc::new(out));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = &mut self.s.x;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => {
                let e = c.ult(x, y);
                c.not(e)
            }
            Pred::Ule => {
                let e = c.ult(y, x);
                c.not(e)
            }
            Pred::Slt => c.bin(K::Slt, x, y),
            Pred::Sgt => c.bin(K::Slt, y, x),
            Pred::Sge => {
                let e = c.bin(K::Slt, x, y);
                c.not(e)
            }
            Pred::Sle => {
                let e = c.bin(K::Slt, y, x);
                c.not(e)
            }
        };
        self.v(r)
    }
    fn cast(&mut self, c: Cast, from: u32, to: u32, a: &Val) -> R<Val> {
        match a {
            Val::C(x) if to <= 64 => Ok(Val::C(match c {
                Cast::Trunc => x & m64(to),
                Cast::ZExt => *x,
                Cast::SExt => sx(*x, from) as u64 & m64(to),
            })),
            Val::A(v) => {
                let mut out = vec![];
                for x in v.iter() {
                    out.push(self.cast(c, from, to, x)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => {
                if from > 128 || to > 128 {
                    return err("wide cast");
                }
                let e = self.e(a, from);
                let r = match c {
                    Cast::Trunc => self.s.x.extract(e, 0, to as u8),
                    Cast::ZExt => self.s.x.zext(e, to as u8),
                    Cast::SExt => self.s.x.sext(e, to as u8),
                };
                Ok(self.v(r))
            }
        }
    }
    fn bitcast(&mut self, f: &Ty, t: &Ty, a: &Val) -> R<Val> {
        if f.is_scalar() && t.is_scalar() {
            return Ok(a.clone());
        }
        // through a flat bit string
        let mut pieces: Vec<(E, u32)> = vec![];
        match (f, a) {
            (Ty::Vec(_, et), Val::A(v)) => {
                for x in v.iter() {
                    pieces.push((self.e(x, et.bits()), et.bits()));
                }
            }
            _ => pieces.push((self.e(a, f.bits()), f.bits())),
        }
        let total: u32 = pieces.iter().map(|p| p.1).sum();
        if total > 128 {
            return err("wide bitcast");
        }
        let mut acc: Option<E> = None;
        for (p, _) in pieces {
            acc = Some(match acc {
                None => p,
                Some(x) => self.s.x.concat(p, x),
            });
        }
        let acc = acc.unwrap();
        match t {
            Ty::Vec(n, et) => {
                let b = et.bits();
                let mut out = vec![];
                for i in 0..*n {
                    let e = self.s.x.extract(acc, (i * b) as u8, b as u8);
                    out.push(self.v(e));
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => Ok(self.v(acc)),
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let f = st.cur.f;
        let from = st.cur.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let v = self.phi(st, inc, from);
                st.cur.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = blk.phis.iter().map(|(_, inc)| self.phi(st, inc, from)).collect();
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.prev = from;
        st.cur.block = b;
        st.cur.pc = 0;
        let seen = &mut self.blocks_seen[f.id as usize];
        if seen.is_empty() {
            seen.resize(f.blocks.len() / 64 + 1, 0);
        }
        seen[b as usize / 64] |= 1 << (b % 64);
    }
    fn phi(&self, st: &State, inc: &[(u32, Op)], from: u32) -> Val {
        for (b, o) in inc {
            if *b == from {
                return self.get(st, o);
            }
        }
        panic!("phi without predecessor")
    }

    fn pop_frame(&mut self, st: &mut State, v: Option<Val>) -> R<bool> {
        let allocas = std::mem::take(&mut st.cur.allocas);
        for a in allocas {
            st.mem[a as usize] = None;
            st.free.push(a);
        }
        let (dst, rb) = (st.cur.ret_dst, st.cur.ret_block);
        match st.stack.pop() {
            None => Ok(true),
            Some(f) => {
                st.cur = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                if let Some(v) = v {
                    Self::set(st, dst, v);
                }
                if let Some(b) = rb {
                    self.goto(st, b);
                }
                Ok(false)
            }
        }
    }

    /// Runs until the path ends.
    pub fn run(&mut self, st: &mut State) -> Outcome {
        loop {
            match self.step(st) {
                Ok(None) => {}
                Ok(Some(o)) => return o,
                Err(o) => return o,
            }
        }
    }

    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.stack.iter().map(|f| self.m.fns[f.f.id as usize].name.clone()).collect();
        v.push(self.m.fns[st.cur.f.id as usize].name.clone());
        v
    }

    /// executes instructions of the current block up to its terminator or a call
    fn step(&mut self, st: &mut State) -> R<Option<Outcome>> {
        let f = st.cur.f;
        let blk = &f.blocks[st.cur.block as usize];
        let start = st.cur.pc as usize;
        let r = self.block(st, blk, start);
        let n = (st.cur.pc as usize).saturating_sub(start) as u64 + 1;
        st.steps += n;
        self.steps += n;
        if st.steps > self.lim.steps {
            return Ok(Some(Outcome::Limit));
        }
        r
    }

    fn block(&mut self, st: &mut State, blk: &'static Block, start: usize) -> R<Option<Outcome>> {
        let mut i = start;
        loop {
            let inst = &blk.insts[i];
            st.cur.pc = i as u32;
            i += 1;
            match inst {
                Inst::Bin(op, w, _, a, b, d) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let r = match self.bin(*op, *w, &x, &y) {
                        Ok(r) => {
                            if let (Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem, Val::S(ye)) = (op, &y) {
                                let z = self.s.x.cst(0, *w as u8);
                                let c = self.s.x.eq(*ye, z);
                                if self.decide(st, c)? {
                                    return err("division by zero");
                                }
                            }
                            r
                        }
                        Err(e) => return Err(e),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Icmp(p, w, _, a, b, d) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let r = self.icmp(*p, *w, &x, &y);
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Cast(c, fw, tw, _, a, d) => {
                    let x = self.get(st, a);
                    let r = self.cast(*c, *fw, *tw, &x)?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Move(a, d) => {
                    let x = self.get(st, a);
                    st.cur.regs[*d as usize] = x;
                }
                Inst::Load(t, p, d) => {
                    let x = self.get(st, p);
                    let r = self.load(st, t, &x)?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Store(t, v, p) => {
                    let x = self.get(st, p);
                    let a = self.concretize(st, &x, 64)?;
                    let v = self.get(st, v);
                    self.store_at(st, t, a, &v)?;
                }
                Inst::Gep(b, off, idx, d) => {
                    let x = self.get(st, b);
                    let mut conc = if let Val::C(c) = &x { Some(c.wrapping_add(*off as u64)) } else { None };
                    if conc.is_some() {
                        for (o, w, s) in idx {
                            match self.get(st, o) {
                                Val::C(k) => conc = conc.map(|c| c.wrapping_add((sx(k, *w).wrapping_mul(*s)) as u64)),
                                _ => {
                                    conc = None;
                                    break;
                                }
                            }
                        }
                    }
                    let r = match conc {
                        Some(c) => Val::C(c),
                        None => {
                            let mut acc = self.e(&x, 64);
                            let oc = self.s.x.cst(*off as u64 as u128, 64);
                            acc = self.s.x.bin(K::Add, acc, oc);
                            for (o, w, s) in idx {
                                let k = self.get(st, o);
                                let k = self.cast(Cast::SExt, *w, 64, &k)?;
                                let k = self.e(&k, 64);
                                let sc = self.s.x.cst(*s as u64 as u128, 64);
                                let p = self.s.x.bin(K::Mul, k, sc);
                                acc = self.s.x.bin(K::Add, acc, p);
                            }
                            self.v(acc)
                        }
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Br(b) => {
                    self.goto(st, *b);
                    return Ok(None);
                }
                Inst::CondBr(c, a, b) => {
                    let t = match self.get(st, c) {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.decide(st, e)?,
                        _ => return err("branch"),
                    };
                    self.goto(st, if t { *a } else { *b });
                    return Ok(None);
                }
                Inst::Switch(w, v, def, cases) => {
                    let x = self.get(st, v);
                    let t = self.switch(st, *w, &x, *def, cases)?;
                    self.goto(st, t);
                    return Ok(None);
                }
                Inst::Select(lanes, t, c, a, b, d) => {
                    let cv = self.get(st, c);
                    let r = match cv {
                        Val::C(x) => self.get(st, if x == 1 { a } else { b }),
                        Val::S(e) => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            if t.is_scalar() {
                                let w = t.bits();
                                let (x, y) = (self.e(&x, w), self.e(&y, w));
                                let r = self.s.x.ite(e, x, y);
                                self.v(r)
                            } else if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        Val::A(cs) if *lanes > 0 => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            let (Val::A(x), Val::A(y), Ty::Vec(_, et)) = (x, y, t) else { return err("vector select") };
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    Val::S(e) => {
                                        let (p, q) = (self.e(&x[i], et.bits()), self.e(&y[i], et.bits()));
                                        let r = self.s.x.ite(*e, p, q);
                                        self.v(r)
                                    }
                                    _ => return err("vector select"),
                                });
                            }
                            Val::A(Rc::new(out))
                        }
                        _ => return err("select"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Alloca(size, n, d) => {
                    let n = self.get(st, n);
                    let n = self.concretize(st, &n, 64)?;
                    let a = self.alloc(st, size * n)?;
                    st.cur.allocas.push((a >> 32) as u32);
                    st.cur.regs[*d as usize] = Val::C(a);
                }
                Inst::ExtractValue(a, ix, d) => {
                    let mut x = self.get(st, a);
                    for k in ix {
                        x = match x {
                            Val::A(v) => v[*k as usize].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    st.cur.regs[*d as usize] = x;
                }
                Inst::InsertValue(a, v, ix, d) => {
                    let x = self.get(st, a);
                    let v = self.get(st, v);
                    let r = insert(&x, ix, v);
                    st.cur.regs[*d as usize] = r;
                }
                Inst::ExtractElem(a, k, d) => {
                    let x = self.get(st, a);
                    let k = self.get(st, k);
                    let k = self.concretize(st, &k, 64)?;
                    let r = match x {
                        Val::A(v) if (k as usize) < v.len() => v[k as usize].clone(),
                        _ => return err("extractelement"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::InsertElem(a, v, k, d) => {
                    let x = self.get(st, a);
                    let v = self.get(st, v);
                    let k = self.get(st, k);
                    let k = self.concretize(st, &k, 64)?;
                    let r = insert(&x, &[k as u32], v);
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Shuffle(a, b, n, m, d) => {
                    let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) else { return err("shuffle") };
                    let out = m
                        .iter()
                        .map(|k| {
                            let k = *k as u32;
                            if k < *n {
                                x[k as usize].clone()
                            } else {
                                y[(k - n) as usize].clone()
                            }
                        })
                        .collect();
                    st.cur.regs[*d as usize] = Val::A(Rc::new(out));
                }
                Inst::Bitcast(ft, tt, a, d) => {
                    let x = self.get(st, a);
                    let r = self.bitcast(ft, tt, &x)?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::FBin(op, w, a, b, d) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let x = self.concretize_f(st, &x, *w)?;
                    let y = self.concretize_f(st, &y, *w)?;
                    let r = if *w == 32 {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            FBin::Add => p + q,
                            FBin::Sub => p - q,
                            FBin::Mul => p * q,
                            FBin::Div => p / q,
                            FBin::Rem => p % q,
                        })
                        .to_bits() as u64
                    } else {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            FBin::Add => p + q,
                            FBin::Sub => p - q,
                            FBin::Mul => p * q,
                            FBin::Div => p / q,
                            FBin::Rem => p % q,
                        })
                        .to_bits()
                    };
                    st.cur.regs[*d as usize] = Val::C(r);
                }
                Inst::FCmp(p, w, a, b, d) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let x = self.concretize_f(st, &x, *w)?;
                    let y = self.concretize_f(st, &y, *w)?;
                    let (x, y) = if *w == 32 {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    } else {
                        (f64::from_bits(x), f64::from_bits(y))
                    };
                    let uno = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "one" => !uno && x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ord" => !uno,
                        "uno" => uno,
                        "ueq" => uno || x == y,
                        "une" => x != y,
                        "ult" => uno || x < y,
                        "ule" => uno || x <= y,
                        "ugt" => uno || x > y,
                        "uge" => uno || x >= y,
                        _ => return err("fcmp"),
                    };
                    st.cur.regs[*d as usize] = Val::C(r as u64);
                }
                Inst::FNeg(w, a, d) => {
                    let x = self.get(st, a);
                    let k = if *w == 32 { 1u64 << 31 } else { 1u64 << 63 };
                    let r = self.bin(Bin::Xor, *w, &x, &Val::C(k))?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::FCast(c, fw, tw, a, d) => {
                    let x = self.get(st, a);
                    let x = self.concretize_f(st, &x, *fw)?;
                    let fp = |v: u64, w: u32| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                    let r = match c {
                        FCast::SiToFp if *tw == 32 => (sx(x, *fw) as f32).to_bits() as u64,
                        FCast::SiToFp => (sx(x, *fw) as f64).to_bits(),
                        FCast::UiToFp if *tw == 32 => (x as f32).to_bits() as u64,
                        FCast::UiToFp => (x as f64).to_bits(),
                        FCast::FpToSi => fp(x, *fw) as i64 as u64 & m64(*tw),
                        FCast::FpToUi => fp(x, *fw) as u64 & m64(*tw),
                        FCast::FpExt => fp(x, *fw).to_bits(),
                        FCast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    };
                    st.cur.regs[*d as usize] = Val::C(r);
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| self.get(st, o));
                    if self.pop_frame(st, v)? {
                        return Ok(Some(Outcome::Done));
                    }
                    return Ok(None);
                }
                Inst::Call(callee, args, rt, d, normal) => {
                    let fid = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Ind(o) => {
                            let p = self.get(st, o);
                            let a = self.concretize(st, &p, 64)?;
                            match self.m.fn_at(a) {
                                Some(f) => f,
                                None => return err(format!("indirect call to {:x}", a)),
                            }
                        }
                        Callee::Asm => {
                            // only empty barriers occur (black_box)
                            continue;
                        }
                    };
                    let sp = self.sp[fid as usize];
                    if sp != Sp::None {
                        let mut vals: Vec<Val> = Vec::with_capacity(args.len());
                        for (o, _) in args {
                            vals.push(self.get(st, o));
                        }
                        if let Some(o) = self.call_special(st, sp, fid, &vals, args, rt, *d)? {
                            return Ok(Some(o));
                        }
                        if let Some(b) = normal {
                            self.goto(st, *b);
                            return Ok(None);
                        }
                        continue;
                    }
                    let decl = &self.m.fns[fid as usize];
                    if decl.noreturn {
                        return Ok(Some(Outcome::Panic(decl.name.clone())));
                    }
                    if decl.body.is_none() {
                        return err(format!("call of external function {}", decl.name));
                    }
                    if st.stack.len() >= self.lim.depth {
                        return Ok(Some(Outcome::Depth));
                    }
                    let func = self.m.func(fid);
                    let mut fr = self.frame(func, *d, *normal);
                    for (k, (o, _)) in args.iter().enumerate() {
                        if k < func.params.len() {
                            fr.regs[func.params[k] as usize] = self.get(st, o);
                        }
                    }
                    st.cur.pc = i as u32;
                    let caller = std::mem::replace(&mut st.cur, fr);
                    st.stack.push(Rc::new(caller));
                    // entry block
                    let seen = &mut self.blocks_seen[fid as usize];
                    if seen.is_empty() {
                        seen.resize(func.blocks.len() / 64 + 1, 0);
                    }
                    seen[0] |= 1;
                    return Ok(None);
                }
                Inst::Rmw(op, w, p, v, d) => {
                    let a = self.get(st, p);
                    let a = self.concretize(st, &a, 64)?;
                    let t = Ty::Int(*w);
                    let old = self.load_at(st, &t, a)?;
                    let v = self.get(st, v);
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Bin::Add, *w, &old, &v)?,
                        "sub" => self.bin(Bin::Sub, *w, &old, &v)?,
                        "and" => self.bin(Bin::And, *w, &old, &v)?,
                        "or" => self.bin(Bin::Or, *w, &old, &v)?,
                        "xor" => self.bin(Bin::Xor, *w, &old, &v)?,
                        _ => return err(format!("atomicrmw {}", op)),
                    };
                    self.store_at(st, &t, a, &new)?;
                    Self::set(st, *d, old);
                }
                Inst::CmpXchg(w, p, e, n, d) => {
                    let a = self.get(st, p);
                    let a = self.concretize(st, &a, 64)?;
                    let t = Ty::Int(*w);
                    let old = self.load_at(st, &t, a)?;
                    let e = self.get(st, e);
                    let ok = match self.icmp(Pred::Eq, *w, &old, &e) {
                        Val::C(x) => x == 1,
                        Val::S(c) => self.decide(st, c)?,
                        _ => return err("cmpxchg"),
                    };
                    if ok {
                        let n = self.get(st, n);
                        self.store_at(st, &t, a, &n)?;
                    }
                    Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
                }
                Inst::Unreachable => return err("unreachable code was reached"),
                Inst::Unsupported(s) => return err(format!("unsupported: {}", s)),
            }
        }
    }

    fn switch(&mut self, st: &mut State, w: u32, x: &Val, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        match x {
            Val::C(v) => {
                let v = *v as u128;
                for (k, b) in cases {
                    if *k == v {
                        return Ok(*b);
                    }
                }
                Ok(def)
            }
            Val::W(v) => {
                for (k, b) in cases {
                    if *k == **v {
                        return Ok(*b);
                    }
                }
                Ok(def)
            }
            Val::S(e) => loop {
                let k = self.s.x.eval(*e, &st.path.model);
                let t = cases.iter().find(|c| c.0 == k).map_or(def, |c| c.1);
                // condition for the same target
                let mut acc = self.s.x.cst(0, 1);
                if t == def {
                    for (k, b) in cases {
                        if *b != t {
                            let kc = self.s.x.cst(*k, w as u8);
                            let q = self.s.x.eq(*e, kc);
                            acc = self.s.x.or(acc, q);
                        }
                    }
                    acc = self.s.x.not(acc);
                } else {
                    for (k, b) in cases {
                        if *b == t {
                            let kc = self.s.x.cst(*k, w as u8);
                            let q = self.s.x.eq(*e, kc);
                            acc = self.s.x.or(acc, q);
                        }
                    }
                }
                if self.decide(st, acc)? {
                    return Ok(t);
                }
            },
            _ => err("switch"),
        }
    }

    fn call_special(&mut self, st: &mut State, sp: Sp, fid: u32, a: &[Val], args: &[(Op, Ty)], rt: &Ty, d: u32) -> R<Option<Outcome>> {
        match sp {
            Sp::Alloc | Sp::AllocZ => {
                let n = self.concretize(st, &a[0], 64)?;
                let p = self.alloc(st, n)?;
                Self::set(st, d, Val::C(p));
            }
            Sp::Malloc => {
                let n = self.concretize(st, &a[0], 64)?;
                let p = self.alloc(st, n)?;
                Self::set(st, d, Val::C(p));
            }
            Sp::Calloc => {
                let n = self.concretize(st, &a[0], 64)?;
                let k = self.concretize(st, &a[1], 64)?;
                let p = self.alloc(st, n * k)?;
                Self::set(st, d, Val::C(p));
            }
            Sp::Dealloc | Sp::Free => {
                let p = self.concretize(st, &a[0], 64)?;
                if !(sp == Sp::Free && p == 0) {
                    self.dealloc(st, p)?;
                }
            }
            Sp::Realloc | Sp::CRealloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[if sp == Sp::Realloc { 3 } else { 1 }], 64)?;
                let old = if p == 0 { 0 } else { self.obj(st, p, 0)?.0.data.len() as u64 };
                let q = self.alloc(st, n)?;
                if p != 0 {
                    self.memcpy(st, &Val::C(q), &Val::C(p), &Val::C(n.min(old)))?;
                    self.dealloc(st, p)?;
                }
                Self::set(st, d, Val::C(q));
            }
            Sp::Memcmp | Sp::Bcmp => {
                let r = self.compare(st, &a[0], &a[1], &a[2], sp == Sp::Bcmp)?;
                Self::set(st, d, r);
            }
            Sp::Strlen => return err("strlen"),
            Sp::Memcpy | Sp::Memmove => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Self::set(st, d, a[0].clone());
            }
            Sp::Memset => {
                let b = self.cast(Cast::Trunc, 32, 8, &a[1])?;
                self.memset(st, &a[0], &b, &a[2])?;
                Self::set(st, d, a[0].clone());
            }
            Sp::Sym => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                if st.nvars as u64 + n > 128 {
                    return err("too many symbolic bytes");
                }
                for i in 0..n {
                    let v = self.s.x.var(st.nvars);
                    st.nvars += 1;
                    st.path.model.push(0);
                    self.store_bytes(st, p + i, 1, &Val::S(v))?;
                }
            }
            Sp::Assume => {
                let t = match &a[0] {
                    Val::C(x) => x & 1 == 1,
                    Val::S(e) => {
                        let e = *e;
                        let e = if self.s.x.w(e) > 1 { self.s.x.extract(e, 0, 1) } else { e };
                        // keep the satisfiable side only: no fork
                        return self.assume(st, e);
                    }
                    _ => return err("assume"),
                };
                if !t {
                    return Ok(Some(Outcome::AssumeFalse));
                }
            }
            Sp::Fail => {
                let id = self.concretize(st, &a[0], 64)?;
                return Ok(Some(Outcome::Fail(id)));
            }
            Sp::Cover => {
                let id = self.concretize(st, &a[0], 64)?;
                st.covers[id as usize / 64 & 3] |= 1 << (id % 64);
            }
            Sp::Observe => {
                Rc::make_mut(&mut st.observes).push(a[0].clone());
            }
            Sp::Note | Sp::Nop => {
                if d != u32::MAX && *rt != Ty::Void {
                    Self::set(st, d, Val::C(0));
                }
            }
            Sp::Config => {
                let i = self.concretize(st, &a[0], 64)?;
                let v = self.cfg.get(i as usize).copied().unwrap_or(0);
                Self::set(st, d, Val::C(v));
            }
            Sp::Concrete => {
                let v = self.concretize(st, &a[0], 64)?;
                Self::set(st, d, Val::C(v));
            }
            Sp::Choose => {
                // verif_choose(dst, srcs, elem_size, count, sel)
                let dst = self.concretize(st, &a[0], 64)?;
                let src = self.concretize(st, &a[1], 64)?;
                let size = self.concretize(st, &a[2], 64)?;
                let count = self.concretize(st, &a[3], 64)?;
                match &a[4] {
                    Val::C(k) => {
                        self.memcpy(st, &Val::C(dst), &Val::C(src + k * size), &Val::C(size))?;
                    }
                    Val::S(e) => {
                        let w = self.s.x.w(*e);
                        let e = if w > 8 { self.s.x.extract(*e, 0, 8) } else { *e };
                        let all = self.obj(st, src, size * count)?;
                        let (o, off) = (all.0.clone(), all.1);
                        if o.nsym != 0 {
                            return err("choose from symbolic");
                        }
                        for i in 0..size as usize {
                            let t: Vec<u128> = (0..count as usize).map(|k| o.data[off + k * size as usize + i] as u128).collect();
                            let b = self.s.x.table(e, t, 8);
                            let b = self.v(b);
                            self.store_bytes(st, dst + i as u64, 1, &b)?;
                        }
                    }
                    _ => return err("choose"),
                }
            }
            Sp::Intr => {
                let name: &'static str = &self.m.fns[fid as usize].name;
                return self.intrinsic(st, name, a, args, rt, d);
            }
            Sp::None => unreachable!(),
        }
        Ok(None)
    }

    fn assume(&mut self, st: &mut State, e: E) -> R<Option<Outcome>> {
        match self.s.decide(&st.path, e) {
            Decision::Only(true) => Ok(None),
            Decision::Only(false) => Ok(Some(Outcome::AssumeFalse)),
            Decision::Unknown => err("solver gave no answer in time"),
            Decision::Both(side, om) => {
                let m = if side { None } else { Some(&om[..]) };
                self.s.assume(&mut st.path, e, m);
                Ok(None)
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], args: &[(Op, Ty)], rt: &Ty, d: u32) -> R<Option<Outcome>> {
        let n = &name[5..];
        let starts = |p: &str| n.starts_with(p);
        if starts("lifetime") || starts("assume") || starts("dbg") || starts("experimental.noalias") || starts("invariant") || starts("donothing")
            || starts("prefetch")
        {
            return Ok(None);
        }
        if starts("memcpy") || starts("memmove") {
            self.memcpy(st, &a[0], &a[1], &a[2])?;
            return Ok(None);
        }
        if starts("memset") {
            self.memset(st, &a[0], &a[1], &a[2])?;
            return Ok(None);
        }
        if starts("trap") || starts("debugtrap") {
            return Ok(Some(Outcome::Panic("llvm.trap".into())));
        }
        if starts("expect") || starts("launder") || starts("strip.invariant") || starts("threadlocal.address") || starts("ssa.copy") {
            Self::set(st, d, a[0].clone());
            return Ok(None);
        }
        if starts("is.constant") {
            Self::set(st, d, Val::C(0));
            return Ok(None);
        }
        if starts("objectsize") {
            Self::set(st, d, Val::C(u64::MAX));
            return Ok(None);
        }
        let w = match args.first() {
            Some((_, Ty::Vec(_, t))) => t.bits(),
            Some((_, t)) => t.bits(),
            None => 0,
        };
        // reductions
        if let Some(r) = n.strip_prefix("vector.reduce.") {
            let Val::A(v) = &a[0] else { return err("reduce") };
            let mut acc = v[0].clone();
            for x in &v[1..] {
                acc = if r.starts_with("add") {
                    self.bin(Bin::Add, w, &acc, x)?
                } else if r.starts_with("or") {
                    self.bin(Bin::Or, w, &acc, x)?
                } else if r.starts_with("and") {
                    self.bin(Bin::And, w, &acc, x)?
                } else if r.starts_with("xor") {
                    self.bin(Bin::Xor, w, &acc, x)?
                } else if r.starts_with("mul") {
                    self.bin(Bin::Mul, w, &acc, x)?
                } else {
                    return err(format!("intrinsic {}", name));
                };
            }
            Self::set(st, d, acc);
            return Ok(None);
        }
        if let Val::A(_) = &a[0] {
            // lane-wise
            let cols: Vec<Rc<Vec<Val>>> = a.iter().filter_map(|x| if let Val::A(v) = x { Some(v.clone()) } else { None }).collect();
            let mut out = vec![];
            for i in 0..cols[0].len() {
                let mut row: Vec<Val> = cols.iter().map(|c| c[i].clone()).collect();
                row.extend(a.iter().filter(|x| !matches!(x, Val::A(_))).cloned());
                out.push(self.scalar_intrinsic(st, n, w, &row, rt)?);
            }
            Self::set(st, d, Val::A(Rc::new(out)));
            return Ok(None);
        }
        let r = self.scalar_intrinsic(st, n, w, a, rt)?;
        Self::set(st, d, r);
        Ok(None)
    }

    fn scalar_intrinsic(&mut self, st: &mut State, n: &str, w: u32, a: &[Val], rt: &Ty) -> R<Val> {
        let starts = |p: &str| n.starts_with(p);
        if n.contains(".with.overflow.") {
            return self.overflow(st, n, w, &a[0], &a[1]);
        }
        let pick = |s: &mut Self, p: Pred| -> Val {
            match s.icmp(p, w, &a[0], &a[1]) {
                Val::C(1) => a[0].clone(),
                Val::C(_) => a[1].clone(),
                Val::S(c) => {
                    let (x, y) = (s.e(&a[0], w), s.e(&a[1], w));
                    let r = s.s.x.ite(c, x, y);
                    s.v(r)
                }
                _ => unreachable!(),
            }
        };
        if starts("umin") {
            return Ok(pick(self, Pred::Ult));
        }
        if starts("umax") {
            return Ok(pick(self, Pred::Ugt));
        }
        if starts("smin") {
            return Ok(pick(self, Pred::Slt));
        }
        if starts("smax") {
            return Ok(pick(self, Pred::Sgt));
        }
        if starts("uadd.sat") || starts("usub.sat") {
            let add = starts("uadd");
            let r = self.overflow(st, if add { "uadd" } else { "usub" }, w, &a[0], &a[1])?;
            let Val::A(p) = r else { unreachable!() };
            let lim = Val::C(if add { m64(w) } else { 0 });
            return match &p[1] {
                Val::C(1) => Ok(lim),
                Val::C(_) => Ok(p[0].clone()),
                Val::S(c) => {
                    let (x, y) = (self.e(&lim, w), self.e(&p[0], w));
                    let r = self.s.x.ite(*c, x, y);
                    Ok(self.v(r))
                }
                _ => err("sat"),
            };
        }
        if starts("abs") {
            let neg = self.bin(Bin::Sub, w, &Val::C(0), &a[0])?;
            return Ok(match self.icmp(Pred::Slt, w, &a[0], &Val::C(0)) {
                Val::C(1) => neg,
                Val::C(_) => a[0].clone(),
                Val::S(c) => {
                    let (x, y) = (self.e(&neg, w), self.e(&a[0], w));
                    let r = self.s.x.ite(c, x, y);
                    self.v(r)
                }
                _ => unreachable!(),
            });
        }
        if starts("ucmp") || starts("scmp") {
            let (l, g) = if starts("u") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let rw = rt.bits();
            let lt = self.icmp(l, w, &a[0], &a[1]);
            let gt = self.icmp(g, w, &a[0], &a[1]);
            let (lt, gt) = (self.e(&lt, 1), self.e(&gt, 1));
            let (m1, z, p1) = (self.s.x.cst(u128::MAX, rw as u8), self.s.x.cst(0, rw as u8), self.s.x.cst(1, rw as u8));
            let r = self.s.x.ite(gt, p1, z);
            let r = self.s.x.ite(lt, m1, r);
            return Ok(self.v(r));
        }
        if starts("fshl") || starts("fshr") {
            let k = self.concretize(st, &a[2], w)? % w as u64;
            if w > 64 {
                return err("fsh");
            }
            let (hi, lo) = (self.e(&a[0], w), self.e(&a[1], w));
            let both = self.s.x.concat(hi, lo);
            let sh = if starts("fshl") { w as u64 - k } else { k };
            let r = self.s.x.extract(both, sh as u8, w as u8);
            return Ok(self.v(r));
        }
        if starts("bswap") {
            let e = self.e(&a[0], w);
            let mut acc = self.s.x.extract(e, 0, 8);
            for i in 1..w / 8 {
                let b = self.s.x.extract(e, 8 * i as u8, 8);
                acc = self.s.x.concat(acc, b);
            }
            return Ok(self.v(acc));
        }
        if starts("ctpop") || starts("ctlz") || starts("cttz") || starts("bitreverse") {
            if let Val::C(x) = a[0] {
                return Ok(Val::C(match &n[..4] {
                    "ctpo" => x.count_ones() as u64,
                    "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                    "cttz" => (if x == 0 { w } else { x.trailing_zeros() }) as u64,
                    _ => x.reverse_bits() >> (64 - w),
                }));
            }
            let e = self.e(&a[0], w);
            let mut acc;
            match &n[..4] {
                "ctpo" => {
                    acc = self.s.x.cst(0, w as u8);
                    for i in 0..w {
                        let b = self.s.x.extract(e, i as u8, 1);
                        let b = self.s.x.zext(b, w as u8);
                        acc = self.s.x.bin(K::Add, acc, b);
                    }
                }
                "ctlz" | "cttz" => {
                    acc = self.s.x.cst(w as u128, w as u8);
                    let lz = &n[..4] == "ctlz";
                    for i in 0..w {
                        // the last assignment wins: go from least to most significant evidence
                        let bit = if lz { i } else { w - 1 - i };
                        let b = self.s.x.extract(e, bit as u8, 1);
                        let k = self.s.x.cst((if lz { w - 1 - bit } else { bit }) as u128, w as u8);
                        acc = self.s.x.ite(b, k, acc);
                    }
                }
                _ => {
                    acc = self.s.x.extract(e, 0, 1);
                    for i in 1..w {
                        let b = self.s.x.extract(e, i as u8, 1);
                        acc = self.s.x.concat(acc, b);
                    }
                }
            }
            return Ok(self.v(acc));
        }
        if starts("ptrmask") {
            return self.bin(Bin::And, 64, &a[0], &a[1]);
        }
        if starts("fabs") {
            return self.bin(Bin::And, w, &a[0], &Val::C(m64(w - 1)));
        }
        if starts("fmuladd") || starts("fma") {
            let mut v = vec![];
            for x in a {
                v.push(self.concretize_f(st, x, w)?);
            }
            return Ok(Val::C(if w == 32 {
                f32::from_bits(v[0] as u32).mul_add(f32::from_bits(v[1] as u32), f32::from_bits(v[2] as u32)).to_bits() as u64
            } else {
                f64::from_bits(v[0]).mul_add(f64::from_bits(v[1]), f64::from_bits(v[2])).to_bits()
            }));
        }
        err(format!("intrinsic llvm.{}", n))
    }

    fn overflow(&mut self, st: &State, n: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let signed = n.starts_with('s');
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (r, o) = if signed {
                    let (x, y) = (sx(*x, w) as i128, sx(*y, w) as i128);
                    let r = match &n[1..4] {
                        "add" => x + y,
                        "sub" => x - y,
                        _ => x * y,
                    };
                    let t = r as u64 & m64(w);
                    (t, sx(t, w) as i128 != r)
                } else {
                    let (x, y) = (*x as u128, *y as u128);
                    match &n[1..4] {
                        "add" => ((x + y) as u64 & m64(w), x + y > m64(w) as u128),
                        "sub" => ((x.wrapping_sub(y)) as u64 & m64(w), x < y),
                        _ => ((x * y) as u64 & m64(w), x * y > m64(w) as u128),
                    }
                };
                return Ok(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u64)])));
            }
        }
        if w > 64 {
            return err("wide overflow arithmetic");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        // ranges of the operands that exclude an overflow
        let sub = &n[1..4] == "sub";
        if &n[1..4] != "mul" && w >= 16 {
            if let (Some((xl, xh)), Some((yl, yh))) = (self.sum_range(st, x, signed), self.sum_range(st, y, signed)) {
                let (lo, hi) = if sub { (xl - yh, xh - yl) } else { (xl + yl, xh + yh) };
                let (l, h) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                if l <= lo && hi <= h {
                    let r = self.s.x.bin(if sub { K::Sub } else { K::Add }, x, y);
                    let r = self.v(r);
                    return Ok(Val::A(Rc::new(vec![r, Val::C(0)])));
                }
            }
        }
        let c = &mut self.s.x;
        let wide = if &n[1..4] == "mul" { 2 * w as u8 } else { w as u8 + 1 };
        let k = match &n[1..4] {
            "add" => K::Add,
            "sub" => K::Sub,
            _ => K::Mul,
        };
        let r = c.bin(k, x, y);
        let konst = match (c.is_c(x), c.is_c(y)) {
            (_, Some(v)) => Some((x, v as u64)),
            (Some(v), _) => Some((y, v as u64)),
            _ => None,
        };
        let o = if k == K::Mul && konst.map_or(false, |(_, v)| v > 0 && (!signed || sx(v, w) > 0)) {
            // bounds of the other factor
            let (z, v) = konst.unwrap();
            if signed {
                let (hi, lo) = ((m64(w) >> 1) as i64 / v as i64, sx(1u64 << (w - 1), w) / v as i64);
                let (hi, lo) = (c.cst(hi as u64 as u128 & mask(w as u8), w as u8), c.cst(lo as u64 as u128 & mask(w as u8), w as u8));
                let (p, q) = (c.bin(K::Slt, hi, z), c.bin(K::Slt, z, lo));
                c.or(p, q)
            } else {
                let hi = c.cst((m64(w) / v) as u128, w as u8);
                c.ult(hi, z)
            }
        } else if signed && k == K::Add {
            // the sign of the result differs from that of both operands
            let (p, q) = (c.bin(K::Xor, x, r), c.bin(K::Xor, y, r));
            let b = c.and(p, q);
            c.extract(b, w as u8 - 1, 1)
        } else if signed && k == K::Sub {
            let (p, q) = (c.bin(K::Xor, x, y), c.bin(K::Xor, x, r));
            let b = c.and(p, q);
            c.extract(b, w as u8 - 1, 1)
        } else if !signed && k == K::Sub {
            c.ult(x, y)
        } else if !signed && k == K::Add {
            c.ult(r, x)
        } else {
            let (p, q) = if signed { (c.sext(x, wide), c.sext(y, wide)) } else { (c.zext(x, wide), c.zext(y, wide)) };
            let wr = c.mkwide(k, p, q);
            let back = if signed { c.sext(r, wide) } else { c.zext(r, wide) };
            let e = c.eq(wr, back);
            c.not(e)
        };
        let (r, o) = (self.v(r), self.v(o));
        Ok(Val::A(Rc::new(vec![r, o])))
    }

    pub fn observed(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let obs = st.observes.clone();
        for o in obs.iter() {
            let v = match o {
                Val::C(c) => *c,
                Val::S(e) => self.s.x.eval(*e, &st.path.model) as u64,
                _ => 0,
            };
            h = (h ^ v).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h
    }
}

fn insert(x: &Val, ix: &[u32], v: Val) -> Val {
    match x {
        Val::A(items) => {
            let mut items = (**items).clone();
            let k = ix[0] as usize;
            items[k] = if ix.len() == 1 { v } else { insert(&items[k], &ix[1..], v) };
            Val::A(Rc::new(items))
        }
        _ => panic!("insert"),
    }
}

fn cval(k: &CVal) -> Val {
    match k {
        CVal::C(c) => Val::C(*c),
        CVal::W(c) => Val::W(Rc::new(*c)),
        CVal::A(v) => Val::A(Rc::new(v.iter().map(cval).collect())),
    }
}
