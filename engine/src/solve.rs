//! Path constraints as independent groups, with a process-wide cache of solver answers.
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

pub struct Group {
    pub vars: u128,
    pub cons: Vec<E>,
}

#[derive(Clone)]
pub enum Cached {
    Sat(Arc<Vec<(u8, u8)>>),
    Unsat,
    Unknown,
}

pub struct Cache {
    shards: Vec<Mutex<HashMap<u128, Cached, BuildHasherDefault<Fx>>>>,
}
impl Cache {
    pub fn new() -> Cache {
        Cache { shards: (0..256).map(|_| Mutex::new(Default::default())).collect() }
    }
    fn get(&self, k: u128) -> Option<Cached> {
        self.shards[(k >> 100) as usize & 255].lock().unwrap().get(&k).cloned()
    }
    fn put(&self, k: u128, v: Cached) -> Cached {
        self.shards[(k >> 100) as usize & 255].lock().unwrap().entry(k).or_insert(v).clone()
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

#[derive(Clone, Default)]
pub struct Path {
    pub groups: Vec<Rc<Group>>,
    pub model: Vec<u8>,
    /// variables with only one value left (the model has it)
    pub fixed: u128,
}

pub enum Decision {
    Only(bool),
    /// both sides are possible; the current model takes this one, the other has this model
    Both(bool, Vec<(u8, u8)>),
    Unknown,
}

pub struct Solver {
    pub x: Ctx,
    pub z: Z3,
    pub cache: Arc<Cache>,
}

fn set_key(x: &Ctx, cons: &[E], minv: u8) -> u128 {
    let mut k = 0u128;
    for c in cons {
        let n = &x.n[*c as usize];
        k = k.wrapping_add(mix(n.h, (n.minv - minv) as u128 + 7));
    }
    k
}

impl Solver {
    fn conj(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.x.nd(e);
        if n.k == K::And && n.w == 1 {
            self.conj(n.a, out);
            self.conj(n.b, out);
        } else if n.k == K::Xor && n.w == 1 && self.x.is_c(n.b) == Some(1) {
            let i = self.x.nd(n.a);
            if i.k == K::Or {
                let p = self.x.not(i.a);
                let q = self.x.not(i.b);
                self.conj(p, out);
                self.conj(q, out);
            } else {
                out.push(e);
            }
        } else {
            out.push(e);
        }
    }

    /// is the path with the extra condition satisfiable?
    fn query(&mut self, p: &Path, cond: E) -> Cached {
        let mut parts = vec![];
        self.conj(cond, &mut parts);
        // conjuncts over unrelated groups can be decided one by one
        if parts.len() > 1 {
            let mut comps: Vec<(u128, Vec<E>)> = vec![];
            for c in parts {
                let mut v = self.x.n[c as usize].vars;
                for g in &p.groups {
                    if g.vars & v != 0 {
                        v |= g.vars;
                    }
                }
                let mut es = vec![c];
                comps.retain(|(cv, ce)| {
                    if cv & v != 0 {
                        v |= cv;
                        es.extend(ce.iter());
                        false
                    } else {
                        true
                    }
                });
                comps.push((v, es));
            }
            let mut model = vec![];
            for (_, es) in comps {
                match self.query1(p, &es) {
                    Cached::Sat(m) => model.extend(m.iter().copied()),
                    r => return r,
                }
            }
            return Cached::Sat(Arc::new(model));
        }
        self.query1(p, &parts)
    }

    fn query1(&mut self, p: &Path, conds: &[E]) -> Cached {
        let mut vars = 0u128;
        for c in conds {
            if self.x.is_c(*c) == Some(0) {
                return Cached::Unsat;
            }
            vars |= self.x.n[*c as usize].vars;
        }
        let mut gs: Vec<&Rc<Group>> = vec![];
        let touched = vars;
        for g in &p.groups {
            if g.vars & touched != 0 {
                vars |= g.vars;
                gs.push(g);
            }
        }
        if vars == 0 {
            return Cached::Sat(Arc::new(vec![]));
        }
        // first with the constraints over the same variables only: when these are contradictory
        // so is the whole, and when their model extends to one of the whole we are done as well
        let mut small: Vec<E> = vec![];
        let mut rest = 0;
        for g in &gs {
            for c in &g.cons {
                if self.x.n[*c as usize].vars & !touched == 0 {
                    small.push(*c);
                } else {
                    rest += 1;
                }
            }
        }
        if rest > 0 {
            match self.ask(&small, conds, touched) {
                Cached::Sat(m) => {
                    let mut model = p.model.clone();
                    for (i, v) in m.iter() {
                        model[*i as usize] = *v;
                    }
                    let mut ok = true;
                    'all: for g in &gs {
                        for c in &g.cons {
                            if self.x.n[*c as usize].vars & !touched != 0 && self.x.eval(*c, &model) != 1 {
                                ok = false;
                                break 'all;
                            }
                        }
                    }
                    if ok {
                        return Cached::Sat(m);
                    }
                }
                r => return r,
            }
        }
        let mut all: Vec<E> = vec![];
        for g in &gs {
            all.extend(g.cons.iter());
        }
        self.ask(&all, conds, vars)
    }

    /// satisfiability of the constraints with the conditions, from the cache or from the solver
    fn ask(&mut self, cons: &[E], conds: &[E], vars: u128) -> Cached {
        let minv = vars.trailing_zeros() as u8;
        let mut key = mix(set_key(&self.x, conds, minv), 0xabcdef);
        key = key.wrapping_add(set_key(&self.x, cons, minv));
        key = mix(key, vars >> minv);
        let rel = |c: Cached, minv: u8| match c {
            Cached::Sat(m) => Cached::Sat(Arc::new(m.iter().map(|(i, v)| (i + minv, *v)).collect())),
            c => c,
        };
        if let Some(c) = self.cache.get(key) {
            HITS.fetch_add(1, Ordering::Relaxed);
            return rel(c, minv);
        }
        let mut all: Vec<E> = cons.to_vec();
        all.extend(conds.iter());
        let t0 = std::time::Instant::now();
        let ans = match self.z.check(&mut self.x, &all, vars) {
            Ans::Sat(m) => Cached::Sat(Arc::new(m.iter().map(|(i, v)| (i - minv, *v)).collect())),
            Ans::Unsat => Cached::Unsat,
            Ans::Unknown => Cached::Unknown,
        };
        if t0.elapsed().as_millis() > 500 && std::env::var("SYMEX_SLOW").is_ok() {
            for (i, c) in all.iter().enumerate() {
                eprintln!("slow {} {}: {}", i, t0.elapsed().as_millis(), self.x.show(*c, 14));
            }
        }
        rel(self.cache.put(key, ans), minv)
    }

    pub fn decide(&mut self, p: &Path, cond: E) -> Decision {
        if let Some(v) = self.x.is_c(cond) {
            return Decision::Only(v == 1);
        }
        let side = self.x.eval(cond, &p.model) == 1;
        if self.x.n[cond as usize].vars & !p.fixed == 0 {
            return Decision::Only(side);
        }
        let other = if side { self.x.not(cond) } else { cond };
        match self.query(p, other) {
            Cached::Unsat => Decision::Only(side),
            Cached::Unknown => Decision::Unknown,
            Cached::Sat(m) => Decision::Both(side, (*m).clone()),
        }
    }

    /// adds a condition known to be satisfiable; the model must satisfy it afterwards
    pub fn assume(&mut self, p: &mut Path, cond: E, model: Option<&[(u8, u8)]>) {
        if let Some(m) = model {
            for (i, v) in m {
                p.model[*i as usize] = *v;
            }
        }
        debug_assert!(self.x.eval(cond, &p.model) == 1);
        let mut parts = vec![];
        self.conj(cond, &mut parts);
        for c in parts {
            let vars = self.x.n[c as usize].vars;
            if vars == 0 {
                continue;
            }
            let n = self.x.nd(c);
            if n.k == K::Eq && self.x.nd(n.a).k == K::Var && self.x.is_c(n.b).is_some() {
                p.fixed |= vars;
            }
            let mut nv = vars;
            let mut cons = vec![];
            p.groups.retain(|g| {
                if g.vars & vars != 0 {
                    nv |= g.vars;
                    cons.extend(g.cons.iter().copied());
                    false
                } else {
                    true
                }
            });
            if !cons.contains(&c) {
                cons.push(c);
            }
            p.groups.push(Rc::new(Group { vars: nv, cons }));
        }
    }
}
