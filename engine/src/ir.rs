//! Parser for the textual LLVM IR that rustc emits after fat LTO.
//! Functions are decoded lazily, the first time they are executed.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w as u64 + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) => up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Vec(..) => up(self.store_size(), self.align()),
        }
    }
    pub fn field(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) => (t.size() * i as u64, t),
            Ty::Vec(_, t) => ((t.bits() as u64 / 8) * i as u64, t),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = (o + t.align() - 1) / t.align() * t.align();
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    C(u64),
    W(u128),
    A(Vec<CVal>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    W(u128),
    K(Arc<CVal>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FCast {
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, u32, u32, Op, Op, u32), // op, width, lanes (0 scalar), a, b, dst
    Icmp(Pred, u32, u32, Op, Op, u32),
    FBin(FBin, u32, Op, Op, u32),
    FCmp(String, u32, Op, Op, u32),
    FNeg(u32, Op, u32),
    Cast(Cast, u32, u32, u32, Op, u32), // from, to, lanes, a, dst
    Bitcast(Ty, Ty, Op, u32),
    FCast(FCast, u32, u32, Op, u32),
    Select(u32, Ty, Op, Op, Op, u32), // lanes of cond
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, i64)>, u32),
    Alloca(u64, Op, u32),
    ExtractValue(Op, Vec<u32>, u32),
    InsertValue(Op, Op, Vec<u32>, u32),
    ExtractElem(Op, Op, u32),
    InsertElem(Op, Op, Op, u32),
    Shuffle(Op, Op, u32, Vec<i32>, u32),
    Call(Callee, Vec<(Op, Ty)>, Ty, u32, Option<u32>), // ..., dst (u32::MAX none), invoke normal dest
    Rmw(String, u32, Op, Op, u32),
    CmpXchg(u32, Op, Op, Op, u32),
    Move(Op, u32),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub noreturn: bool,
    pub body: Option<(usize, usize)>, // line range: define line .. closing
    pub decoded: OnceLock<Arc<Func>>,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub size: u64,
    pub data: Vec<u8>,
    pub external: bool,
}

pub const OBJ_BASE: u64 = 0x10000;

pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) << 32) | OBJ_BASE
}

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gnames: HashMap<String, u32>,
    pub fns: Vec<FnDecl>,
    pub fnames: HashMap<String, u32>,
}

pub struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.i..]).unwrap_or("?")
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected '{}' at '{}'", t, self.rest()))
        }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && Self::is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let b = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = b;
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        if self.peek_word() == t {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> R<String> {
        if self.s.get(self.i) == Some(&b'"') {
            let b = self.i + 1;
            self.i = b;
            while self.i < self.s.len() && self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[b..self.i]).map_err(|e| e.to_string())?.to_string();
            self.i += 1;
            Ok(r)
        } else {
            Ok(self.word().to_string())
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(w, "ptr" | "void" | "float" | "double" | "metadata" | "half" | "label" | "x86_fp80" | "token")
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.s.get(self.i) == Some(&b'=') {
                    self.i += 1;
                    continue;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() {
                return;
            }
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "asm" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "splat" | "add" | "sub" | "xor"
            ) {
                return;
            }
            self.word();
            if self.s.get(self.i) == Some(&b'(') {
                self.balanced();
            } else if w == "align" {
                self.word();
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            types: HashMap::new(),
            globals: vec![],
            gnames: HashMap::new(),
            fns: vec![],
            fnames: HashMap::new(),
        };
        // attribute groups with noreturn
        let mut noret = std::collections::HashSet::new();
        for l in &lines {
            if let Some(r) = l.strip_prefix("attributes #") {
                let n = r.split(' ').next().unwrap();
                if r.contains(" noreturn") {
                    noret.insert(n.to_string());
                }
            }
        }
        let has_noret = |l: &str| -> bool {
            let tail = &l[l.rfind(')').unwrap_or(0)..];
            if l.contains(" noreturn ") {
                return true;
            }
            tail.split(|c: char| c == ' ').any(|w| w.strip_prefix('#').map_or(false, |n| noret.contains(n)))
        };
        m.globals.push(Global { name: "<null>".into(), constant: true, size: 0, data: vec![], external: true });
        let mut i = 0;
        let mut pending: Vec<(u32, usize, usize)> = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('%') && l.contains(" = type ") {
                let mut c = Cur::new(l);
                c.i = 1;
                let n = c.name()?;
                c.expect("=")?;
                c.expect("type")?;
                let t = m.ty(&mut c)?;
                m.types.insert(n, t);
            } else if l.starts_with('@') {
                let mut c = Cur::new(l);
                c.i = 1;
                let n = c.name()?;
                c.expect("=")?;
                let id = m.globals.len() as u32;
                let mut external = false;
                let mut constant = None;
                let mut alias = false;
                loop {
                    let w = c.word();
                    match w {
                        "external" | "extern_weak" => external = true,
                        "global" => {
                            constant = Some(false);
                            break;
                        }
                        "constant" => {
                            constant = Some(true);
                            break;
                        }
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "" => {
                            return Err(format!("global: {}", l));
                        }
                        _ => {
                            if c.s.get(c.i) == Some(&b'(') {
                                c.balanced();
                            }
                        }
                    }
                }
                if alias {
                    i += 1;
                    continue;
                }
                m.gnames.insert(n.clone(), id);
                m.globals.push(Global { name: n, constant: constant.unwrap(), size: 0, data: vec![], external });
                pending.push((id, i, c.i));
            } else if l.starts_with("define ") {
                let n = Self::fn_name(l)?;
                let mut j = i + 1;
                while lines[j] != "}" {
                    j += 1;
                }
                let id = m.fns.len() as u32;
                m.fnames.insert(n.clone(), id);
                m.fns.push(FnDecl { name: n, noreturn: has_noret(l), body: Some((i, j)), decoded: OnceLock::new() });
                i = j;
            } else if l.starts_with("declare ") {
                let n = Self::fn_name(l)?;
                let id = m.fns.len() as u32;
                m.fnames.insert(n.clone(), id);
                m.fns.push(FnDecl { name: n, noreturn: has_noret(l), body: None, decoded: OnceLock::new() });
            }
            i += 1;
        }
        // global initialisers (need all addresses)
        for (id, li, pos) in pending {
            let mut c = Cur::new(&lines[li]);
            c.i = pos;
            let t = m.ty(&mut c)?;
            let size = t.size();
            let mut data = vec![0u8; size as usize];
            if !m.globals[id as usize].external {
                if m.value_const(&mut c, &t).map(|v| Self::put(&v, &t, &mut data, 0)).is_err() {
                    // initialiser we cannot read: keep zero, mark as external so that any use is an error
                    m.globals[id as usize].external = true;
                }
            }
            let g = &mut m.globals[id as usize];
            g.size = size;
            g.data = data;
        }
        m.lines = lines;
        Ok(m)
    }

    fn fn_name(l: &str) -> R<String> {
        // first @ that is followed by a name and '('
        let at = l.find('@').ok_or("no fn name")?;
        let mut c = Cur::new(l);
        c.i = at + 1;
        c.name()
    }

    pub fn fn_addr(&self, f: u32) -> u64 {
        obj_addr(self.globals.len() as u32 + f)
    }
    pub fn first_dyn(&self) -> u32 {
        (self.globals.len() + self.fns.len()) as u32
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        let id = (addr >> 32) as u32;
        let g = self.globals.len() as u32;
        if addr & 0xffff_ffff == OBJ_BASE && id >= g && id < self.first_dyn() {
            Some(id - g)
        } else {
            None
        }
    }

    fn put(v: &CVal, t: &Ty, d: &mut [u8], off: usize) {
        match v {
            CVal::C(x) => {
                let n = t.store_size() as usize;
                d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            CVal::W(x) => {
                let n = t.store_size() as usize;
                d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            CVal::A(vs) => {
                for (i, v) in vs.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    Self::put(v, ft, d, off + o as usize);
                }
            }
        }
    }

    fn ty(&self, c: &mut Cur) -> R<Ty> {
        let mut t = match c.peek() {
            b'{' => {
                c.i += 1;
                let mut f = vec![];
                while !c.eat("}") {
                    f.push(self.ty(c)?);
                    c.eat(",");
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let mut f = vec![];
                    while !c.eat("}") {
                        f.push(self.ty(c)?);
                        c.eat(",");
                    }
                    c.expect(">")?;
                    Ty::Struct(f, true)
                } else {
                    let n: u32 = c.word().parse().map_err(|_| "vec len")?;
                    c.expect("x")?;
                    let t = self.ty(c)?;
                    c.expect(">")?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                c.i += 1;
                let n: u64 = c.word().parse().map_err(|_| "arr len")?;
                c.expect("x")?;
                let t = self.ty(c)?;
                c.expect("]")?;
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                c.i += 1;
                let n = c.name()?;
                self.types.get(&n).cloned().ok_or(format!("type %{}", n))?
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                    _ => return Err(format!("type '{}' at '{}'", w, c.rest())),
                }
            }
        };
        // function type: keep the return type
        while c.peek() == b'(' && c.s[c.i.saturating_sub(1)] == b' ' {
            let save = c.i;
            c.balanced();
            if !matches!(c.peek(), b'@' | b'%') {
                c.i = save;
                break;
            }
            t = t.clone();
        }
        Ok(t)
    }

    pub fn zero(t: &Ty) -> CVal {
        match t {
            Ty::Int(w) if *w > 64 => CVal::W(0),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => CVal::A((0..t.count()).map(|i| Self::zero(t.field_ty(i))).collect()),
            _ => CVal::C(0),
        }
    }

    fn value_const(&self, c: &mut Cur, t: &Ty) -> R<CVal> {
        match self.value(c, t, &mut None)? {
            Op::C(x) => Ok(CVal::C(x)),
            Op::W(x) => Ok(CVal::W(x)),
            Op::K(k) => Ok((*k).clone()),
            Op::R(_) => Err("register in constant".into()),
        }
    }

    fn mk(v: CVal) -> Op {
        match v {
            CVal::C(x) => Op::C(x),
            CVal::W(x) => Op::W(x),
            v => Op::K(Arc::new(v)),
        }
    }

    fn value(&self, c: &mut Cur, t: &Ty, regs: &mut Option<&mut Regs>) -> R<Op> {
        c.skip_attrs_if_word();
        match c.peek() {
            b'%' => {
                c.i += 1;
                let n = c.name()?;
                match regs {
                    Some(r) => Ok(Op::R(r.get(&n))),
                    None => Err("register".into()),
                }
            }
            b'@' => {
                c.i += 1;
                let n = c.name()?;
                if let Some(g) = self.gnames.get(&n) {
                    Ok(Op::C(obj_addr(*g)))
                } else if let Some(f) = self.fnames.get(&n) {
                    Ok(Op::C(self.fn_addr(*f)))
                } else {
                    Err(format!("unknown @{}", n))
                }
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut out = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' {
                        if c.s[c.i + 1] == b'\\' {
                            out.push(CVal::C(b'\\' as u64));
                            c.i += 2;
                        } else {
                            let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                            out.push(CVal::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                            c.i += 3;
                        }
                    } else {
                        out.push(CVal::C(c.s[c.i] as u64));
                        c.i += 1;
                    }
                }
                c.i += 1;
                Ok(Op::K(Arc::new(CVal::A(out))))
            }
            b'[' | b'{' | b'<' => {
                let packed = c.eat("<{");
                let (close, open) = if packed {
                    ("}>", "")
                } else if c.peek() == b'[' {
                    ("]", "[")
                } else if c.peek() == b'{' {
                    ("}", "{")
                } else {
                    (">", "<")
                };
                c.eat(open);
                let mut v = vec![];
                while !c.eat(close) {
                    let et = self.ty(c)?;
                    v.push(self.value_const(c, &et)?);
                    c.eat(",");
                }
                Ok(Op::K(Arc::new(CVal::A(v))))
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Ok(Op::C(1)),
                    "false" | "null" | "none" => Ok(Op::C(0)),
                    "undef" | "poison" | "zeroinitializer" => Ok(Self::mk(Self::zero(t))),
                    "splat" => {
                        c.expect("(")?;
                        let et = self.ty(c)?;
                        let v = self.value_const(c, &et)?;
                        c.expect(")")?;
                        Ok(Op::K(Arc::new(CVal::A(vec![v; t.count()]))))
                    }
                    "getelementptr" => {
                        while !c.eat("(") {
                            let w = c.word();
                            if w.is_empty() {
                                return Err("gep const".into());
                            }
                            if w == "inrange" {
                                c.balanced();
                            }
                        }
                        let et = self.ty(c)?;
                        c.expect(",")?;
                        let pt = self.ty(c)?;
                        let base = match self.value_const(c, &pt)? {
                            CVal::C(x) => x,
                            _ => return Err("gep base".into()),
                        };
                        let mut idx = vec![];
                        while c.eat(",") {
                            let it = self.ty(c)?;
                            match self.value_const(c, &it)? {
                                CVal::C(x) => idx.push((Op::C(x), it.bits())),
                                _ => return Err("gep idx".into()),
                            }
                        }
                        c.expect(")")?;
                        let (off, rest) = Self::gep_offset(&et, &idx)?;
                        if !rest.is_empty() {
                            return Err("gep const rest".into());
                        }
                        Ok(Op::C(base.wrapping_add(off as u64)))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                        c.expect("(")?;
                        let et = self.ty(c)?;
                        let v = self.value_const(c, &et)?;
                        c.expect("to")?;
                        let tt = self.ty(c)?;
                        c.expect(")")?;
                        match v {
                            CVal::C(x) => {
                                let b = tt.bits();
                                Ok(Op::C(if b < 64 { x & ((1u64 << b) - 1) } else { x }))
                            }
                            v => Ok(Self::mk(v)),
                        }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while !c.eat("(") {
                            if c.word().is_empty() {
                                return Err("const op".into());
                            }
                        }
                        let at = self.ty(c)?;
                        let a = self.value_const(c, &at)?;
                        c.expect(",")?;
                        let bt = self.ty(c)?;
                        let b = self.value_const(c, &bt)?;
                        c.expect(")")?;
                        match (a, b) {
                            (CVal::C(a), CVal::C(b)) => {
                                let r = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                };
                                let bits = at.bits();
                                Ok(Op::C(if bits < 64 { r & ((1u64 << bits) - 1) } else { r }))
                            }
                            _ => Err("const op".into()),
                        }
                    }
                    _ => {
                        // number, possibly with + in the exponent
                        let mut s = w.to_string();
                        if c.s.get(c.i) == Some(&b'+') {
                            c.i += 1;
                            s.push('+');
                            s.push_str(c.word());
                        }
                        match t {
                            Ty::Int(b) => {
                                let v: i128 = match s.parse::<i128>() {
                                    Ok(v) => v,
                                    Err(_) => s.parse::<u128>().map_err(|_| format!("int '{}' at '{}'", s, c.rest()))? as i128,
                                };
                                if *b > 64 {
                                    let m = if *b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
                                    Ok(Op::W(v as u128 & m))
                                } else {
                                    let m = if *b == 64 { u64::MAX } else { (1u64 << b) - 1 };
                                    Ok(Op::C(v as u64 & m))
                                }
                            }
                            Ty::F32 | Ty::F64 => {
                                let d = if let Some(h) = s.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("fp {}", s))?)
                                } else {
                                    s.parse::<f64>().map_err(|_| format!("fp {}", s))?
                                };
                                Ok(Op::C(if *t == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() }))
                            }
                            _ => Err(format!("value '{}' of type {:?} at '{}'", s, t, c.rest())),
                        }
                    }
                }
            }
        }
    }

    fn gep_offset(t: &Ty, idx: &[(Op, u32)]) -> R<(i64, Vec<(Op, u32, i64)>)> {
        let mut off = 0i64;
        let mut rest = vec![];
        let mut cur = t.clone();
        for (k, (o, w)) in idx.iter().enumerate() {
            let scale;
            let mut next = cur.clone();
            if k == 0 {
                scale = cur.size() as i64;
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let i = match o {
                            Op::C(x) => *x as usize,
                            _ => return Err("struct gep idx".into()),
                        };
                        let (fo, ft) = cur.field(i);
                        off += fo as i64;
                        next = ft.clone();
                        cur = next;
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        scale = e.size() as i64;
                        next = (**e).clone();
                    }
                    _ => return Err("gep into scalar".into()),
                }
            }
            match o {
                Op::C(x) => {
                    let s = if *w < 64 { ((*x << (64 - w)) as i64) >> (64 - w) } else { *x as i64 };
                    off = off.wrapping_add(s.wrapping_mul(scale));
                }
                o => rest.push((o.clone(), *w, scale)),
            }
            cur = next;
        }
        Ok((off, rest))
    }

    pub fn func(&'static self, id: u32) -> &'static Func {
        self.fns[id as usize]
            .decoded
            .get_or_init(|| Arc::new(self.decode(id).unwrap_or_else(|e| panic!("decode {}: {}", self.fns[id as usize].name, e))))
    }

    fn decode(&self, id: u32) -> R<Func> {
        let (b, e) = self.fns[id as usize].body.unwrap();
        let mut regs = Regs { m: HashMap::new() };
        // header
        let l = &self.lines[b];
        let at = l.find('@').unwrap();
        let mut c = Cur::new(l);
        c.i = at + 1;
        c.name()?;
        c.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !c.eat(")") {
            if c.eat("...") {
                continue;
            }
            let _t = self.ty(&mut c)?;
            c.skip_attrs_all();
            if c.peek() == b'%' {
                c.i += 1;
                let n = c.name()?;
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(regs.get(&n));
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                params.push(regs.get(&n));
            }
            c.eat(",");
        }
        // logical lines
        let mut ls: Vec<String> = vec![];
        let mut i = b + 1;
        while i < e {
            let l = self.lines[i].trim();
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if l.starts_with("#dbg") {
                continue;
            }
            let mut l = l.to_string();
            if l.starts_with("switch ") && l.ends_with('[') {
                while !self.lines[i - 1].trim().starts_with(']') {
                    l.push(' ');
                    l.push_str(self.lines[i].trim());
                    i += 1;
                }
            }
            if l.contains("invoke ") && i < e && self.lines[i].trim().starts_with("to label") {
                l.push(' ');
                l.push_str(self.lines[i].trim());
                i += 1;
            }
            if matches!(l.split(' ').next(), Some("cleanup" | "catch" | "filter")) {
                continue;
            }
            ls.push(l);
        }
        // labels
        let label = |l: &str| -> Option<String> {
            let t = match l.find(" ;") {
                Some(p) if !l[..p].contains('=') => l[..p].trim(),
                _ => l,
            };
            let n = t.strip_suffix(':')?;
            if n.contains(' ') && !n.starts_with('"') {
                return None;
            }
            Some(n.trim_matches('"').to_string())
        };
        let mut bids: HashMap<String, u32> = HashMap::new();
        let mut nb = 0;
        if label(&ls[0]).is_none() {
            bids.insert(format!("{}", unnamed), 0);
            nb = 1;
        }
        for l in &ls {
            if let Some(n) = label(l) {
                bids.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        for l in &ls {
            if label(l).is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { phis: vec![], insts: vec![] });
            }
            let blk = blocks.last_mut().unwrap();
            match self.inst(l, &mut regs, &bids, blk) {
                Ok(()) => {}
                Err(er) => blk.insts.push(Inst::Unsupported(format!("{} in: {}", er, l))),
            }
        }
        Ok(Func { id, nregs: regs.m.len() as u32, params, blocks })
    }

    fn inst(&self, l: &str, regs: &mut Regs, bids: &HashMap<String, u32>, blk: &mut Block) -> R<()> {
        let mut c = Cur::new(l);
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name()?;
            c.expect("=")?;
            dst = regs.get(&n);
        }
        let mut w = c.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        macro_rules! val {
            ($t:expr) => {
                self.value(&mut c, $t, &mut Some(&mut *regs))?
            };
        }
        macro_rules! lbl {
            () => {{
                c.expect("label")?;
                c.expect("%")?;
                let n = c.name()?;
                *bids.get(&n).ok_or(format!("label {}", n))?
            }};
        }
        let lanes_of = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (e.bits(), *n),
                t => (t.bits(), 0),
            }
        };
        let inst = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    c.word();
                }
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let b = val!(&t);
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                let (bw, n) = lanes_of(&t);
                Inst::Bin(op, bw, n, a, b, dst)
            }
            "icmp" => {
                if c.peek_word() == "samesign" {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {}", x)),
                };
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let b = val!(&t);
                let (bw, n) = lanes_of(&t);
                Inst::Icmp(p, bw, n, a, b, dst)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                let mut pred = String::new();
                loop {
                    if c.at_type() {
                        break;
                    }
                    pred = c.word().to_string();
                    if pred.is_empty() {
                        return Err("fp".into());
                    }
                }
                let t = self.ty(&mut c)?;
                if !matches!(t, Ty::F32 | Ty::F64) {
                    return Err("fp vector".into());
                }
                let a = val!(&t);
                if w == "fneg" {
                    Inst::FNeg(t.bits(), a, dst)
                } else {
                    c.expect(",")?;
                    let b = val!(&t);
                    match w {
                        "fadd" => Inst::FBin(FBin::Add, t.bits(), a, b, dst),
                        "fsub" => Inst::FBin(FBin::Sub, t.bits(), a, b, dst),
                        "fmul" => Inst::FBin(FBin::Mul, t.bits(), a, b, dst),
                        "fdiv" => Inst::FBin(FBin::Div, t.bits(), a, b, dst),
                        "frem" => Inst::FBin(FBin::Rem, t.bits(), a, b, dst),
                        _ => Inst::FCmp(pred, t.bits(), a, b, dst),
                    }
                }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext"
            | "fptrunc" | "addrspacecast" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("cast".into());
                    }
                }
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect("to")?;
                let tt = self.ty(&mut c)?;
                let (fw, n) = lanes_of(&t);
                let (tw, _) = lanes_of(&tt);
                match w {
                    "trunc" => Inst::Cast(Cast::Trunc, fw, tw, n, a, dst),
                    "zext" => Inst::Cast(Cast::ZExt, fw, tw, n, a, dst),
                    "sext" => Inst::Cast(Cast::SExt, fw, tw, n, a, dst),
                    "ptrtoint" | "inttoptr" => {
                        if fw > tw {
                            Inst::Cast(Cast::Trunc, fw, tw, n, a, dst)
                        } else if fw < tw {
                            Inst::Cast(Cast::ZExt, fw, tw, n, a, dst)
                        } else {
                            Inst::Move(a, dst)
                        }
                    }
                    "bitcast" => Inst::Bitcast(t, tt, a, dst),
                    "sitofp" => Inst::FCast(FCast::SiToFp, fw, tw, a, dst),
                    "uitofp" => Inst::FCast(FCast::UiToFp, fw, tw, a, dst),
                    "fptosi" => Inst::FCast(FCast::FpToSi, fw, tw, a, dst),
                    "fptoui" => Inst::FCast(FCast::FpToUi, fw, tw, a, dst),
                    "fpext" => Inst::FCast(FCast::FpExt, fw, tw, a, dst),
                    "fptrunc" => Inst::FCast(FCast::FpTrunc, fw, tw, a, dst),
                    _ => return Err(format!("cast {}", w)),
                }
            }
            "select" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("select".into());
                    }
                }
                let ct = self.ty(&mut c)?;
                let cc = val!(&ct);
                c.expect(",")?;
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let t2 = self.ty(&mut c)?;
                let b = val!(&t2);
                Inst::Select(lanes_of(&ct).1, t, cc, a, b, dst)
            }
            "freeze" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                Inst::Move(a, dst)
            }
            "load" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("load".into());
                    }
                }
                let t = self.ty(&mut c)?;
                c.expect(",")?;
                let pt = self.ty(&mut c)?;
                let p = val!(&pt);
                Inst::Load(t, p, dst)
            }
            "store" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("store".into());
                    }
                }
                let t = self.ty(&mut c)?;
                let v = val!(&t);
                c.expect(",")?;
                let pt = self.ty(&mut c)?;
                let p = val!(&pt);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("gep".into());
                    }
                }
                let et = self.ty(&mut c)?;
                c.expect(",")?;
                let pt = self.ty(&mut c)?;
                if !matches!(pt, Ty::Ptr) {
                    return Err("vector gep".into());
                }
                let base = val!(&pt);
                let mut idx = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(&mut c)?;
                    let v = val!(&it);
                    idx.push((v, it.bits()));
                }
                let (off, rest) = Self::gep_offset(&et, &idx)?;
                Inst::Gep(base, off, rest, dst)
            }
            "alloca" => {
                let t = self.ty(&mut c)?;
                let mut n = Op::C(1);
                if c.eat(",") && c.at_type() {
                    let nt = self.ty(&mut c)?;
                    n = val!(&nt);
                }
                Inst::Alloca(t.size(), n, dst)
            }
            "phi" => {
                while !c.at_type() {
                    if c.word().is_empty() {
                        return Err("phi".into());
                    }
                }
                let t = self.ty(&mut c)?;
                let mut inc = vec![];
                while c.eat("[") {
                    let v = val!(&t);
                    c.expect(",")?;
                    c.expect("%")?;
                    let n = c.name()?;
                    c.expect("]")?;
                    inc.push((*bids.get(&n).ok_or(format!("phi label {}", n))?, v));
                    c.eat(",");
                }
                blk.phis.push((dst, inc));
                return Ok(());
            }
            "extractvalue" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                let mut ix = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse::<u32>().map_err(|_| "extractvalue")?);
                }
                Inst::ExtractValue(a, ix, dst)
            }
            "insertvalue" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let vt = self.ty(&mut c)?;
                let v = val!(&vt);
                let mut ix = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse::<u32>().map_err(|_| "insertvalue")?);
                }
                Inst::InsertValue(a, v, ix, dst)
            }
            "extractelement" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let it = self.ty(&mut c)?;
                let i = val!(&it);
                Inst::ExtractElem(a, i, dst)
            }
            "insertelement" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let vt = self.ty(&mut c)?;
                let v = val!(&vt);
                c.expect(",")?;
                let it = self.ty(&mut c)?;
                let i = val!(&it);
                Inst::InsertElem(a, v, i, dst)
            }
            "shufflevector" => {
                let t = self.ty(&mut c)?;
                let a = val!(&t);
                c.expect(",")?;
                let t2 = self.ty(&mut c)?;
                let b = val!(&t2);
                c.expect(",")?;
                let mt = self.ty(&mut c)?;
                let m = self.value_const(&mut c, &mt)?;
                let mask = match m {
                    CVal::A(v) => v.iter().map(|x| if let CVal::C(k) = x { *k as i32 } else { 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Inst::Shuffle(a, b, t.count() as u32, mask, dst)
            }
            "call" | "invoke" => {
                c.skip_attrs();
                let t = self.ty(&mut c)?;
                let callee = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        let n = c.name()?;
                        match self.fnames.get(&n) {
                            Some(f) => Callee::Fn(*f),
                            None => return Err(format!("callee @{}", n)),
                        }
                    }
                    b'%' => Callee::Ind(val!(&Ty::Ptr)),
                    _ => {
                        if c.peek_word() == "asm" {
                            blk.insts.push(Inst::Call(Callee::Asm, vec![], t, dst, None));
                            return Ok(());
                        }
                        Callee::Ind(val!(&Ty::Ptr))
                    }
                };
                c.expect("(")?;
                let mut args = vec![];
                while !c.eat(")") {
                    let at = self.ty(&mut c)?;
                    if at == Ty::Meta {
                        // skip the metadata operand
                        let mut d = 0;
                        while c.i < c.s.len() {
                            match c.s[c.i] {
                                b'(' | b'{' => d += 1,
                                b')' | b'}' if d > 0 => d -= 1,
                                b')' | b',' if d == 0 => break,
                                _ => {}
                            }
                            c.i += 1;
                        }
                        c.eat(",");
                        continue;
                    }
                    c.skip_attrs_all();
                    let v = val!(&at);
                    args.push((v, at));
                    c.eat(",");
                }
                let mut normal = None;
                if w == "invoke" {
                    let p = l.rfind("to label %").ok_or("invoke")?;
                    c.i = p + 3;
                    normal = Some(lbl!());
                }
                Inst::Call(callee, args, t, dst, normal)
            }
            "atomicrmw" => {
                if c.peek_word() == "volatile" {
                    c.word();
                }
                let op = c.word().to_string();
                let pt = self.ty(&mut c)?;
                let p = val!(&pt);
                c.expect(",")?;
                let t = self.ty(&mut c)?;
                let v = val!(&t);
                Inst::Rmw(op, t.bits(), p, v, dst)
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let pt = self.ty(&mut c)?;
                let p = val!(&pt);
                c.expect(",")?;
                let t = self.ty(&mut c)?;
                let e = val!(&t);
                c.expect(",")?;
                let t2 = self.ty(&mut c)?;
                let n = val!(&t2);
                Inst::CmpXchg(t.bits(), p, e, n, dst)
            }
            "fence" => return Ok(()),
            "br" => {
                if c.peek_word() == "label" {
                    Inst::Br(lbl!())
                } else {
                    let t = self.ty(&mut c)?;
                    let v = val!(&t);
                    c.expect(",")?;
                    let a = lbl!();
                    c.expect(",")?;
                    let b = lbl!();
                    Inst::CondBr(v, a, b)
                }
            }
            "switch" => {
                let t = self.ty(&mut c)?;
                let v = val!(&t);
                c.expect(",")?;
                let d = lbl!();
                c.expect("[")?;
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = self.ty(&mut c)?;
                    let k = match self.value_const(&mut c, &ct)? {
                        CVal::C(x) => x as u128,
                        CVal::W(x) => x,
                        _ => return Err("case".into()),
                    };
                    c.expect(",")?;
                    cases.push((k, lbl!()));
                }
                Inst::Switch(t.bits(), v, d, cases)
            }
            "ret" => {
                let t = self.ty(&mut c)?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let v = val!(&t);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            _ => return Err(format!("instruction {}", w)),
        };
        blk.insts.push(inst);
        Ok(())
    }
}

impl<'a> Cur<'a> {
    /// Skip parameter attributes that may precede a value
    fn skip_attrs_all(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.s.get(self.i) == Some(&b'=') {
                    self.i += 1;
                }
                continue;
            }
            let w = self.peek_word();
            let attr = matches!(
                w,
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "align" | "dereferenceable"
                    | "dereferenceable_or_null" | "captures" | "sret" | "byval" | "range" | "zeroext" | "signext" | "immarg" | "nocapture"
                    | "inreg" | "returned" | "nest" | "allocalign" | "allocptr" | "writable" | "dead_on_unwind" | "dead_on_return"
                    | "initializes" | "nofpclass" | "swiftself" | "swifterror" | "inalloca" | "preallocated" | "elementtype" | "noext"
            );
            if !attr {
                return;
            }
            self.word();
            if self.s.get(self.i) == Some(&b'(') {
                self.balanced();
            } else if w == "align" {
                self.word();
            }
        }
    }
    fn skip_attrs_if_word(&mut self) {
        self.skip_attrs_all();
    }
}

impl Ty {
    pub fn field_ty(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field_ty"),
        }
    }
}

pub struct Regs {
    m: HashMap<String, u32>,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(r) = self.m.get(n) {
            return *r;
        }
        let r = self.m.len() as u32;
        self.m.insert(n.to_string(), r);
        r
    }
}
