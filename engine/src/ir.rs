//! Reader for textual LLVM IR (as written by `rustc --emit=llvm-ir` after fat LTO).
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => ((*w as u64 + 127) / 128) * 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.size().max(1).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToInt(bool),
    IntToFp(bool),
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ext(Rc<str>),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, n: Opnd, align: u64 },
    Load { d: u32, ty: Ty, p: Opnd, at: bool },
    Store { ty: Ty, v: Opnd, p: Opnd, at: bool },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Bin { d: u32, op: crate::expr::Op, ty: Ty, a: Opnd, b: Opnd },
    FBin { d: u32, op: Rc<str>, ty: Ty, a: Opnd, b: Opnd },
    FNeg { d: u32, ty: Ty, a: Opnd },
    Icmp { d: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    Fcmp { d: u32, p: Rc<str>, ty: Ty, a: Opnd, b: Opnd },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Copy { d: u32, a: Opnd },
    Call { d: Option<u32>, ret: Ty, f: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32>, unwind: Option<u32> },
    ExtractV { d: u32, a: Opnd, idx: Vec<u32> },
    InsertV { d: u32, ty: Ty, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opnd, i: Opnd },
    InsertE { d: u32, ty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u32, m: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Rmw { d: u32, op: Rc<str>, ty: Ty, p: Opnd, v: Opnd },
    Nop,
    LandingPad { d: u32, cleanup: bool, clauses: u32 },
    Resume { a: Opnd },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Opnd> },
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Phi {
    pub d: u32,
    pub inc: HashMap<u32, Opnd>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(I, u32)>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: Ty,
    pub panics: PanicKind,
    pub dbg: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PanicKind {
    No,
    Entry,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
    pub constant: bool,
}
#[derive(Default, Clone)]
pub struct Dbg {
    pub kind: u8, // 1 location 2 subprogram 3 block 4 file 5 namespace
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
    pub file: u32,
    pub name: String,
    pub linkage: String,
    pub dir: String,
}
pub struct Module {
    text: String,
    fspans: Vec<(usize, usize)>,
    fcache: Vec<OnceCell<Func>>,
    pub fnames: Vec<Rc<str>>,
    pub by_name: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub addr_fn: HashMap<u64, usize>,
    pub addr_ext: HashMap<u64, Rc<str>>,
    pub fn_addr: Vec<u64>,
    dlines: HashMap<u32, (usize, usize)>,
    dcache: RefCell<HashMap<u32, Rc<Dbg>>>,
    gaddr: HashMap<String, u64>,
    types: HashMap<String, Ty>,
}
impl Module {
    /// Function bodies are decoded the first time they are entered.
    pub fn func(&self, i: usize) -> &Func {
        self.fcache[i].get_or_init(|| {
            let (a, b) = self.fspans[i];
            let ls: Vec<&str> = self.text[a..b].lines().collect();
            let cx = Cx { gaddr: &self.gaddr, types: &self.types };
            parse_fn(ls[0], &ls[1..], &cx, &self.by_name)
        })
    }
    pub fn nfuncs(&self) -> usize {
        self.fspans.len()
    }
    pub fn parsed(&self, i: usize) -> Option<&Func> {
        self.fcache[i].get()
    }
    pub fn dbg(&self, id: u32) -> Option<Rc<Dbg>> {
        if let Some(d) = self.dcache.borrow().get(&id) {
            return Some(d.clone());
        }
        let &(a, b) = self.dlines.get(&id)?;
        let mut m = HashMap::new();
        parse_dbg(&self.text[a..b], &mut m);
        let d = Rc::new(m.remove(&id)?);
        self.dcache.borrow_mut().insert(id, d.clone());
        Some(d)
    }
}

pub const FN_BASE: u64 = 0x10000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    Reg(String),
    Glob(String),
    Meta(String),
    Attr,
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
}

fn unq(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn lex(l: &str) -> Vec<T> {
    let b = l.as_bytes();
    let mut i = 0;
    let mut o = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' | b'!' | b'#' => {
                let mut j = i + 1;
                let s;
                if j < b.len() && b[j] == b'"' && c != b'!' {
                    j += 1;
                    let st = j;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    s = String::from_utf8_lossy(&unq(&b[st..j])).into_owned();
                    j += 1;
                } else {
                    let st = j;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    s = l[st..j].to_string();
                }
                i = j;
                o.push(match c {
                    b'%' => T::Reg(s),
                    b'@' => T::Glob(s),
                    b'!' => T::Meta(s),
                    _ => T::Attr,
                });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(T::Str(unq(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(T::CStr(unq(&b[st..j])));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                o.push(T::Num(l[st..i].to_string()));
            }
            b'.' if l[i..].starts_with("...") => {
                o.push(T::Dots);
                i += 3;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                o.push(T::W(l[st..i].to_string()));
            }
            c => {
                o.push(T::P(c as char));
                i += 1;
            }
        }
    }
    o
}

struct Cx<'a> {
    gaddr: &'a HashMap<String, u64>,
    types: &'a HashMap<String, Ty>,
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    cx: &'a Cx<'a>,
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> P<'a> {
    fn pk(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn nx(&mut self) -> T {
        let r = self.t[self.i].clone();
        self.i += 1;
        r
    }
    fn isp(&self, c: char) -> bool {
        self.pk() == Some(&T::P(c))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), Some(T::W(x)) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected '{}' at {} in {:?}", c, self.i, &self.t[self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())]);
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.nx() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.pk() {
            Some(T::W(w)) => is_ty_word(w),
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::Reg(n)) => self.cx.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = self.nx();
        let r = match t {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                _ if is_ty_word(&w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            T::P('[') => {
                let n = self.int();
                self.eatw("x");
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            T::P('<') => {
                if self.isp('{') {
                    let s = self.ty();
                    self.exp('>');
                    if let Ty::Struct(f, _) = s {
                        Ty::Struct(f, true)
                    } else {
                        panic!()
                    }
                } else {
                    let n = self.int();
                    self.eatw("x");
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            T::P('{') => {
                let mut fs = Vec::new();
                while !self.isp('}') {
                    fs.push(self.ty());
                    if !self.eatp(',') {
                        break;
                    }
                }
                self.exp('}');
                Ty::Struct(Rc::new(fs), false)
            }
            T::Reg(n) => self.cx.types.get(&n).cloned().unwrap_or_else(|| panic!("unknown type %{}", n)),
            o => panic!("type? {:?} in {:?}", o, self.t),
        };
        r
    }
    fn int(&mut self) -> i128 {
        match self.nx() {
            T::Num(s) => s.parse().unwrap_or_else(|_| panic!("int {}", s)),
            o => panic!("int? {:?} in {:?}", o, self.t),
        }
    }
    /// Skip parameter / return attributes (not types, not values).
    fn attrs(&mut self) {
        loop {
            match self.pk() {
                Some(T::W(w)) => {
                    if is_ty_word(w) || is_val_word(w) {
                        return;
                    }
                    let al = w == "align" || w == "alignstack";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren();
                    } else if al {
                        if matches!(self.pk(), Some(T::Num(_))) {
                            self.i += 1;
                        }
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                Some(T::Attr) => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }
    fn val(&mut self, ty: &Ty, regs: &mut Regs) -> Opnd {
        if let Some(T::Reg(_)) = self.pk() {
            if let T::Reg(n) = self.nx() {
                return Opnd::R(regs.get(&n));
            }
        }
        Opnd::K(self.konst(ty))
    }
    fn tyval(&mut self, regs: &mut Regs) -> (Ty, Opnd) {
        let t = self.ty();
        self.attrs();
        let v = self.val(&t, regs);
        (t, v)
    }
    fn konst(&mut self, ty: &Ty) -> V {
        let m = crate::expr::mask(ty.bits().max(1));
        match self.nx() {
            T::Num(s) => {
                if matches!(ty, Ty::F32 | Ty::F64) {
                    let d: u64 = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        s.parse::<f64>().unwrap_or_else(|_| panic!("float {}", s)).to_bits()
                    };
                    return if *ty == Ty::F32 { V::C((f64::from_bits(d) as f32).to_bits() as u128) } else { V::C(d as u128) };
                }
                let v: u128 = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap_or_else(|_| panic!("num {}", s)) };
                V::C(v & m)
            }
            T::W(w) => match w.as_str() {
                "true" => V::C(1),
                "false" | "null" => V::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => zero(ty),
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.exp(')');
                    match ty {
                        Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                        Ty::Arr(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while matches!(self.pk(), Some(T::W(_))) && !self.isp('(') {
                        self.i += 1;
                        if self.isp('(') && matches!(self.t.get(self.i - 1), Some(T::W(w)) if w == "inrange") {
                            self.skip_paren();
                        }
                    }
                    self.exp('(');
                    let et = self.ty();
                    self.exp(',');
                    let bt = self.ty();
                    let b = self.konst(&bt);
                    let mut a = match b {
                        V::C(a) => a,
                        _ => panic!(),
                    };
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty();
                        let iv = self.konst(&it);
                        let k = match iv {
                            V::C(k) => crate::expr::sext(k, it.bits()),
                            _ => panic!(),
                        };
                        if first {
                            a = a.wrapping_add((k * et.size() as i128) as u128);
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    a = a.wrapping_add(cur.field_off(k as usize) as u128);
                                    cur = cur.elem(k as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    a = a.wrapping_add((k * e.size() as i128) as u128);
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.exp(')');
                    V::C(a & crate::expr::mask(64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.eatw("to");
                    let t2 = self.ty();
                    self.exp(')');
                    match v {
                        V::C(x) => V::C(x & crate::expr::mask(t2.bits().max(1))),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while matches!(self.pk(), Some(T::W(_))) {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp(')');
                    match (a, b) {
                        (V::C(a), V::C(b)) => {
                            let op = match w.as_str() {
                                "add" => crate::expr::Op::Add,
                                "sub" => crate::expr::Op::Sub,
                                "mul" => crate::expr::Op::Mul,
                                _ => crate::expr::Op::Xor,
                            };
                            V::C(crate::expr::bin(op, a, b, t.bits()))
                        }
                        _ => panic!("constexpr"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                _ => panic!("const word {} in {:?}", w, &self.t[..self.t.len().min(40)]),
            },
            T::Glob(n) => V::C(*self.cx.gaddr.get(&n).unwrap_or_else(|| panic!("unknown global @{}", n)) as u128),
            T::CStr(b) => V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect())),
            T::P('<') => {
                if self.isp('{') {
                    let v = self.konst(ty);
                    self.exp('>');
                    v
                } else {
                    self.agg(ty, '>')
                }
            }
            T::P('[') => self.agg(ty, ']'),
            T::P('{') => self.agg(ty, '}'),
            o => panic!("const? {:?} in {:?}", o, &self.t[..self.t.len().min(60)]),
        }
    }
    fn agg(&mut self, _ty: &Ty, close: char) -> V {
        let mut vs = Vec::new();
        while !self.isp(close) {
            let t = self.ty();
            self.attrs();
            vs.push(self.konst(&t));
            if !self.eatp(',') {
                break;
            }
        }
        self.exp(close);
        V::A(Rc::new(vs))
    }
}

fn is_val_word(w: &str) -> bool {
    matches!(
        w,
        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "asm" | "none" | "add" | "sub" | "xor" | "mul" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "blockaddress" | "dso_local_equivalent" | "no_cfi"
    )
}

pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Arr(n, t) => V::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Vec(n, t) => V::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
        _ => V::C(0),
    }
}

pub fn write_const(buf: &mut [u8], off: u64, ty: &Ty, v: &V) {
    match (ty, v) {
        (Ty::Struct(fs, _), V::A(vs)) => {
            for (i, f) in fs.iter().enumerate() {
                write_const(buf, off + ty.field_off(i), f, &vs[i]);
            }
        }
        (Ty::Arr(_, t), V::A(vs)) | (Ty::Vec(_, t), V::A(vs)) => {
            let s = t.size();
            for (i, x) in vs.iter().enumerate() {
                write_const(buf, off + s * i as u64, t, x);
            }
        }
        (t, V::C(x)) => {
            let n = t.size();
            for k in 0..n {
                buf[(off + k) as usize] = (x >> (8 * k)) as u8;
            }
        }
        _ => panic!("write_const {:?} {:?}", ty, v),
    }
}

struct Regs {
    m: HashMap<String, u32>,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.m.get(n) {
            return i;
        }
        let i = self.m.len() as u32;
        self.m.insert(n.to_string(), i);
        i
    }
}

fn sym_after_at(l: &str) -> String {
    let i = l.find('@').unwrap();
    let b = l.as_bytes();
    if b[i + 1] == b'"' {
        let j = l[i + 2..].find('"').unwrap();
        String::from_utf8_lossy(&unq(l[i + 2..i + 2 + j].as_bytes())).into_owned()
    } else {
        let mut j = i + 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1;
        }
        l[i + 1..j].to_string()
    }
}

fn panic_kind(n: &str) -> PanicKind {
    if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind") {
        PanicKind::Entry
    } else {
        PanicKind::No
    }
}

pub fn parse(text: String) -> Module {
    let lines: Vec<&str> = text.lines().collect();
    let start = text.as_ptr() as usize;
    let mut fspans = Vec::new();
    let mut fnames: Vec<Rc<str>> = Vec::new();
    let mut fn_addr = Vec::new();
    let mut dlines = HashMap::new();
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut addr_fn = HashMap::new();
    let mut addr_ext: HashMap<u64, Rc<str>> = HashMap::new();
    let mut by_name = HashMap::new();
    let mut nf = 0usize;
    let mut next_fn = FN_BASE;
    // named types first; a definition may use types defined further down
    let mut todo: Vec<Vec<T>> = lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")).map(|l| lex(l)).collect();
    while !todo.is_empty() {
        let before = todo.len();
        todo.retain(|toks| {
            let T::Reg(n) = &toks[0] else { return false };
            if toks[3..].iter().any(|t| matches!(t, T::Reg(m) if !types.contains_key(m))) {
                return true;
            }
            let empty = HashMap::new();
            let cx = Cx { gaddr: &empty, types: &types };
            let mut p = P { t: toks, i: 3, cx: &cx };
            let t = if p.isw("opaque") { Ty::Other } else { p.ty() };
            types.insert(n.clone(), t);
            false
        });
        assert!(todo.len() < before, "recursive types {:?}", todo[0]);
    }
    let mut glines: Vec<(usize, String)> = Vec::new();
    let mut aliases: Vec<(String, String)> = Vec::new();
    for (li, l) in lines.iter().enumerate() {
        if l.starts_with("define ") {
            let n = sym_after_at(l);
            gaddr.insert(n.clone(), next_fn);
            addr_fn.insert(next_fn, nf);
            let mut j = li + 1;
            while lines[j] != "}" {
                j += 1;
            }
            fspans.push((l.as_ptr() as usize - start, lines[j].as_ptr() as usize - start));
            fnames.push(n.as_str().into());
            fn_addr.push(next_fn);
            by_name.insert(n, nf);
            nf += 1;
            next_fn += 16;
        } else if l.starts_with("declare ") {
            let n = sym_after_at(l);
            gaddr.insert(n.clone(), next_fn);
            addr_ext.insert(next_fn, n.as_str().into());
            next_fn += 16;
        } else if l.starts_with('!') {
            if let Some(e) = l.find(" = ") {
                if let Ok(id) = l[1..e].parse::<u32>() {
                    let a = l.as_ptr() as usize - start;
                    dlines.insert(id, (a, a + l.len()));
                }
            }
        } else if l.starts_with('@') {
            if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                let n = sym_after_at(l);
                let k = l.rfind('@').unwrap();
                aliases.push((n, sym_after_at(&l[k..])));
            } else {
                glines.push((li, sym_after_at(l)));
            }
        }
    }
    for (a, b) in aliases {
        if let Some(&x) = gaddr.get(&b) {
            gaddr.insert(a.clone(), x);
            if let Some(&f) = by_name.get(&b) {
                by_name.insert(a, f);
            }
        }
    }
    // pass 1: sizes/addresses of globals
    let mut next = GLOBAL_BASE;
    let mut gtoks: Vec<(Vec<T>, usize, Ty, u64, bool, bool)> = Vec::new();
    for (li, name) in &glines {
        let toks = lex(lines[*li]);
        let empty = HashMap::new();
        let cx = Cx { gaddr: &empty, types: &types };
        let mut p = P { t: &toks, i: 2, cx: &cx };
        let mut external = false;
        let mut constant = false;
        loop {
            match p.nx() {
                T::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if w == "constant" {
                        constant = true;
                        break;
                    }
                    if w == "global" {
                        break;
                    }
                    if p.isp('(') {
                        p.skip_paren();
                    }
                }
                T::P(')') => {}
                T::Str(_) => {}
                o => panic!("global {:?} {}", o, lines[*li]),
            }
        }
        let ty = p.ty();
        let mut al = 16u64;
        if let Some(k) = lines[*li].rfind(", align ") {
            let s: String = lines[*li][k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            al = s.parse().unwrap_or(16).max(1);
        }
        next = (next + al.max(8) - 1) / al.max(8) * al.max(8);
        gaddr.insert(name.clone(), next);
        let addr = next;
        next += ty.size().max(1) + 32;
        let pos = p.i;
        gtoks.push((toks, pos, ty, addr, constant, external));
    }
    let cx = Cx { gaddr: &gaddr, types: &types };
    let mut globals = Vec::new();
    for (k, (toks, pos, ty, addr, constant, external)) in gtoks.into_iter().enumerate() {
        let size = ty.size();
        let mut init = vec![0u8; size as usize];
        if !external {
            let mut p = P { t: &toks, i: pos, cx: &cx };
            let v = p.konst(&ty);
            write_const(&mut init, 0, &ty, &v);
        }
        globals.push(Global { name: glines[k].1.clone(), addr, size, init, constant });
    }
    drop(lines);
    let fcache = (0..fspans.len()).map(|_| OnceCell::new()).collect();
    Module { text, fspans, fcache, fnames, by_name, globals, addr_fn, addr_ext, fn_addr, dlines, dcache: RefCell::new(HashMap::new()), gaddr, types }
}

fn parse_dbg(l: &str, m: &mut HashMap<u32, Dbg>) {
    let eq = match l.find(" = ") {
        Some(e) => e,
        None => return,
    };
    let id: u32 = match l[1..eq].parse() {
        Ok(x) => x,
        _ => return,
    };
    let r = l[eq + 3..].trim_start_matches("distinct ");
    let kind = if r.starts_with("!DILocation(") {
        1
    } else if r.starts_with("!DISubprogram(") {
        2
    } else if r.starts_with("!DILexicalBlock") {
        3
    } else if r.starts_with("!DIFile(") {
        4
    } else if r.starts_with("!DINamespace(") {
        5
    } else {
        return;
    };
    let mut d = Dbg { kind, ..Default::default() };
    let numf = |k: &str| -> u32 {
        let pat = format!("{}: ", k);
        let mut from = 0;
        while let Some(p) = r[from..].find(&pat) {
            let at = from + p;
            let pc = r[..at].chars().last().unwrap_or(' ');
            if pc == '(' || pc == ' ' {
                let s: String = r[at + pat.len()..].trim_start_matches('!').chars().take_while(|c| c.is_ascii_digit()).collect();
                return s.parse().unwrap_or(0);
            }
            from = at + pat.len();
        }
        0
    };
    let strf = |k: &str| -> String {
        let pat = format!("{}: \"", k);
        let mut from = 0;
        while let Some(p) = r[from..].find(&pat) {
            let at = from + p;
            let pc = r[..at].chars().last().unwrap_or(' ');
            if pc == '(' || pc == ' ' {
                let rest = &r[at + pat.len()..];
                return rest[..rest.find('"').unwrap_or(0)].to_string();
            }
            from = at + pat.len();
        }
        String::new()
    };
    match kind {
        1 => {
            d.line = numf("line");
            d.scope = numf("scope");
            d.inlined = numf("inlinedAt");
        }
        2 => {
            d.name = strf("name");
            d.linkage = strf("linkageName");
            d.file = numf("file");
            d.line = numf("line");
            d.scope = numf("scope");
        }
        3 => {
            d.scope = numf("scope");
            d.file = numf("file");
        }
        4 => {
            d.name = strf("filename");
            d.dir = strf("directory");
        }
        _ => {
            d.name = strf("name");
            d.scope = numf("scope");
        }
    }
    m.insert(id, d);
}

fn bin_op(w: &str) -> Option<crate::expr::Op> {
    use crate::expr::Op::*;
    Some(match w {
        "add" => Add,
        "sub" => Sub,
        "mul" => Mul,
        "udiv" => UDiv,
        "sdiv" => SDiv,
        "urem" => URem,
        "srem" => SRem,
        "and" => And,
        "or" => Or,
        "xor" => Xor,
        "shl" => Shl,
        "lshr" => LShr,
        "ashr" => AShr,
        _ => return None,
    })
}

fn parse_fn(head: &str, body: &[&str], cx: &Cx, by_name: &HashMap<String, usize>) -> Func {
    let name = sym_after_at(head);
    let mut regs = Regs { m: HashMap::new() };
    let toks = lex(head);
    let gi = toks.iter().position(|t| matches!(t, T::Glob(n) if *n == name)).unwrap();
    // return type: scan attrs from token 1
    let mut p = P { t: &toks, i: 1, cx };
    while !p.at_type() {
        match p.pk() {
            Some(T::W(_)) => {
                p.i += 1;
                if p.isp('(') {
                    p.skip_paren();
                }
                if matches!(p.pk(), Some(T::Num(_))) {
                    p.i += 1;
                }
            }
            _ => p.i += 1,
        }
    }
    let ret = p.ty();
    p.i = gi + 1;
    p.exp('(');
    let mut params = Vec::new();
    let mut unnamed = 0u32;
    while !p.isp(')') {
        if p.pk() == Some(&T::Dots) {
            p.i += 1;
            break;
        }
        p.ty();
        p.attrs();
        if let Some(T::Reg(n)) = p.pk() {
            let n = n.clone();
            p.i += 1;
            if n.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            params.push(regs.get(&n));
        } else {
            params.push(regs.get(&format!("{}", unnamed)));
            unnamed += 1;
        }
        if !p.eatp(',') {
            break;
        }
    }
    let mut fdbg = 0;
    if let Some(k) = head.find("!dbg !") {
        let s: String = head[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
        fdbg = s.parse().unwrap_or(0);
    }
    // split into blocks
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut raw: Vec<Vec<String>> = Vec::new();
    let mut k = 0;
    let mut cur: Option<usize> = None;
    while k < body.len() {
        let l = body[k];
        if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") {
            k += 1;
            continue;
        }
        if !l.starts_with(' ') {
            let e;
            let nm = if l.starts_with('"') {
                let j = l[1..].find('"').unwrap();
                e = String::from_utf8_lossy(&unq(l[1..1 + j].as_bytes())).into_owned();
                e
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            labels.insert(nm, raw.len() as u32);
            cur = Some(raw.len());
            raw.push(Vec::new());
            k += 1;
            continue;
        }
        if cur.is_none() {
            labels.insert(format!("{}", unnamed), 0);
            raw.push(Vec::new());
            cur = Some(0);
        }
        let mut s = l.trim().to_string();
        if (s.starts_with("switch ") || s.contains(" switch ")) && !s.contains(']') {
            loop {
                k += 1;
                s.push(' ');
                s.push_str(body[k].trim());
                if body[k].contains(']') {
                    break;
                }
            }
        }
        while k + 1 < body.len() {
            let n = body[k + 1].trim();
            if n.starts_with("to label") || n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                s.push(' ');
                s.push_str(n);
                k += 1;
            } else {
                break;
            }
        }
        raw[cur.unwrap()].push(s);
        k += 1;
    }
    let mut blocks = Vec::new();
    for r in &raw {
        let mut b = Block { phis: Vec::new(), ins: Vec::new() };
        for s in r {
            let mut db = 0u32;
            if let Some(k) = s.rfind("!dbg !") {
                let x: String = s[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                db = x.parse().unwrap_or(0);
            }
            let toks = lex(s);
            let mut p = P { t: &toks, i: 0, cx };
            parse_ins(&mut p, &mut regs, &labels, by_name, &mut b, db);
        }
        blocks.push(b);
    }
    Func { panics: panic_kind(&name), name: name.as_str().into(), params, nregs: regs.m.len() as u32, blocks, ret, dbg: fdbg }
}

fn parse_ins(p: &mut P, regs: &mut Regs, labels: &HashMap<String, u32>, by_name: &HashMap<String, usize>, b: &mut Block, db: u32) {
    let mut d = 0u32;
    let mut has_d = false;
    if let (Some(T::Reg(n)), Some(T::P('='))) = (p.t.first(), p.t.get(1)) {
        d = regs.get(n);
        has_d = true;
        p.i = 2;
    }
    let lab = |p: &mut P| -> u32 {
        p.eatw("label");
        match p.nx() {
            T::Reg(n) => *labels.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            o => panic!("label {:?}", o),
        }
    };
    let mut op = match p.nx() {
        T::W(w) => w,
        o => panic!("opcode {:?} in {:?}", o, p.t),
    };
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = match p.nx() {
            T::W(w) => w,
            _ => panic!(),
        };
    }
    let flags = |p: &mut P| {
        let mut at = false;
        while let Some(T::W(w)) = p.pk() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inalloca"
            ) {
                at |= w == "atomic";
                p.i += 1;
            } else if w == "inrange" {
                p.i += 1;
                p.skip_paren();
            } else {
                break;
            }
        }
        at
    };
    if let Some(o) = bin_op(&op) {
        flags(p);
        let ty = p.ty();
        let a = p.val(&ty, regs);
        p.exp(',');
        let c = p.val(&ty, regs);
        b.ins.push((I::Bin { d, op: o, ty, a, b: c }, db));
        return;
    }
    let ins = match op.as_str() {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(p);
            let ty = p.ty();
            let a = p.val(&ty, regs);
            p.exp(',');
            let c = p.val(&ty, regs);
            I::FBin { d, op: op.as_str().into(), ty, a, b: c }
        }
        "fneg" => {
            flags(p);
            let ty = p.ty();
            let a = p.val(&ty, regs);
            I::FNeg { d, ty, a }
        }
        "icmp" => {
            flags(p);
            let pr = match p.nx() {
                T::W(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    _ => Pred::Sle,
                },
                _ => panic!(),
            };
            let ty = p.ty();
            let a = p.val(&ty, regs);
            p.exp(',');
            let c = p.val(&ty, regs);
            I::Icmp { d, p: pr, ty, a, b: c }
        }
        "fcmp" => {
            flags(p);
            let pr = match p.nx() {
                T::W(w) => w,
                _ => panic!(),
            };
            let ty = p.ty();
            let a = p.val(&ty, regs);
            p.exp(',');
            let c = p.val(&ty, regs);
            I::Fcmp { d, p: pr.as_str().into(), ty, a, b: c }
        }
        "alloca" => {
            flags(p);
            let ty = p.ty();
            let mut n = Opnd::K(V::C(1));
            let mut align = 16;
            while p.eatp(',') {
                if p.eatw("align") {
                    align = p.int() as u64;
                } else if p.at_type() {
                    let (_, v) = p.tyval(regs);
                    n = v;
                } else {
                    break;
                }
            }
            I::Alloca { d, size: ty.size(), n, align }
        }
        "load" => {
            let at = flags(p);
            let ty = p.ty();
            p.exp(',');
            let (_, v) = p.tyval(regs);
            I::Load { d, ty, p: v, at }
        }
        "store" => {
            let at = flags(p);
            let (ty, v) = p.tyval(regs);
            p.exp(',');
            let (_, q) = p.tyval(regs);
            I::Store { ty, v, p: q, at }
        }
        "getelementptr" => {
            flags(p);
            let et = p.ty();
            p.exp(',');
            let (_, base) = p.tyval(regs);
            let mut off = 0i64;
            let mut idx = Vec::new();
            let mut cur = et.clone();
            let mut first = true;
            while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(T::Meta(_))) {
                p.i += 1;
                let (it, v) = p.tyval(regs);
                let scale;
                if first {
                    scale = et.size() as i64;
                    first = false;
                } else if let Ty::Struct(..) = &cur {
                    if let Opnd::K(V::C(k)) = &v {
                        off += cur.field_off(*k as usize) as i64;
                        cur = cur.elem(*k as usize);
                        continue;
                    }
                    panic!("gep struct index");
                } else {
                    let e = cur.elem(0);
                    scale = e.size() as i64;
                    cur = e;
                }
                match v {
                    Opnd::K(V::C(k)) => off = off.wrapping_add((crate::expr::sext(k, it.bits()) as i64).wrapping_mul(scale)),
                    v => idx.push((v, it.bits(), scale)),
                }
            }
            I::Gep { d, base, off, idx }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            flags(p);
            let (from, a) = p.tyval(regs);
            p.eatw("to");
            let to = p.ty();
            let k = match op.as_str() {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if from.bits() > to.bits() {
                        Cast::Trunc
                    } else {
                        Cast::ZExt
                    }
                }
                "fptoui" => Cast::FpToInt(false),
                "fptosi" => Cast::FpToInt(true),
                "uitofp" => Cast::IntToFp(false),
                "sitofp" => Cast::IntToFp(true),
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => Cast::Bit,
            };
            I::Cast { d, k, from, to, a }
        }
        "select" => {
            flags(p);
            let (cty, c) = p.tyval(regs);
            p.exp(',');
            let (ty, a) = p.tyval(regs);
            p.exp(',');
            let (_, e) = p.tyval(regs);
            I::Select { d, cty, ty, c, a, b: e }
        }
        "freeze" => {
            let (_, a) = p.tyval(regs);
            I::Copy { d, a }
        }
        "phi" => {
            flags(p);
            let ty = p.ty();
            let mut inc = HashMap::new();
            loop {
                p.exp('[');
                let v = p.val(&ty, regs);
                p.exp(',');
                let l = lab(p);
                p.exp(']');
                inc.insert(l, v);
                if !(p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::P('[')))) {
                    break;
                }
                p.i += 1;
            }
            b.phis.push(Phi { d, inc });
            return;
        }
        "call" | "invoke" => {
            // cc, return attributes
            flags(p);
            while !p.at_type() {
                match p.pk() {
                    Some(T::W(_)) => {
                        p.i += 1;
                        if p.isp('(') {
                            p.skip_paren();
                        }
                        if matches!(p.pk(), Some(T::Num(_))) {
                            p.i += 1;
                        }
                    }
                    _ => p.i += 1,
                }
            }
            let ret = p.ty();
            if p.isp('(') {
                p.skip_paren();
            }
            let callee = match p.pk().cloned() {
                Some(T::Glob(n)) => {
                    p.i += 1;
                    match by_name.get(&n) {
                        Some(&f) => Callee::Fn(f),
                        None => Callee::Ext(n.as_str().into()),
                    }
                }
                Some(T::Reg(n)) => {
                    p.i += 1;
                    Callee::Ind(Opnd::R(regs.get(&n)))
                }
                Some(T::W(w)) if w == "asm" => {
                    while !p.isp('(') {
                        p.i += 1;
                    }
                    Callee::Asm
                }
                _ => Callee::Ind(Opnd::K(p.konst(&Ty::Ptr))),
            };
            p.exp('(');
            let mut args = Vec::new();
            while !p.isp(')') {
                if p.isw("metadata") {
                    // metadata operand: skip to ',' or ')' at depth 0
                    let mut dp = 0;
                    loop {
                        match p.pk() {
                            Some(T::P('(')) => dp += 1,
                            Some(T::P(')')) if dp == 0 => break,
                            Some(T::P(')')) => dp -= 1,
                            Some(T::P(',')) if dp == 0 => break,
                            None => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push((Ty::Other, Opnd::K(V::C(0))));
                } else {
                    args.push(p.tyval(regs));
                }
                if !p.eatp(',') {
                    break;
                }
            }
            p.exp(')');
            let (mut normal, mut unwind) = (None, None);
            if op == "invoke" {
                while !p.isw("to") {
                    p.i += 1;
                }
                p.i += 1;
                normal = Some(lab(p));
                p.eatw("unwind");
                unwind = Some(lab(p));
            }
            I::Call { d: if has_d { Some(d) } else { None }, ret, f: callee, args, normal, unwind }
        }
        "extractvalue" => {
            let (_, a) = p.tyval(regs);
            let mut idx = Vec::new();
            while p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::Num(_))) {
                p.i += 1;
                idx.push(p.int() as u32);
            }
            I::ExtractV { d, a, idx }
        }
        "insertvalue" => {
            let (ty, a) = p.tyval(regs);
            p.exp(',');
            let (_, v) = p.tyval(regs);
            let mut idx = Vec::new();
            while p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::Num(_))) {
                p.i += 1;
                idx.push(p.int() as u32);
            }
            I::InsertV { d, ty, a, v, idx }
        }
        "extractelement" => {
            let (_, a) = p.tyval(regs);
            p.exp(',');
            let (_, i) = p.tyval(regs);
            I::ExtractE { d, a, i }
        }
        "insertelement" => {
            let (ty, a) = p.tyval(regs);
            p.exp(',');
            let (_, v) = p.tyval(regs);
            p.exp(',');
            let (_, i) = p.tyval(regs);
            I::InsertE { d, ty, a, v, i }
        }
        "shufflevector" => {
            let (ty, a) = p.tyval(regs);
            p.exp(',');
            let (_, c) = p.tyval(regs);
            p.exp(',');
            let (_, m) = p.tyval(regs);
            let n = match ty {
                Ty::Vec(n, _) => n,
                _ => 0,
            };
            I::Shuffle { d, a, b: c, n, m }
        }
        "cmpxchg" => {
            flags(p);
            let (_, q) = p.tyval(regs);
            p.exp(',');
            let (ty, c) = p.tyval(regs);
            p.exp(',');
            let (_, n) = p.tyval(regs);
            I::CmpXchg { d, ty, p: q, c, n }
        }
        "atomicrmw" => {
            flags(p);
            let o = match p.nx() {
                T::W(w) => w,
                _ => panic!(),
            };
            let (_, q) = p.tyval(regs);
            p.exp(',');
            let (ty, v) = p.tyval(regs);
            I::Rmw { d, op: o.as_str().into(), ty, p: q, v }
        }
        "fence" => I::Nop,
        "landingpad" => {
            p.ty();
            let cleanup = p.isw("cleanup");
            let mut n = 0;
            for t in &p.t[p.i..] {
                if matches!(t, T::W(w) if w == "catch") {
                    n += 1;
                }
            }
            I::LandingPad { d, cleanup, clauses: n }
        }
        "resume" => {
            let (_, a) = p.tyval(regs);
            I::Resume { a }
        }
        "br" => {
            if p.isw("label") {
                I::Br { t: lab(p) }
            } else {
                let (_, c) = p.tyval(regs);
                p.exp(',');
                let t = lab(p);
                p.exp(',');
                let f = lab(p);
                I::CondBr { c, t, f }
            }
        }
        "switch" => {
            let (ty, v) = p.tyval(regs);
            p.exp(',');
            let def = lab(p);
            p.exp('[');
            let mut cases = Vec::new();
            while !p.isp(']') {
                let t = p.ty();
                let k = match p.konst(&t) {
                    V::C(k) => k,
                    _ => panic!(),
                };
                p.exp(',');
                cases.push((k, lab(p)));
            }
            I::Switch { ty, v, def, cases }
        }
        "ret" => {
            if p.isw("void") {
                I::Ret { v: None }
            } else {
                let (_, v) = p.tyval(regs);
                I::Ret { v: Some(v) }
            }
        }
        "unreachable" => I::Unreachable,
        o => I::Unsupported(format!("opcode {}", o).as_str().into()),
    };
    b.ins.push((ins, db));
}
