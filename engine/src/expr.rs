//! Hash-consed bit-vector expression DAG (width 1..=128) with a local simplifier.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract(u32),
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: [Id; 3],
}

const NONE: Id = u32::MAX;

pub struct Pool {
    pub nodes: Vec<Node>,
    pub vars_of: Vec<[u64; 4]>,
    map: HashMap<Node, Id>,
    pub vars: Vec<(String, u32, Id)>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of a binary operator; shared by the simplifier, the model
/// evaluator and the interpreter's concrete fast path.
pub fn bin(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a >= 0 { -1i128 } else { 1 }) as u128 & m
            } else {
                a.wrapping_div(b) as u128 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128 & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w);
            let k = if y >= w as u128 { w - 1 } else { y as u32 };
            (s >> k.min(127)) as u128 & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: Vec::new(), vars_of: Vec::new(), map: HashMap::new(), vars: Vec::new() }
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let mut vs = [0u64; 4];
        if let Op::Var(k) = n.op {
            // variables from 255 on share one bit (over-approximate for slicing)
            let k = (k as usize).min(255);
            vs[k / 64] |= 1 << (k % 64);
        }
        for &c in &n.a {
            if c != NONE {
                let o = self.vars_of[c as usize];
                for i in 0..4 {
                    vs[i] |= o[i];
                }
            }
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.vars_of.push(vs);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn w(&self, e: Id) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cv(&self, e: Id) -> Option<u128> {
        match self.nodes[e as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> Id {
        self.intern(Node { op: Op::Const(v & mask(w)), w, a: [NONE; 3] })
    }
    pub fn var(&mut self, name: &str, w: u32) -> Id {
        let k = self.vars.len() as u32;
        let id = self.intern(Node { op: Op::Var(k), w, a: [NONE; 3] });
        self.vars.push((name.to_string(), w, id));
        id
    }
    pub fn var_at(&self, k: u32) -> Option<Id> {
        self.vars.get(k as usize).map(|v| v.2)
    }
    pub fn not(&mut self, e: Id) -> Id {
        let w = self.w(e);
        let m = self.c(mask(w), w);
        self.b(Op::Xor, e, m)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.b(Op::And, a, b)
    }
    /// Largest unsigned value the expression can obviously take.
    fn umax(&self, e: Id, depth: u32) -> u128 {
        let n = self.nodes[e as usize];
        let m = mask(n.w);
        if depth == 0 {
            return m;
        }
        match n.op {
            Op::Const(v) => v,
            Op::ZExt => self.umax(n.a[0], depth - 1),
            Op::And => self.umax(n.a[0], depth - 1).min(self.umax(n.a[1], depth - 1)),
            Op::Ite => self.umax(n.a[1], depth - 1).max(self.umax(n.a[2], depth - 1)),
            Op::URem => match self.cv(n.a[1]) {
                Some(c) if c > 0 => c - 1,
                _ => m,
            },
            Op::LShr => match self.cv(n.a[1]) {
                Some(c) if c < n.w as u128 => self.umax(n.a[0], depth - 1) >> c,
                _ => m,
            },
            Op::UDiv => match self.cv(n.a[1]) {
                Some(c) if c > 0 => self.umax(n.a[0], depth - 1) / c,
                _ => m,
            },
            Op::Add => {
                let (x, y) = (self.umax(n.a[0], depth - 1), self.umax(n.a[1], depth - 1));
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let (x, y) = (self.umax(n.a[0], depth - 1), self.umax(n.a[1], depth - 1));
                match x.checked_mul(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            _ => m,
        }
    }
    pub fn b(&mut self, op: Op, x: Id, y: Id) -> Id {
        let w = self.w(x);
        debug_assert_eq!(w, self.w(y), "width mismatch {:?}", op);
        let (cx, cy) = (self.cv(x), self.cv(y));
        let ow = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(a), Some(b)) = (cx, cy) {
            let v = bin(op, a, b, w);
            return self.c(v, ow);
        }
        let (mut x, mut y, mut cx, mut cy) = (x, y, cx, cy);
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (cx.is_some() || (cy.is_none() && x > y)) {
            std::mem::swap(&mut x, &mut y);
            std::mem::swap(&mut cx, &mut cy);
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cy == Some(0) {
                    return x;
                }
                if let Some(k) = cy {
                    let n = self.nodes[x as usize];
                    if n.op == Op::Add {
                        if let Some(k2) = self.cv(n.a[1]) {
                            let kk = self.c(k.wrapping_add(k2), w);
                            return self.b(Op::Add, n.a[0], kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if x == y {
                    return self.c(0, w);
                }
                if let Some(k) = cy {
                    let kk = self.c(k.wrapping_neg(), w);
                    return self.b(Op::Add, x, kk);
                }
            }
            Op::Mul => {
                if cy == Some(0) {
                    return y;
                }
                if cy == Some(1) {
                    return x;
                }
                if let Some(k) = cy {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.b(Op::Shl, x, s);
                    }
                }
            }
            Op::UDiv => {
                if cy == Some(1) {
                    return x;
                }
                if let Some(k) = cy {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.b(Op::LShr, x, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cy {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.b(Op::And, x, s);
                    }
                    if self.umax(x, 6) < k && k > 0 {
                        return x;
                    }
                }
            }
            Op::And => {
                if cy == Some(0) {
                    return y;
                }
                if cy == Some(m) || x == y {
                    return x;
                }
                if w == 1 && cy.is_none() {
                    // (x == k) /\ cmp(x, k') is decided by the first conjunct
                    for (p, q) in [(x, y), (y, x)] {
                        let n = self.nodes[p as usize];
                        if n.op == Op::Eq {
                            if let Some(k) = self.cv(n.a[1]) {
                                let kc = n.a[1];
                                let o = self.nodes[q as usize];
                                if matches!(o.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) && (o.a[0] == n.a[0] || o.a[1] == n.a[0]) {
                                    let l = if o.a[0] == n.a[0] { kc } else { o.a[0] };
                                    let r = if o.a[1] == n.a[0] { kc } else { o.a[1] };
                                    if let (Some(a), Some(b)) = (self.cv(l), self.cv(r)) {
                                        let _ = k;
                                        return if bin(o.op, a, b, self.w(l)) == 1 { p } else { self.c(0, 1) };
                                    }
                                }
                            }
                        }
                    }
                    // x /\ not x
                    for (p, q) in [(x, y), (y, x)] {
                        let n = self.nodes[p as usize];
                        if n.op == Op::Xor && n.a[0] == q && self.cv(n.a[1]) == Some(1) {
                            return self.c(0, 1);
                        }
                    }
                }
                if let Some(k) = cy {
                    let n = self.nodes[x as usize];
                    if k.wrapping_add(1).is_power_of_two() && self.umax(x, 6) <= k {
                        return x;
                    }
                    if n.op == Op::And {
                        if let Some(k2) = self.cv(n.a[1]) {
                            let kk = self.c(k & k2, w);
                            return self.b(Op::And, n.a[0], kk);
                        }
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a[0]);
                        let kk = self.c(k & mask(iw), iw);
                        let i = self.b(Op::And, n.a[0], kk);
                        return self.zext(i, w);
                    }
                }
            }
            Op::Or => {
                if cy == Some(0) || x == y {
                    return x;
                }
                if cy == Some(m) {
                    return y;
                }
            }
            Op::Xor => {
                if cy == Some(0) {
                    return x;
                }
                if x == y {
                    return self.c(0, w);
                }
                if let Some(k) = cy {
                    let n = self.nodes[x as usize];
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cv(n.a[1]) {
                            let kk = self.c(k ^ k2, w);
                            return self.b(Op::Xor, n.a[0], kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        // push negation into comparisons
                        match n.op {
                            Op::Ult => return self.b(Op::Ule, n.a[1], n.a[0]),
                            Op::Ule => return self.b(Op::Ult, n.a[1], n.a[0]),
                            Op::Slt => return self.b(Op::Sle, n.a[1], n.a[0]),
                            Op::Sle => return self.b(Op::Slt, n.a[1], n.a[0]),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cy == Some(0) {
                    return x;
                }
                if let Some(k) = cy {
                    if k >= w as u128 && op != Op::AShr {
                        return self.c(0, w);
                    }
                    let n = self.nodes[x as usize];
                    if op == Op::LShr {
                        // (zext a) >> k, (concat hi lo) >> |lo|
                        if n.op == Op::Concat && self.w(n.a[1]) as u128 == k {
                            return self.zext(n.a[0], w);
                        }
                        if n.op == Op::ZExt && k >= self.w(n.a[0]) as u128 {
                            return self.c(0, w);
                        }
                        if n.op == Op::Shl && self.cv(n.a[1]) == Some(k) {
                            let mk = self.c(m >> k, w);
                            return self.b(Op::And, n.a[0], mk);
                        }
                    }
                }
            }
            Op::Eq => {
                if x == y {
                    return self.c(1, 1);
                }
                if w == 1 {
                    if let Some(k) = cy {
                        return if k == 1 { x } else { self.not(x) };
                    }
                }
                if let Some(k) = cy {
                    let n = self.nodes[x as usize];
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a[0]);
                            if k > mask(iw) {
                                return self.c(0, 1);
                            }
                            let kk = self.c(k, iw);
                            return self.b(Op::Eq, n.a[0], kk);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a[0]);
                            let t = k & mask(iw);
                            if sext(t, iw) as u128 & m != k {
                                return self.c(0, 1);
                            }
                            let kk = self.c(t, iw);
                            return self.b(Op::Eq, n.a[0], kk);
                        }
                        Op::Ite => {
                            let (t, e) = (self.cv(n.a[1]), self.cv(n.a[2]));
                            match (t, e) {
                                (Some(t), Some(e)) => {
                                    return if t == k && e == k {
                                        self.c(1, 1)
                                    } else if t == k {
                                        n.a[0]
                                    } else if e == k {
                                        self.not(n.a[0])
                                    } else {
                                        self.c(0, 1)
                                    };
                                }
                                (Some(t), None) if t == k => {
                                    let r = self.b(Op::Eq, n.a[2], y);
                                    return self.b(Op::Or, n.a[0], r);
                                }
                                (None, Some(e)) if e == k => {
                                    let r = self.b(Op::Eq, n.a[1], y);
                                    let nc = self.not(n.a[0]);
                                    return self.b(Op::Or, nc, r);
                                }
                                (Some(t), None) if t != k => {
                                    let nc = self.not(n.a[0]);
                                    let r = self.b(Op::Eq, n.a[2], y);
                                    return self.and1(nc, r);
                                }
                                (None, Some(e)) if e != k => {
                                    let r = self.b(Op::Eq, n.a[1], y);
                                    return self.and1(n.a[0], r);
                                }
                                _ => {}
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(n.a[1]) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.b(Op::Eq, n.a[0], kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(n.a[1]) {
                                let kk = self.c(k ^ k2, w);
                                return self.b(Op::Eq, n.a[0], kk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.a[1]);
                            let hw = self.w(n.a[0]);
                            let kl = self.c(k, lw);
                            let kh = self.c(k >> lw, hw);
                            let a = self.b(Op::Eq, n.a[0], kh);
                            let b = self.b(Op::Eq, n.a[1], kl);
                            return self.and1(a, b);
                        }
                        _ => {
                            if k > self.umax(x, 6) {
                                return self.c(0, 1);
                            }
                        }
                    }
                } else {
                    let (n, o) = (self.nodes[x as usize], self.nodes[y as usize]);
                    if n.op == Op::ZExt && o.op == Op::ZExt && self.w(n.a[0]) == self.w(o.a[0]) {
                        return self.b(Op::Eq, n.a[0], o.a[0]);
                    }
                }
            }
            Op::Ult => {
                if x == y || cy == Some(0) {
                    return self.c(0, 1);
                }
                if cx == Some(m) {
                    return self.c(0, 1);
                }
                if let Some(k) = cy {
                    if self.umax(x, 6) < k {
                        return self.c(1, 1);
                    }
                    if k == 1 {
                        let z = self.c(0, w);
                        return self.b(Op::Eq, x, z);
                    }
                }
                if let Some(k) = cx {
                    if self.umax(y, 6) <= k {
                        return self.c(0, 1);
                    }
                }
                if let Some(r) = self.cmp_zext(op, x, y) {
                    return r;
                }
            }
            Op::Ule => {
                if x == y || cx == Some(0) || cy == Some(m) {
                    return self.c(1, 1);
                }
                if let Some(k) = cy {
                    if self.umax(x, 6) <= k {
                        return self.c(1, 1);
                    }
                    if k == 0 {
                        return self.b(Op::Eq, x, y);
                    }
                }
                if let Some(k) = cx {
                    if self.umax(y, 6) < k {
                        return self.c(0, 1);
                    }
                }
                if let Some(r) = self.cmp_zext(op, x, y) {
                    return r;
                }
            }
            Op::Slt => {
                if x == y {
                    return self.c(0, 1);
                }
                if let Some(r) = self.scmp(op, x, y) {
                    return r;
                }
            }
            Op::Sle => {
                if x == y {
                    return self.c(1, 1);
                }
                if let Some(r) = self.scmp(op, x, y) {
                    return r;
                }
            }
            _ => {}
        }
        // distribute over an ite with constant leaves when the other side is constant
        if let Some(k) = cy {
            let n = self.nodes[x as usize];
            if n.op == Op::Ite && self.cv(n.a[1]).is_some() && self.cv(n.a[2]).is_some() {
                let (t, e) = (self.cv(n.a[1]).unwrap(), self.cv(n.a[2]).unwrap());
                let tv = self.c(bin(op, t, k, w), ow);
                let ev = self.c(bin(op, e, k, w), ow);
                return self.ite(n.a[0], tv, ev);
            }
        }
        self.intern(Node { op, w: ow, a: [x, y, NONE] })
    }
    fn nonneg(&self, e: Id) -> bool {
        let w = self.w(e);
        self.umax(e, 6) < (1u128 << (w - 1))
    }
    fn scmp(&mut self, op: Op, x: Id, y: Id) -> Option<Id> {
        if self.nonneg(x) && self.nonneg(y) {
            return Some(self.b(if op == Op::Slt { Op::Ult } else { Op::Ule }, x, y));
        }
        None
    }
    fn cmp_zext(&mut self, op: Op, x: Id, y: Id) -> Option<Id> {
        let (n, o) = (self.nodes[x as usize], self.nodes[y as usize]);
        if n.op == Op::ZExt && o.op == Op::ZExt && self.w(n.a[0]) == self.w(o.a[0]) {
            return Some(self.b(op, n.a[0], o.a[0]));
        }
        if n.op == Op::ZExt {
            if let Some(k) = self.cv(y) {
                let iw = self.w(n.a[0]);
                if k <= mask(iw) {
                    let kk = self.c(k, iw);
                    return Some(self.b(op, n.a[0], kk));
                }
            }
        }
        if o.op == Op::ZExt {
            if let Some(k) = self.cv(x) {
                let iw = self.w(o.a[0]);
                if k <= mask(iw) {
                    let kk = self.c(k, iw);
                    return Some(self.b(op, kk, o.a[0]));
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if let Some(v) = self.cv(c) {
            return if v == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.b(Op::Or, c, e),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and1(n, e);
                }
                (_, Some(0)) => return self.and1(c, t),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.b(Op::Or, n, t);
                }
                _ => {}
            }
        }
        self.intern(Node { op: Op::Ite, w, a: [c, t, e] })
    }
    pub fn zext(&mut self, x: Id, w: u32) -> Id {
        let iw = self.w(x);
        if iw == w {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.c(v, w);
        }
        let n = self.nodes[x as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a[0], w);
        }
        self.intern(Node { op: Op::ZExt, w, a: [x, NONE, NONE] })
    }
    pub fn sext(&mut self, x: Id, w: u32) -> Id {
        let iw = self.w(x);
        if iw == w {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.c(sext(v, iw) as u128, w);
        }
        if self.nonneg(x) {
            return self.zext(x, w);
        }
        self.intern(Node { op: Op::SExt, w, a: [x, NONE, NONE] })
    }
    pub fn extract(&mut self, x: Id, lo: u32, w: u32) -> Id {
        let iw = self.w(x);
        if lo == 0 && w == iw {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.c(v >> lo, w);
        }
        let n = self.nodes[x as usize];
        match n.op {
            Op::Extract(l2) => return self.extract(n.a[0], l2 + lo, w),
            Op::ZExt => {
                let sw = self.w(n.a[0]);
                if lo >= sw {
                    return self.c(0, w);
                }
                if lo + w <= sw {
                    return self.extract(n.a[0], lo, w);
                }
                let p = self.extract(n.a[0], lo, sw - lo);
                return self.zext(p, w);
            }
            Op::SExt => {
                let sw = self.w(n.a[0]);
                if lo + w <= sw {
                    return self.extract(n.a[0], lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.a[1]);
                if lo + w <= lw {
                    return self.extract(n.a[1], lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a[0], lo - lw, w);
                }
            }
            Op::Ite => {
                if self.cv(n.a[1]).is_some() || self.cv(n.a[2]).is_some() {
                    let t = self.extract(n.a[1], lo, w);
                    let e = self.extract(n.a[2], lo, w);
                    return self.ite(n.a[0], t, e);
                }
            }
            Op::And | Op::Or | Op::Xor if self.cv(n.a[1]).is_some() => {
                let a = self.extract(n.a[0], lo, w);
                let b = self.extract(n.a[1], lo, w);
                return self.b(n.op, a, b);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a[0], 0, w);
                let b = self.extract(n.a[1], 0, w);
                return self.b(n.op, a, b);
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.a[1]) {
                    if (lo as u128) >= k {
                        return self.extract(n.a[0], lo - k as u32, w);
                    }
                    if (lo + w) as u128 <= k {
                        return self.c(0, w);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = self.cv(n.a[1]) {
                    if (lo + w) as u128 + k <= iw as u128 {
                        return self.extract(n.a[0], lo + k as u32, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract(lo), w, a: [x, NONE, NONE] })
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if let (Some(a), Some(b)) = (self.cv(hi), self.cv(lo)) {
            return self.c((a << lw) | b, hw + lw);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, hw + lw);
        }
        let (n, o) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if let (Op::Extract(h), Op::Extract(l)) = (n.op, o.op) {
            if n.a[0] == o.a[0] && l + lw == h {
                return self.extract(n.a[0], l, hw + lw);
            }
        }
        self.intern(Node { op: Op::Concat, w: hw + lw, a: [hi, lo, NONE] })
    }
    /// Evaluate under a total assignment (missing variables read as 0).
    pub fn eval(&self, e: Id, model: &[u128], memo: &mut HashMap<Id, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const(v) => return v,
            Op::Var(k) => return model.get(k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a[0], model, memo) == 1 {
                    self.eval(n.a[1], model, memo)
                } else {
                    self.eval(n.a[2], model, memo)
                }
            }
            Op::ZExt => self.eval(n.a[0], model, memo),
            Op::SExt => sext(self.eval(n.a[0], model, memo), self.w(n.a[0])) as u128 & mask(n.w),
            Op::Extract(lo) => (self.eval(n.a[0], model, memo) >> lo) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.a[1]);
                (self.eval(n.a[0], model, memo) << lw) | self.eval(n.a[1], model, memo)
            }
            op => {
                let x = self.eval(n.a[0], model, memo);
                let y = self.eval(n.a[1], model, memo);
                bin(op, x, y, self.w(n.a[0]))
            }
        };
        memo.insert(e, v);
        v
    }
    /// Replace pinned variables by their values and re-simplify.
    pub fn subst(&mut self, e: Id, pins: &HashMap<Id, u128>, bits: &[u64; 4], memo: &mut HashMap<Id, Id>) -> Id {
        let v = self.vars_of[e as usize];
        if (0..4).all(|i| v[i] & bits[i] == 0) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const(_) => e,
            Op::Var(_) => match pins.get(&e) {
                Some(&k) => self.c(k, n.w),
                None => e,
            },
            Op::Ite => {
                let c = self.subst(n.a[0], pins, bits, memo);
                match self.cv(c) {
                    Some(1) => self.subst(n.a[1], pins, bits, memo),
                    Some(_) => self.subst(n.a[2], pins, bits, memo),
                    None => {
                        let t = self.subst(n.a[1], pins, bits, memo);
                        let f = self.subst(n.a[2], pins, bits, memo);
                        self.ite(c, t, f)
                    }
                }
            }
            Op::ZExt => {
                let x = self.subst(n.a[0], pins, bits, memo);
                self.zext(x, n.w)
            }
            Op::SExt => {
                let x = self.subst(n.a[0], pins, bits, memo);
                self.sext(x, n.w)
            }
            Op::Extract(lo) => {
                let x = self.subst(n.a[0], pins, bits, memo);
                self.extract(x, lo, n.w)
            }
            Op::Concat => {
                let x = self.subst(n.a[0], pins, bits, memo);
                let y = self.subst(n.a[1], pins, bits, memo);
                self.concat(x, y)
            }
            op => {
                let x = self.subst(n.a[0], pins, bits, memo);
                let y = self.subst(n.a[1], pins, bits, memo);
                self.b(op, x, y)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn smt_sort(&self, e: Id) -> String {
        let w = self.w(e);
        if w == 1 {
            "Bool".into()
        } else {
            format!("(_ BitVec {})", w)
        }
    }
    /// Width-1 terms are SMT Bools, everything else bit-vectors.
    pub fn smt_ref(&self, i: Id) -> String {
        let n = &self.nodes[i as usize];
        match n.op {
            Op::Const(v) if n.w == 1 => if v == 1 { "true".into() } else { "false".into() },
            Op::Const(v) => format!("(_ bv{} {})", v, n.w),
            Op::Var(k) => format!("v{}", k),
            _ => format!("e{}", i),
        }
    }
    pub fn smt_def(&self, e: Id) -> String {
        let n = self.nodes[e as usize];
        let (a, b) = (n.a[0], n.a[1]);
        let r = |i: Id| self.smt_ref(i);
        // operand as a bit-vector even when one bit wide
        let bv = |i: Id| if self.w(i) == 1 { format!("(ite {} #b1 #b0)", self.smt_ref(i)) } else { self.smt_ref(i) };
        match n.op {
            Op::Const(_) | Op::Var(_) => r(e),
            Op::Eq => format!("(= {} {})", r(a), r(b)),
            Op::Ult => format!("(bvult {} {})", bv(a), bv(b)),
            Op::Ule => format!("(bvule {} {})", bv(a), bv(b)),
            Op::Slt => format!("(bvslt {} {})", bv(a), bv(b)),
            Op::Sle => format!("(bvsle {} {})", bv(a), bv(b)),
            Op::Ite => format!("(ite {} {} {})", r(a), r(b), r(n.a[2])),
            Op::Concat => format!("(concat {} {})", bv(a), bv(b)),
            Op::Extract(lo) => {
                let x = format!("((_ extract {} {}) {})", lo + n.w - 1, lo, bv(a));
                if n.w == 1 {
                    format!("(= {} #b1)", x)
                } else {
                    x
                }
            }
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - self.w(a), bv(a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - self.w(a), bv(a)),
            Op::And if n.w == 1 => format!("(and {} {})", r(a), r(b)),
            Op::Or if n.w == 1 => format!("(or {} {})", r(a), r(b)),
            Op::Xor if n.w == 1 && self.cv(b) == Some(1) => format!("(not {})", r(a)),
            Op::Xor if n.w == 1 => format!("(xor {} {})", r(a), r(b)),
            op => {
                let s = match op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::SDiv => "bvsdiv",
                    Op::URem => "bvurem",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    _ => unreachable!(),
                };
                let x = format!("({} {} {})", s, bv(a), bv(b));
                if n.w == 1 {
                    format!("(= {} #b1)", x)
                } else {
                    x
                }
            }
        }
    }
}
