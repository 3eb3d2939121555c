//! The symbolic executor: runs one harness entry of a post-LTO LLVM module over
//! symbolic inputs, forking at branches the solver finds undetermined.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP_BASE: u64 = 0x1_0000_0000;
const REDZONE: u64 = 64;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u64>, // empty, or one entry per byte: 0 = concrete, else (id << 8 | byte) + 1
    pub heap: bool,
    pub ro: bool,
}

pub struct Model {
    vals: Rc<Vec<u128>>,
    memo: RefCell<HashMap<Id, u128>>,
}
impl Model {
    fn new(vals: Rc<Vec<u128>>) -> Rc<Model> {
        Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) })
    }
    fn eval(&self, p: &Pool, e: Id) -> u128 {
        p.eval(e, &self.vals, &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
}

/// Where a thread other than the running one stands.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stand {
    Ready,
    /// waiting on a futex word
    Asleep(u64),
    /// the main thread, until all others are done
    Joining,
    Done,
}
#[derive(Clone)]
struct Thread {
    frames: Vec<Frame>,
    stand: Stand,
    skip: bool,
    spin: bool,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    /// empty until the harness starts a thread; the running thread's frames are in `frames`
    threads: Vec<Thread>,
    cur: usize,
    /// the scheduling decision before the current instruction has been made
    skip: bool,
    /// the last step ended by switching threads (then `skip` belongs to the new one)
    switched: bool,
    preempted: u32,
    preempt_bound: u32,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pc: Vec<Id>,
    known: HashMap<Id, bool>,
    conc: HashMap<Id, u128>,
    range: HashMap<Id, (u128, u128)>,
    pinned: HashMap<Id, u128>,
    pinbits: [u64; 4],
    bounded: Vec<Id>,
    model: Rc<Model>,
    inputs: Vec<Id>,
    cases: u32,
    exn: u64,
    steps: u64,
    tlskeys: Vec<u64>,
    checks: u64,
}

pub enum End {
    Done,
    Infeasible,
    Violation(String, String),
    Incomplete(String),
}
type R<T> = Result<T, End>;

pub struct Violation {
    pub kind: String,
    pub id: String,
    pub inputs: Vec<u128>,
    pub stack: Vec<String>,
    pub count: u64,
}

pub struct Opts {
    pub case: Option<u128>,
    pub max_paths: u64,
    pub max_steps: u64,
    pub time: f64,
    pub profile: bool,
    pub concrete: Option<Vec<u128>>,
    pub trace: bool,
}

pub struct Exec {
    m: Rc<Module>,
    pub pool: Pool,
    pub solver: Solver,
    work: Vec<State>,
    varmap: HashMap<(u32, u32), Id>,
    gobjs: BTreeMap<u64, Rc<Obj>>,
    pub opts: Opts,
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub obligations: u64,
    pub trivially: u64,
    pub interval: u64,
    pub pindec: u64,
    pub concretized: u64,
    pub violations: Vec<Violation>,
    pub samples: Vec<(Vec<u128>, u64)>,
    vkeys: HashMap<String, usize>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    visited: Vec<Vec<bool>>,
    pub prof: HashMap<String, u64>,
    hooks: Vec<u8>,
    start: Instant,
    pub max_inputs: usize,
    pub ext_seen: BTreeSet<String>,
    pub max_path_steps: u64,
}

fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(End::Incomplete(s.into()))
}

impl Exec {
    pub fn new(m: Rc<Module>, solver: Solver, opts: Opts) -> Exec {
        let mut gobjs = BTreeMap::new();
        for g in &m.globals {
            gobjs.insert(g.addr, Rc::new(Obj { size: g.size, data: g.init.clone(), sym: Vec::new(), heap: false, ro: g.constant }));
        }
        let n = m.nfuncs();
        let mut hooks = vec![0u8; n];
        for (i, nm) in m.fnames.iter().enumerate() {
            if nm.contains("9panicking12default_hook") {
                hooks[i] = 1;
            } else if nm.contains("rust_begin_unwind") || nm.contains("9panicking9panic_fmt") || nm.contains("9panicking18panic_nounwind") {
                hooks[i] = 2;
            } else if nm.contains("hashmap_random_keys") {
                hooks[i] = 3;
            }
        }
        Exec {
            visited: vec![Vec::new(); n],
            m,
            pool: Pool::new(),
            solver,
            work: Vec::new(),
            varmap: HashMap::new(),
            gobjs,
            opts,
            paths: 0,
            infeasible: 0,
            steps: 0,
            forks: 0,
            obligations: 0,
            trivially: 0,
            interval: 0,
            pindec: 0,
            concretized: 0,
            violations: Vec::new(),
            samples: Vec::new(),
            vkeys: HashMap::new(),
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            incomplete: BTreeMap::new(),
            prof: HashMap::new(),
            hooks,
            start: Instant::now(),
            max_inputs: 0,
            ext_seen: BTreeSet::new(),
            max_path_steps: 0,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let f = match self.m.by_name.get(entry) {
            Some(&f) => f,
            None => {
                self.incomplete.insert(format!("no such entry {}", entry), 1);
                return;
            }
        };
        let m = self.m.clone();
        let fun = m.func(f);
        let st = State {
            frames: vec![Frame { func: f as u32, block: 0, ip: 0, regs: vec![V::C(0); fun.nregs as usize], allocas: Vec::new() }],
            threads: Vec::new(),
            cur: 0,
            skip: false,
            switched: false,
            preempted: 0,
            preempt_bound: 0,
            mem: BTreeMap::new(),
            next: HEAP_BASE,
            pc: Vec::new(),
            known: HashMap::new(),
            conc: HashMap::new(),
            range: HashMap::new(),
            pinned: HashMap::new(),
            pinbits: [0; 4],
            bounded: Vec::new(),
            model: Model::new(Rc::new(Vec::new())),
            inputs: Vec::new(),
            cases: 0,
            exn: 0,
            steps: 0,
            tlskeys: Vec::new(),
            checks: 0,
        };
        self.mark(f as u32, 0, fun.blocks.len());
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run_path(&mut st);
            self.max_inputs = self.max_inputs.max(st.inputs.len());
            self.max_path_steps = self.max_path_steps.max(st.steps);
            match r {
                End::Done => {
                    self.paths += 1;
                    let i = st.inputs.len();
                    if self.violations.is_empty() && (self.paths & (self.paths - 1)) == 0 && self.samples.len() < 12 && i > 0 {
                        let model = st.model.clone();
                        let x = st.inputs.iter().map(|&e| model.eval(&self.pool, e)).collect();
                        self.samples.push((x, st.checks));
                    }
                }
                End::Infeasible => self.infeasible += 1,
                End::Violation(kind, id) => {
                    self.paths += 1;
                    let model = st.model.clone();
                    self.record(&st, &model, &kind, &id);
                    if kind == "hang" {
                        break;
                    }
                }
                End::Incomplete(s) => {
                    self.paths += 1;
                    let s = if self.incomplete.len() < 20 { format!("{} @ {}", s, self.stack(&st).join(" < ")) } else { s };
                    *self.incomplete.entry(s).or_insert(0) += 1;
                    if self.incomplete.values().sum::<u64>() > 50 {
                        *self.incomplete.entry("too many incomplete paths".into()).or_insert(0) += 1;
                        break;
                    }
                }
            }
            if self.paths + self.infeasible > self.opts.max_paths {
                *self.incomplete.entry("path limit".into()).or_insert(0) += self.work.len() as u64;
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.opts.time {
                *self.incomplete.entry("time limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
        }
    }

    fn record(&mut self, st: &State, model: &Rc<Model>, kind: &str, id: &str) {
        let stack = self.stack(st);
        let key = if kind == "check" { format!("check {}", id) } else { format!("{} {} {}", kind, id, stack.iter().find(|s| s.contains("src/") && !s.contains("/rustc/") && !s.contains("library/")).cloned().unwrap_or_default()) };
        if let Some(&i) = self.vkeys.get(&key) {
            self.violations[i].count += 1;
            return;
        }
        let inputs = st.inputs.iter().map(|&e| model.eval(&self.pool, e)).collect();
        self.vkeys.insert(key, self.violations.len());
        self.violations.push(Violation { kind: kind.into(), id: id.into(), inputs, stack, count: 1 });
    }

    fn mark(&mut self, f: u32, b: u32, n: usize) {
        let v = &mut self.visited[f as usize];
        if v.is_empty() {
            v.resize(n, false);
        }
        v[b as usize] = true;
    }

    fn loc(&self, d: u32) -> String {
        let m = &self.m;
        let Some(l) = m.dbg(d) else { return String::new() };
        let (name, file) = self.scope_name(l.scope);
        format!("{} ({}:{})", name, file, l.line)
    }
    fn scope_name(&self, mut s: u32) -> (String, String) {
        let m = &self.m;
        for _ in 0..64 {
            let Some(d) = m.dbg(s) else { break };
            match d.kind {
                2 => {
                    let file = m.dbg(d.file).map(|f| if f.name.starts_with('/') { f.name.clone() } else { format!("{}/{}", f.dir, f.name) }).unwrap_or_default();
                    let mut parts = vec![d.name.clone()];
                    let mut q = d.scope;
                    while let Some(n) = m.dbg(q) {
                        if n.kind != 5 || n.name.is_empty() {
                            break;
                        }
                        parts.push(n.name.clone());
                        q = n.scope;
                    }
                    parts.reverse();
                    return (parts.join("::"), file);
                }
                _ => s = d.scope,
            }
        }
        (String::new(), String::new())
    }
    /// Source functions and lines of executed blocks, keyed by file.
    pub fn coverage(&self) -> BTreeMap<String, (BTreeSet<String>, BTreeSet<u32>)> {
        let mut out: BTreeMap<String, (BTreeSet<String>, BTreeSet<u32>)> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for (fi, v) in self.visited.iter().enumerate() {
            if v.is_empty() {
                continue;
            }
            let f = self.m.func(fi);
            let mut ids = vec![];
            for (bi, &b) in v.iter().enumerate() {
                if b {
                    ids.extend(f.blocks[bi].ins.iter().map(|x| x.1));
                }
            }
            for mut id in ids {
                while id != 0 && seen.insert(id) {
                    let Some(d) = self.m.dbg(id) else { break };
                    let (n, file) = self.scope_name(d.scope);
                    if !n.is_empty() {
                        let e = out.entry(file).or_default();
                        e.0.insert(n);
                        e.1.insert(d.line);
                    }
                    id = d.inlined;
                }
            }
        }
        out
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut o = Vec::new();
        for fr in st.frames.iter().rev() {
            let f = self.m.func(fr.func as usize);
            let mut d = f.blocks[fr.block as usize].ins.get(fr.ip as usize).map(|x| x.1).unwrap_or(0);
            if d == 0 {
                o.push(f.name.to_string());
            }
            while d != 0 {
                o.push(self.loc(d));
                d = self.m.dbg(d).map(|x| x.inlined).unwrap_or(0);
            }
            if o.len() > 40 {
                break;
            }
        }
        o
    }

    // ---- symbolic decisions -------------------------------------------------
    /// Unsigned interval of `e` under the path's recorded bounds (sound, not exact).
    fn rng(&self, st: &State, e: Id, depth: u32) -> (u128, u128) {
        self.rng2(st, e, depth, false)
    }
    /// With `vo`, only bounds recorded on variables are used.
    fn rng2(&self, st: &State, e: Id, depth: u32, vo: bool) -> (u128, u128) {
        let n = self.pool.nodes[e as usize];
        let m = mask(n.w);
        let r = if vo && !matches!(n.op, Op::Var(_)) { (0, m) } else { st.range.get(&e).copied().unwrap_or((0, m)) };
        if depth == 0 {
            return r;
        }
        let s = match n.op {
            Op::Const(v) => (v, v),
            Op::ZExt => self.rng2(st, n.a[0], depth - 1, vo),
            Op::SExt => {
                let (l, h) = self.rng2(st, n.a[0], depth - 1, vo);
                if h < 1u128 << (self.pool.w(n.a[0]) - 1) {
                    (l, h)
                } else {
                    (0, m)
                }
            }
            Op::Extract(0) => {
                let (l, h) = self.rng2(st, n.a[0], depth - 1, vo);
                if h <= m {
                    (l, h)
                } else {
                    (0, m)
                }
            }
            Op::Add => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                let (c, d) = self.rng2(st, n.a[1], depth - 1, vo);
                match (a.checked_add(c), b.checked_add(d)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    (Some(l), Some(h)) if l > m && n.w < 127 && h <= 2 * m + 1 => (l - m - 1, h - m - 1),
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                let (c, d) = self.rng2(st, n.a[1], depth - 1, vo);
                if a >= d {
                    (a - d, b - c)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                let (c, d) = self.rng2(st, n.a[1], depth - 1, vo);
                match b.checked_mul(d) {
                    Some(h) if h <= m => (a * c, h),
                    _ => (0, m),
                }
            }
            Op::And => {
                let (_, b) = self.rng2(st, n.a[0], depth - 1, vo);
                let (_, d) = self.rng2(st, n.a[1], depth - 1, vo);
                (0, b.min(d))
            }
            Op::Shl => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                match self.pool.cv(n.a[1]) {
                    Some(k) if k < n.w as u128 && b <= m >> k => (a << k, b << k),
                    _ => (0, m),
                }
            }
            Op::LShr => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                match self.pool.cv(n.a[1]) {
                    Some(k) if k < n.w as u128 => (a >> k, b >> k),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = self.rng2(st, n.a[0], depth - 1, vo);
                match self.pool.cv(n.a[1]) {
                    Some(k) if k > 0 => (a / k, b / k),
                    _ => (0, m),
                }
            }
            Op::URem => match self.pool.cv(n.a[1]) {
                Some(k) if k > 0 => (0, k - 1),
                _ => (0, m),
            },
            Op::Ite => {
                let (a, b) = self.rng2(st, n.a[1], depth - 1, vo);
                let (c, d) = self.rng2(st, n.a[2], depth - 1, vo);
                (a.min(c), b.max(d))
            }
            _ => (0, m),
        };
        (s.0.max(r.0), s.1.min(r.1))
    }
    fn interval_decide(&self, st: &State, c: Id, vo: bool) -> Option<bool> {
        let n = self.pool.nodes[c as usize];
        match n.op {
            Op::Eq | Op::Ult | Op::Ule => {
                let (a, b) = self.rng2(st, n.a[0], 8, vo);
                let (x, y) = self.rng2(st, n.a[1], 8, vo);
                if a > b || x > y {
                    return None;
                }
                match n.op {
                    Op::Eq if b < x || y < a => Some(false),
                    Op::Eq if a == b && x == y && a == x => Some(true),
                    Op::Ult if b < x => Some(true),
                    Op::Ult if a >= y => Some(false),
                    Op::Ule if b <= x => Some(true),
                    Op::Ule if a > y => Some(false),
                    _ => None,
                }
            }
            Op::Xor if n.w == 1 && self.pool.cv(n.a[1]) == Some(1) => self.interval_decide(st, n.a[0], vo).map(|b| !b),
            Op::And if n.w == 1 => match (self.interval_decide(st, n.a[0], vo), self.interval_decide(st, n.a[1], vo)) {
                (Some(true), Some(true)) => Some(true),
                (Some(false), _) | (_, Some(false)) => Some(false),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.interval_decide(st, n.a[0], vo), self.interval_decide(st, n.a[1], vo)) {
                (Some(false), Some(false)) => Some(false),
                (Some(true), _) | (_, Some(true)) => Some(true),
                _ => None,
            },
            _ => None,
        }
    }
    fn bound(&mut self, st: &mut State, e: Id, lo: u128, hi: u128) {
        let w = self.pool.w(e);
        if !st.range.contains_key(&e) && matches!(self.pool.nodes[e as usize].op, Op::Var(_)) {
            st.bounded.push(e);
        }
        let r = st.range.entry(e).or_insert((0, mask(w)));
        r.0 = r.0.max(lo);
        r.1 = r.1.min(hi);
        let r = *r;
        if r.0 == r.1 {
            if let Op::Var(k) = self.pool.nodes[e as usize].op {
                if k < 255 {
                    st.pinned.insert(e, r.0);
                    st.pinbits[k as usize / 64] |= 1 << (k % 64);
                }
            }
            st.conc.insert(e, r.0);
        }
        // bounds on zext(x) are bounds on x
        let n = self.pool.nodes[e as usize];
        if n.op == Op::ZExt {
            self.bound(st, n.a[0], r.0, r.1.min(mask(self.pool.w(n.a[0]))));
        }
        if n.op == Op::Add {
            if let Some(k) = self.pool.cv(n.a[1]) {
                // x + k in [l,h] without wrap-around of the interval
                let m = mask(w);
                let (l, h) = (r.0.wrapping_sub(k) & m, r.1.wrapping_sub(k) & m);
                if l <= h && !(st.range.get(&n.a[0]).map_or(false, |q| q.0 >= l && q.1 <= h)) {
                    self.bound(st, n.a[0], l, h);
                }
            }
        }
    }
    /// Record a constraint that now holds on the path.
    fn learn(&mut self, st: &mut State, c: Id, holds: bool) {
        st.known.insert(c, holds);
        let n = self.pool.nodes[c as usize];
        let (a, b) = (n.a[0], n.a[1]);
        match n.op {
            Op::Var(_) => {
                let v = holds as u128;
                self.bound(st, c, v, v)
            }
            Op::Xor if n.w == 1 && self.pool.cv(b) == Some(1) => self.learn(st, a, !holds),
            Op::And if n.w == 1 && holds => {
                self.learn(st, a, true);
                self.learn(st, b, true);
            }
            Op::Or if n.w == 1 && !holds => {
                self.learn(st, a, false);
                self.learn(st, b, false);
            }
            Op::Eq => {
                if let Some(k) = self.pool.cv(b) {
                    if holds {
                        self.bound(st, a, k, k);
                    } else {
                        let (l, h) = self.rng(st, a, 8);
                        if l == k && l < h {
                            self.bound(st, a, l + 1, h);
                        } else if h == k && l < h {
                            self.bound(st, a, l, h - 1);
                        }
                    }
                }
            }
            Op::Ult | Op::Ule => {
                let strict = (n.op == Op::Ult) == holds; // a<b, or not(a<=b) i.e. b<a
                let (x, y) = if holds { (a, b) } else { (b, a) }; // x (<|<=) y
                let (xl, _) = self.rng(st, x, 8);
                let (_, yh) = self.rng(st, y, 8);
                let s = strict as u128;
                if self.pool.cv(x).is_none() && yh >= s {
                    self.bound(st, x, 0, yh - s);
                }
                if self.pool.cv(y).is_none() && xl.checked_add(s).is_some() {
                    let m = mask(self.pool.w(y));
                    if xl + s <= m {
                        self.bound(st, y, xl + s, m);
                    }
                }
            }
            _ => {}
        }
    }
    fn all_pinned(&self, st: &State, e: Id) -> bool {
        let v = self.pool.vars_of[e as usize];
        (0..4).all(|i| v[i] & !st.pinbits[i] == 0)
    }
    fn decide(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(v) = self.pool.cv(c) {
            return Ok(v == 1);
        }
        let n = self.pool.nodes[c as usize];
        if n.op == Op::Xor && self.pool.cv(n.a[1]) == Some(1) {
            return Ok(!self.decide(st, n.a[0])?);
        }
        if let Some(&b) = st.known.get(&c) {
            return Ok(b);
        }
        if self.all_pinned(st, c) {
            self.pindec += 1;
            return Ok(st.model.eval(&self.pool, c) == 1);
        }
        if let Some(b) = self.interval_decide(st, c, false) {
            self.interval += 1;
            st.known.insert(c, b);
            return Ok(b);
        }
        let m = st.model.eval(&self.pool, c) == 1;
        let nc = self.pool.not(c);
        let (here, other) = if m { (c, nc) } else { (nc, c) };
        match self.ask(st, other)? {
            None => {
                self.learn(st, c, m);
                Ok(m)
            }
            Some(mv) => {
                self.forks += 1;
                if self.opts.profile {
                    let k = self.stack(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
                    *self.prof.entry(k).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.pc.push(other);
                self.learn(&mut o, c, !m);
                o.model = mv;
                self.work.push(o);
                st.pc.push(here);
                self.learn(st, c, m);
                Ok(m)
            }
        }
    }
    /// Satisfiability of path /\ c, with pinned variables substituted away.
    fn ask(&mut self, st: &State, c: Id) -> R<Option<Rc<Model>>> {
        let mut memo = HashMap::new();
        let mut pc = Vec::with_capacity(st.pc.len());
        for &k in &st.pc {
            if self.all_pinned(st, k) {
                continue;
            }
            let v = self.pool.vars_of[k as usize];
            let k = if (0..4).any(|i| v[i] & st.pinbits[i] != 0) { self.pool.subst(k, &st.pinned, &st.pinbits, &mut memo) } else { k };
            // constraints implied by the variables' bounds are represented by those bounds
            if self.pool.cv(k).is_none() && self.interval_decide(st, k, true) != Some(true) {
                pc.push(k);
            }
        }
        let c = self.pool.subst(c, &st.pinned, &st.pinbits, &mut memo);
        if let Some(v) = self.pool.cv(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        for v in &st.bounded {
            if let (Some(&(l, h)), false) = (st.range.get(v), st.pinned.contains_key(v)) {
                let w = self.pool.w(*v);
                if l > 0 {
                    let k = self.pool.c(l, w);
                    pc.push(self.pool.b(Op::Ule, k, *v));
                }
                if h < mask(w) {
                    let k = self.pool.c(h, w);
                    pc.push(self.pool.b(Op::Ule, *v, k));
                }
            }
        }
        match self.solver.check(&self.pool, &pc, c, &st.model.vals) {
            Err(e) => inc(format!("solver: {}", e)),
            Ok(Sat::Unsat) => Ok(None),
            Ok(Sat::Sat(mv)) => Ok(Some(Model::new(mv))),
        }
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::A(_) => inc("aggregate where scalar expected"),
            V::S(e) => {
                if let Some(&x) = st.conc.get(e) {
                    return Ok(x);
                }
                if self.all_pinned(st, *e) {
                    return Ok(st.model.eval(&self.pool, *e));
                }
                self.concretized += 1;
                loop {
                    let x = st.model.eval(&self.pool, *e);
                    let k = self.pool.c(x, w);
                    let c = self.pool.b(Op::Eq, *e, k);
                    if self.decide(st, c)? {
                        st.conc.insert(*e, x);
                        return Ok(x);
                    }
                }
            }
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(x) => self.pool.c(*x, w),
            V::S(e) => {
                debug_assert_eq!(self.pool.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate in scalar expression"),
        }
    }
    fn mk(&self, e: Id) -> V {
        match self.pool.cv(e) {
            Some(v) => V::C(v),
            None => V::S(e),
        }
    }
    fn bin(&mut self, op: Op, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(bin(op, *x, *y, w));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.pool.b(op, x, y);
        self.mk(r)
    }
    fn zx(&mut self, a: &V, from: u32, to: u32) -> V {
        match a {
            V::C(_) => a.clone(),
            _ => {
                let x = self.ex(a, from);
                let r = self.pool.zext(x, to);
                self.mk(r)
            }
        }
    }
    fn sx(&mut self, a: &V, from: u32, to: u32) -> V {
        match a {
            V::C(x) => V::C(sext(*x, from) as u128 & mask(to)),
            _ => {
                let x = self.ex(a, from);
                let r = self.pool.sext(x, to);
                self.mk(r)
            }
        }
    }
    fn tr(&mut self, a: &V, from: u32, lo: u32, to: u32) -> V {
        match a {
            V::C(x) => V::C((x >> lo) & mask(to)),
            _ => {
                let x = self.ex(a, from);
                let r = self.pool.extract(x, lo, to);
                self.mk(r)
            }
        }
    }
    fn ite(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        match c {
            V::C(x) => {
                if *x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            _ => {
                let (c, x, y) = (self.ex(c, 1), self.ex(a, w), self.ex(b, w));
                let r = self.pool.ite(c, x, y);
                self.mk(r)
            }
        }
    }
    fn icmp(&mut self, p: Pred, a: &V, b: &V, w: u32) -> V {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(bin(op, *x, *y, w) ^ neg as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut r = self.pool.b(op, x, y);
        if neg {
            r = self.pool.not(r);
        }
        self.mk(r)
    }

    // ---- memory -------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + REDZONE;
        st.mem.insert(a, Rc::new(Obj { size, data: vec![0; size as usize], sym: Vec::new(), heap, ro: false }));
        a
    }
    fn find<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if addr >= GLOBAL_BASE && addr < HEAP_BASE {
            let (b, o) = self.gobjs.range(..=addr).next_back()?;
            if let Some(o2) = st.mem.get(b) {
                return Some((*b, o2));
            }
            return Some((*b, o));
        }
        if addr < HEAP_BASE {
            return None;
        }
        st.mem.range(..=addr).next_back().map(|(b, o)| (*b, o))
    }
    fn bad<T>(&self, what: &str, addr: u64, n: u64) -> R<T> {
        Err(End::Violation("memory".into(), format!("{} of {} bytes outside a live object (address {:#x})", what, n, addr)))
    }
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64, what: &str) -> R<(&'a Rc<Obj>, usize)> {
        match self.find(st, addr) {
            Some((b, o)) if addr - b + n <= o.size => Ok((o, (addr - b) as usize)),
            _ => self.bad(what, addr, n),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (b, off) = match self.find(st, addr) {
            Some((b, o)) if addr - b + n <= o.size => {
                if o.ro {
                    return self.bad("write to read-only", addr, n);
                }
                (b, addr - b)
            }
            _ => return self.bad("write", addr, n),
        };
        if b < HEAP_BASE && !st.mem.contains_key(&b) {
            st.mem.insert(b, self.gobjs[&b].clone());
        }
        let o = st.mem.get_mut(&b).unwrap();
        Ok((Rc::make_mut(o), off as usize))
    }
    fn read_int(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (bytes, concrete): (Vec<u64>, u128) = {
            let (o, off) = self.obj(st, addr, n, "read")?;
            let mut c: u128 = 0;
            for k in (0..n as usize).rev() {
                c = (c << 8) | o.data[off + k] as u128;
            }
            if o.sym.is_empty() || o.sym[off..off + n as usize].iter().all(|&x| x == 0) {
                return Ok(V::C(c & mask(w)));
            }
            (o.sym[off..off + n as usize].to_vec(), c)
        };
        // one whole expression?
        let full = if bytes[0] != 0 {
            let id = ((bytes[0] - 1) >> 8) as Id;
            let lo = ((bytes[0] - 1) & 255) as u32;
            if (0..n as usize).all(|k| bytes[k] == (((id as u64) << 8) | (lo as u64 + k as u64)) + 1) {
                Some(self.pool.extract(id, 8 * lo, 8 * n as u32))
            } else {
                None
            }
        } else {
            None
        };
        let e = match full {
            Some(e) => e,
            None => {
                let mut acc: Option<Id> = None;
                for k in 0..n as usize {
                    let b = if bytes[k] == 0 {
                        self.pool.c((concrete >> (8 * k)) & 255, 8)
                    } else {
                        let id = ((bytes[k] - 1) >> 8) as Id;
                        let lo = ((bytes[k] - 1) & 255) as u32;
                        self.pool.extract(id, 8 * lo, 8)
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.pool.concat(b, a),
                    });
                }
                acc.unwrap()
            }
        };
        let e = if w != 8 * n as u32 { self.pool.extract(e, 0, w) } else { e };
        Ok(self.mk(e))
    }
    fn write_int(&mut self, st: &mut State, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(x) => {
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for k in 0..n {
                    o.data[off + k] = (x >> (8 * k)) as u8;
                }
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym[off + k] = 0;
                    }
                }
            }
            V::S(e) => {
                let e = if w != 8 * n as u32 { self.pool.zext(*e, 8 * n as u32) } else { *e };
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                for k in 0..n {
                    o.sym[off + k] = (((e as u64) << 8) | k as u64) + 1;
                }
            }
            V::A(_) => panic!("write_int aggregate"),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        Ok(match ty {
            Ty::Int(w) => self.read_int(st, addr, *w)?,
            Ty::Ptr | Ty::F64 => self.read_int(st, addr, 64)?,
            Ty::F32 => self.read_int(st, addr, 32)?,
            Ty::Vec(n, t) => {
                let w = t.bits();
                if w % 8 == 0 {
                    let mut o = Vec::new();
                    for i in 0..*n as u64 {
                        o.push(self.read_int(st, addr + i * (w / 8) as u64, w)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    let v = self.read_int(st, addr, n * w)?;
                    self.unflat(&v, ty)
                }
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut o = Vec::new();
                for i in 0..*n {
                    o.push(self.load(st, addr + i * s, t)?);
                }
                V::A(Rc::new(o))
            }
            Ty::Struct(fs, _) => {
                let mut o = Vec::new();
                for (i, f) in fs.iter().enumerate() {
                    o.push(self.load(st, addr + ty.field_off(i), f)?);
                }
                V::A(Rc::new(o))
            }
            _ => return inc(format!("load of {:?}", ty)),
        })
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => self.write_int(st, addr, v, *w),
            Ty::Ptr | Ty::F64 => self.write_int(st, addr, v, 64),
            Ty::F32 => self.write_int(st, addr, v, 32),
            Ty::Vec(n, t) => {
                let w = t.bits();
                if w % 8 == 0 {
                    if let V::A(vs) = v {
                        for i in 0..*n as usize {
                            self.write_int(st, addr + i as u64 * (w / 8) as u64, &vs[i], w)?;
                        }
                    }
                    Ok(())
                } else {
                    let x = self.flat(v, ty);
                    self.write_int(st, addr, &x, n * w)
                }
            }
            Ty::Arr(_, t) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, addr + i as u64 * t.size(), t, x)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                if let V::A(vs) = v {
                    for (i, f) in fs.iter().enumerate() {
                        self.store(st, addr + ty.field_off(i), f, &vs[i])?;
                    }
                }
                Ok(())
            }
            _ => inc(format!("store of {:?}", ty)),
        }
    }
    /// Scalar bits of a vector (width <= 128).
    fn flat(&mut self, v: &V, ty: &Ty) -> V {
        match (v, ty) {
            (V::A(vs), Ty::Vec(_, t)) => {
                let w = t.bits();
                if vs.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() {
                        if let V::C(x) = x {
                            r |= x << (w * i as u32);
                        }
                    }
                    return V::C(r);
                }
                let mut acc: Option<Id> = None;
                for x in vs.iter() {
                    let b = self.ex(x, w);
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.pool.concat(b, a),
                    });
                }
                self.mk(acc.unwrap())
            }
            _ => v.clone(),
        }
    }
    fn unflat(&mut self, v: &V, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let o = (0..*n).map(|i| self.tr(v, n * w, w * i, w)).collect();
                V::A(Rc::new(o))
            }
            _ => v.clone(),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = {
            let (o, off) = self.obj(st, s, n, "read")?;
            let e = off + n as usize;
            let sym = if o.sym.is_empty() || o.sym[off..e].iter().all(|&x| x == 0) { Vec::new() } else { o.sym[off..e].to_vec() };
            (o.data[off..e].to_vec(), sym)
        };
        let (o, off) = self.obj_mut(st, d, n)?;
        let e = off + n as usize;
        o.data[off..e].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[off..e].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            o.sym[off..e].fill(0);
        }
        Ok(())
    }
    /// Integer load through a symbolic address: an ite over the offsets of the one
    /// object it can point into; otherwise the address is enumerated.
    fn load_at(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        let e = match p {
            V::C(a) => return self.load(st, *a as u64, ty),
            V::S(e) => *e,
            _ => return inc("aggregate address"),
        };
        if let (Ty::Int(w), false) = (ty, st.conc.contains_key(&e)) {
            let n = ((*w + 7) / 8) as u64;
            let a = st.model.eval(&self.pool, e) as u64;
            if let Some((b, size)) = self.find(st, a).map(|(b, o)| (b, o.size)) {
                if a - b + n <= size && size <= 512 {
                    let lo = self.pool.c(b as u128, 64);
                    let rel = self.pool.b(Op::Sub, e, lo);
                    let lim = self.pool.c((size - n) as u128, 64);
                    let inb = self.pool.b(Op::Ule, rel, lim);
                    if self.decide(st, inb)? {
                        // alignment known?
                        let mut stride = n.next_power_of_two();
                        while stride > 1 {
                            let mk = self.pool.c((stride - 1) as u128, 64);
                            let low = self.pool.b(Op::And, rel, mk);
                            let z = self.pool.c((a - b) as u128 & (stride - 1) as u128, 64);
                            let al = self.pool.b(Op::Eq, low, z);
                            let nal = self.pool.not(al);
                            let yes = match self.pool.cv(nal) {
                                Some(v) => v == 0,
                                None => self.ask(st, nal)?.is_none(),
                            };
                            if yes {
                                break;
                            }
                            stride /= 2;
                        }
                        let mut off = (a - b) % stride;
                        let mut offs = Vec::new();
                        while off + n <= size {
                            offs.push(off);
                            off += stride;
                        }
                        let mut acc: Option<Id> = None;
                        for &o in offs.iter().rev() {
                            let v = self.read_int(st, b + o, *w)?;
                            let v = self.ex(&v, *w);
                            acc = Some(match acc {
                                None => v,
                                Some(r) => {
                                    let k = self.pool.c(o as u128, 64);
                                    let c = self.pool.b(Op::Eq, rel, k);
                                    self.pool.ite(c, v, r)
                                }
                            });
                        }
                        return Ok(self.mk(acc.unwrap()));
                    }
                }
            }
        }
        let a = self.concretize(st, p, 64)?;
        self.load(st, a as u64, ty)
    }

    // ---- interpreter --------------------------------------------------------
    #[inline]
    fn get(st: &State, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn jump(&mut self, m: &Module, st: &mut State, t: u32) {
        let fi = st.frames.last().unwrap().func;
        let f = m.func(fi as usize);
        let from = st.frames.last().unwrap().block;
        let b = &f.blocks[t as usize];
        let mut vals = Vec::with_capacity(b.phis.len());
        for p in &b.phis {
            vals.push((p.d, Self::get(st, &p.inc[&from])));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.block = t;
        fr.ip = 0;
        self.mark(fi, t, f.blocks.len());
    }
    fn run_path(&mut self, st: &mut State) -> End {
        let m = self.m.clone();
        loop {
            if !st.threads.is_empty() && !st.skip {
                self.schedule(&m, st);
            }
            match self.step(&m, st) {
                Ok(()) => {
                    if !std::mem::take(&mut st.switched) {
                        st.skip = false;
                    }
                }
                Err(e) => return e,
            }
            st.steps += 1;
            self.steps += 1;
            if self.steps & 0x3fff == 0 && self.start.elapsed().as_secs_f64() > self.opts.time {
                return End::Incomplete("time limit inside a path".into());
            }
            if st.steps > self.opts.max_steps {
                return End::Violation("hang".into(), "instruction limit on a path".into());
            }
            if st.frames.len() > 20_000 {
                return End::Violation("hang".into(), "call depth limit on a path".into());
            }
        }
    }
    fn ready(&self, st: &State) -> Vec<usize> {
        let all = st.threads.iter().enumerate().all(|(i, t)| i == 0 || i == st.cur || t.stand == Stand::Done);
        let all = all && (st.cur == 0 || st.threads[st.cur].stand == Stand::Done);
        (0..st.threads.len())
            .filter(|&i| i != st.cur && (st.threads[i].stand == Stand::Ready || (st.threads[i].stand == Stand::Joining && all)))
            .collect()
    }
    fn switch(&self, st: &mut State, to: usize) {
        let from = st.cur;
        st.threads[from].frames = std::mem::take(&mut st.frames);
        st.threads[from].skip = st.skip;
        st.frames = std::mem::take(&mut st.threads[to].frames);
        st.skip = st.threads[to].skip;
        if st.threads[to].stand == Stand::Joining {
            st.threads[to].stand = Stand::Ready;
        }
        st.cur = to;
        st.switched = true;
    }
    /// Before an atomic access or a spin of the running thread: every other thread may run first.
    fn schedule(&mut self, m: &Module, st: &mut State) {
        let fr = st.frames.last().unwrap();
        let f = m.func(fr.func as usize);
        let (point, pause) = match &f.blocks[fr.block as usize].ins[fr.ip as usize].0 {
            I::Load { at, .. } | I::Store { at, .. } => (*at, false),
            I::CmpXchg { .. } | I::Rmw { .. } => (true, false),
            I::Call { f: Callee::Ext(n), .. } => (false, n.contains("x86.sse2.pause")),
            _ => return,
        };
        if !point && !pause {
            return;
        }
        if matches!(&f.blocks[fr.block as usize].ins[fr.ip as usize].0, I::CmpXchg { .. } | I::Rmw { .. }) {
            st.threads[st.cur].spin = false;
        }
        st.skip = true;
        let cur = st.cur;
        if pause {
            // a spin either waits for the others or is spun out, not both mixed
            if !st.threads[cur].spin {
                for t in self.ready(st) {
                    let mut o = st.clone();
                    self.switch(&mut o, t);
                    o.switched = false;
                    self.forks += 1;
                    self.work.push(o);
                }
                st.threads[cur].spin = true;
            }
        } else if !st.threads[cur].spin && st.preempted < st.preempt_bound {
            for t in self.ready(st) {
                let mut o = st.clone();
                o.preempted += 1;
                self.switch(&mut o, t);
                o.switched = false;
                self.forks += 1;
                self.work.push(o);
            }
        }
    }
    /// The running thread cannot go on: some other one runs.
    fn give_up(&mut self, st: &mut State) -> R<()> {
        let r = self.ready(st);
        let Some((&first, rest)) = r.split_first() else {
            return Err(End::Violation("hang".into(), "deadlock: every thread waits".into()));
        };
        for &t in rest {
            let mut o = st.clone();
            self.switch(&mut o, t);
            o.switched = false;
            self.forks += 1;
            self.work.push(o);
        }
        self.switch(st, first);
        Ok(())
    }
    fn lanes(v: &V) -> usize {
        match v {
            V::A(x) => x.len(),
            _ => 0,
        }
    }
    fn lane(v: &V, i: usize) -> V {
        match v {
            V::A(x) => x[i].clone(),
            o => o.clone(),
        }
    }
    fn step(&mut self, m: &Module, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = m.func(fr.func as usize);
        let ins = &f.blocks[fr.block as usize].ins[fr.ip as usize].0;
        match ins {
            I::Nop => {}
            I::Alloca { d, size, n, align } => {
                let k = Self::get(st, n);
                let k = self.concretize(st, &k, 64)? as u64;
                let a = self.alloc(st, size * k, *align, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                Self::set(st, *d, V::C(a as u128));
            }
            I::Load { d, ty, p, .. } => {
                let p = Self::get(st, p);
                let v = self.load_at(st, &p, ty)?;
                Self::set(st, *d, v);
            }
            I::Store { ty, v, p, .. } => {
                let p = Self::get(st, p);
                let a = self.concretize(st, &p, 64)?;
                let v = Self::get(st, v);
                self.store(st, a as u64, ty, &v)?;
            }
            I::Gep { d, base, off, idx } => {
                let mut a = Self::get(st, base);
                if *off != 0 {
                    a = self.bin(Op::Add, &a, &V::C(*off as u64 as u128), 64);
                }
                for (o, w, s) in idx {
                    let i = Self::get(st, o);
                    if matches!(i, V::A(_)) || matches!(a, V::A(_)) {
                        return inc("vector gep");
                    }
                    let i = self.sx(&i, *w, 64);
                    let i = self.bin(Op::Mul, &i, &V::C(*s as u64 as u128), 64);
                    a = self.bin(Op::Add, &a, &i, 64);
                }
                Self::set(st, *d, a);
            }
            I::Bin { d, op, ty, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = if let Ty::Vec(n, t) = ty {
                    let w = t.bits();
                    let o = (0..*n as usize).map(|i| self.bin(*op, &Self::lane(&x, i), &Self::lane(&y, i), w)).collect();
                    V::A(Rc::new(o))
                } else {
                    self.bin(*op, &x, &y, ty.bits())
                };
                Self::set(st, *d, v);
            }
            I::FBin { d, op, ty, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                if matches!(ty, Ty::Vec(..)) {
                    return inc("vector float arithmetic");
                }
                let (x, y) = (self.concretize(st, &x, ty.bits())?, self.concretize(st, &y, ty.bits())?);
                let r = if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    let r = match &**op {
                        "fadd" => x + y,
                        "fsub" => x - y,
                        "fmul" => x * y,
                        "fdiv" => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match &**op {
                        "fadd" => x + y,
                        "fsub" => x - y,
                        "fmul" => x * y,
                        "fdiv" => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                };
                Self::set(st, *d, V::C(r));
            }
            I::FNeg { d, ty, a } => {
                let x = Self::get(st, a);
                let w = ty.bits();
                let r = self.bin(Op::Xor, &x, &V::C(1u128 << (w - 1)), w);
                Self::set(st, *d, r);
            }
            I::Icmp { d, p, ty, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = if let Ty::Vec(n, t) = ty {
                    let w = t.bits();
                    let o = (0..*n as usize).map(|i| self.icmp(*p, &Self::lane(&x, i), &Self::lane(&y, i), w)).collect();
                    V::A(Rc::new(o))
                } else {
                    self.icmp(*p, &x, &y, ty.bits())
                };
                Self::set(st, *d, v);
            }
            I::Fcmp { d, p, ty, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                if matches!(ty, Ty::Vec(..)) {
                    return inc("vector float comparison");
                }
                let (x, y) = (self.concretize(st, &x, ty.bits())?, self.concretize(st, &y, ty.bits())?);
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match &**p {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *d, V::C(r as u128));
            }
            I::Cast { d, k, from, to, a } => {
                let x = Self::get(st, a);
                let v = self.cast(st, *k, from, to, &x)?;
                Self::set(st, *d, v);
            }
            I::Select { d, cty, ty, c, a, b } => {
                let c = Self::get(st, c);
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = if let Ty::Vec(n, _) = cty {
                    let w = ty.elem(0).bits();
                    let o = (0..*n as usize).map(|i| self.ite(&Self::lane(&c, i), &Self::lane(&x, i), &Self::lane(&y, i), w)).collect();
                    V::A(Rc::new(o))
                } else if let V::C(k) = c {
                    if k & 1 == 1 {
                        x
                    } else {
                        y
                    }
                } else if matches!(ty, Ty::Int(_)) {
                    self.ite(&c, &x, &y, ty.bits())
                } else {
                    let e = self.ex(&c, 1);
                    if self.decide(st, e)? {
                        x
                    } else {
                        y
                    }
                };
                Self::set(st, *d, v);
            }
            I::Copy { d, a } => {
                let x = Self::get(st, a);
                Self::set(st, *d, x);
            }
            I::ExtractV { d, a, idx } => {
                let mut x = Self::get(st, a);
                for &i in idx {
                    x = match &x {
                        V::A(v) => v[i as usize].clone(),
                        _ => return inc("extractvalue of scalar"),
                    };
                }
                Self::set(st, *d, x);
            }
            I::InsertV { d, ty: _, a, v, idx } => {
                let x = Self::get(st, a);
                let v = Self::get(st, v);
                fn ins(x: &V, v: V, idx: &[u32]) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    match x {
                        V::A(o) => {
                            let mut o = (**o).clone();
                            o[idx[0] as usize] = ins(&o[idx[0] as usize], v, &idx[1..]);
                            V::A(Rc::new(o))
                        }
                        _ => panic!("insertvalue into scalar"),
                    }
                }
                let r = ins(&x, v, idx);
                Self::set(st, *d, r);
            }
            I::ExtractE { d, a, i } => {
                let x = Self::get(st, a);
                let i = Self::get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let v = Self::lane(&x, i as usize);
                Self::set(st, *d, v);
            }
            I::InsertE { d, ty: _, a, v, i } => {
                let x = Self::get(st, a);
                let i = Self::get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let v = Self::get(st, v);
                if let V::A(o) = x {
                    let mut o = (*o).clone();
                    o[i as usize] = v;
                    Self::set(st, *d, V::A(Rc::new(o)));
                }
            }
            I::Shuffle { d, a, b, n, m } => {
                let (x, y, k) = (Self::get(st, a), Self::get(st, b), Self::get(st, m));
                let mut o = Vec::new();
                for i in 0..Self::lanes(&k) {
                    if let V::C(j) = Self::lane(&k, i) {
                        let j = j as usize;
                        o.push(if j < *n as usize { Self::lane(&x, j) } else { Self::lane(&y, j - *n as usize) });
                    }
                }
                Self::set(st, *d, V::A(Rc::new(o)));
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let p = Self::get(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let (c, n) = (Self::get(st, c), Self::get(st, n));
                let cur = self.load(st, a, ty)?;
                let e = self.icmp(Pred::Eq, &cur, &c, ty.bits());
                let ok = match e {
                    V::C(x) => x == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store(st, a, ty, &n)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![cur, V::C(ok as u128)])));
            }
            I::Rmw { d, op, ty, p, v } => {
                let p = Self::get(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let v = Self::get(st, v);
                let w = ty.bits();
                let cur = self.load(st, a, ty)?;
                let nv = match &**op {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, &cur, &v, w),
                    "sub" => self.bin(Op::Sub, &cur, &v, w),
                    "and" => self.bin(Op::And, &cur, &v, w),
                    "or" => self.bin(Op::Or, &cur, &v, w),
                    "xor" => self.bin(Op::Xor, &cur, &v, w),
                    "umax" | "umin" | "max" | "min" => {
                        let p = match &**op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, &cur, &v, w);
                        self.ite(&c, &cur, &v, w)
                    }
                    o => return inc(format!("atomicrmw {}", o)),
                };
                self.store(st, a, ty, &nv)?;
                Self::set(st, *d, cur);
            }
            I::LandingPad { .. } => return inc("landingpad reached without unwinding"),
            I::Resume { a } => {
                let x = Self::get(st, a);
                let e = match &x {
                    V::A(v) => v[0].clone(),
                    _ => V::C(0),
                };
                let e = self.concretize(st, &e, 64)? as u64;
                self.pop(st);
                return self.unwind(m, st, e);
            }
            I::Br { t } => {
                self.jump(m, st, *t);
                return Ok(());
            }
            I::CondBr { c, t, f } => {
                let c = Self::get(st, c);
                let b = match c {
                    V::C(x) => x & 1 == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => return inc("branch on aggregate"),
                };
                self.jump(m, st, if b { *t } else { *f });
                return Ok(());
            }
            I::Switch { ty, v, def, cases } => {
                let v = Self::get(st, v);
                let w = ty.bits();
                let t = match v {
                    V::C(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                    V::S(e) => {
                        let cur = st.model.eval(&self.pool, e);
                        let mut order: Vec<usize> = (0..cases.len()).collect();
                        if let Some(i) = cases.iter().position(|c| c.0 == cur) {
                            order.swap(0, i);
                        }
                        let mut t = *def;
                        for i in order {
                            let k = self.pool.c(cases[i].0, w);
                            let c = self.pool.b(Op::Eq, e, k);
                            if self.decide(st, c)? {
                                t = cases[i].1;
                                break;
                            }
                        }
                        t
                    }
                    _ => return inc("switch on aggregate"),
                };
                self.jump(m, st, t);
                return Ok(());
            }
            I::Ret { v } => {
                let v = v.as_ref().map(|o| Self::get(st, o));
                self.pop(st);
                if st.frames.is_empty() {
                    if st.cur == 0 {
                        return Err(End::Done);
                    }
                    let c = st.cur;
                    st.threads[c].stand = Stand::Done;
                    return self.give_up(st);
                }
                return self.finish_call(m, st, v);
            }
            I::Unreachable => return Err(End::Violation("unreachable".into(), "unreachable instruction executed".into())),
            I::Unsupported(s) => return inc(s.to_string()),
            I::Call { f: callee, args, ret, .. } => {
                let target = match callee {
                    Callee::Fn(i) => Ok(*i),
                    Callee::Ext(n) => Err(n.clone()),
                    Callee::Asm => {
                        return if *ret == Ty::Void { self.finish_call(m, st, None) } else { inc("inline asm with result") };
                    }
                    Callee::Ind(o) => {
                        let p = Self::get(st, o);
                        let a = self.concretize(st, &p, 64)? as u64;
                        match m.addr_fn.get(&a) {
                            Some(&i) => Ok(i),
                            None => match m.addr_ext.get(&a) {
                                Some(n) => Err(n.clone()),
                                None => return Err(End::Violation("memory".into(), format!("call through a bad function pointer {:#x}", a))),
                            },
                        }
                    }
                };
                let vals: Vec<V> = args.iter().map(|(_, o)| Self::get(st, o)).collect();
                match target {
                    Ok(i) => {
                        match self.hooks[i] {
                            1 => return self.finish_call(m, st, None),
                            2 => {
                                if !self.has_catch(m, st) {
                                    return Err(End::Violation("panic".into(), "panic with no catch_unwind frame".into()));
                                }
                            }
                            3 => return self.finish_call(m, st, Some(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)])))),
                            _ => {}
                        }
                        let g = m.func(i);
                        if vals.len() < g.params.len() {
                            return inc("argument count");
                        }
                        let mut regs = vec![V::C(0); g.nregs as usize];
                        for (k, &p) in g.params.iter().enumerate() {
                            regs[p as usize] = vals[k].clone();
                        }
                        if st.frames.len() > 4000 {
                            return inc("call depth limit");
                        }
                        if self.opts.trace {
                            eprintln!("{}call {} {:?}", " ".repeat(st.frames.len()), g.name, vals);
                        }
                        st.frames.push(Frame { func: i as u32, block: 0, ip: 0, regs, allocas: Vec::new() });
                        self.mark(i as u32, 0, g.blocks.len());
                        return Ok(());
                    }
                    Err(n) => return self.external(m, st, &n, args, vals, ret),
                }
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn pop(&mut self, st: &mut State) {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.remove(&a);
        }
    }
    fn finish_call(&mut self, m: &Module, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = m.func(fr.func as usize);
        match &f.blocks[fr.block as usize].ins[fr.ip as usize].0 {
            I::Call { d, normal, .. } => {
                if let (Some(d), Some(v)) = (d, v) {
                    Self::set(st, *d, v);
                }
                match normal {
                    Some(t) => {
                        let t = *t;
                        self.jump(m, st, t)
                    }
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                Ok(())
            }
            _ => inc("return to a non-call"),
        }
    }
    fn has_catch(&self, m: &Module, st: &State) -> bool {
        st.frames.iter().any(|fr| {
            let f = m.func(fr.func as usize);
            if let I::Call { unwind: Some(u), .. } = &f.blocks[fr.block as usize].ins[fr.ip as usize].0 {
                return f.blocks[*u as usize].ins.iter().any(|i| matches!(i.0, I::LandingPad { clauses, .. } if clauses > 0));
            }
            false
        })
    }
    /// Continue unwinding exception `e` from the current top frame.
    fn unwind(&mut self, m: &Module, st: &mut State, e: u64) -> R<()> {
        st.exn = e;
        loop {
            let Some(fr) = st.frames.last() else {
                return Err(End::Violation("panic".into(), "unwound out of the harness".into()));
            };
            let f = m.func(fr.func as usize);
            if let I::Call { unwind: Some(u), .. } = &f.blocks[fr.block as usize].ins[fr.ip as usize].0 {
                let u = *u;
                self.jump(m, st, u);
                let b = &f.blocks[u as usize];
                let (k, d, c) = b
                    .ins
                    .iter()
                    .enumerate()
                    .find_map(|(k, i)| match &i.0 {
                        I::LandingPad { d, clauses, .. } => Some((k, *d, *clauses)),
                        _ => None,
                    })
                    .expect("landing pad");
                Self::set(st, d, V::A(Rc::new(vec![V::C(e as u128), V::C(if c > 0 { 1 } else { 0 })])));
                st.frames.last_mut().unwrap().ip = k as u32 + 1;
                return Ok(());
            }
            self.pop(st);
        }
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(n, a), Ty::Vec(n2, b)) = (from, to) {
            if n == n2 && k != Cast::Bit {
                let mut o = Vec::new();
                for i in 0..*n as usize {
                    o.push(self.cast(st, k, a, b, &Self::lane(x, i))?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            Cast::Trunc => self.tr(x, fw, 0, tw),
            Cast::ZExt => self.zx(x, fw, tw),
            Cast::SExt => self.sx(x, fw, tw),
            Cast::Bit => {
                if fw > 128 {
                    if from == to {
                        return Ok(x.clone());
                    }
                    return inc("wide bitcast");
                }
                let y = self.flat(x, from);
                self.unflat(&y, to)
            }
            Cast::FpToInt(s) => {
                let v = self.concretize(st, x, fw)?;
                let v = if *from == Ty::F64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                V::C(if s { (v as i128) as u128 & mask(tw) } else { (v as u128) & mask(tw) })
            }
            Cast::IntToFp(s) => {
                let v = self.concretize(st, x, fw)?;
                let r = if *to == Ty::F64 {
                    (if s { sext(v, fw) as f64 } else { v as f64 }).to_bits() as u128
                } else {
                    (if s { sext(v, fw) as f32 } else { v as f32 }).to_bits() as u128
                };
                V::C(r)
            }
            Cast::FpExt => {
                let v = self.concretize(st, x, fw)?;
                V::C((f32::from_bits(v as u32) as f64).to_bits() as u128)
            }
            Cast::FpTrunc => {
                let v = self.concretize(st, x, fw)?;
                V::C((f64::from_bits(v as u64) as f32).to_bits() as u128)
            }
        })
    }
    fn bytes(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut o = Vec::new();
        for i in 0..n {
            let b = self.read_int(st, p + i, 8)?;
            o.push(self.concretize(st, &b, 8)? as u8);
        }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    fn input(&mut self, st: &mut State, w: u32) -> V {
        let i = st.inputs.len() as u32;
        let e = match self.varmap.get(&(i, w)) {
            Some(&e) => e,
            None => {
                let e = self.pool.var(&format!("in{}", i), w);
                self.varmap.insert((i, w), e);
                e
            }
        };
        st.inputs.push(e);
        if let Some(c) = &self.opts.concrete {
            let x = c.get(i as usize).copied().unwrap_or(0) & mask(w);
            let k = self.pool.c(x, w);
            let q = self.pool.b(Op::Eq, e, k);
            st.pc.push(q);
            self.learn(st, q, true);
            let mut v = (*st.model.vals).clone();
            if let Op::Var(k) = self.pool.nodes[e as usize].op {
                if v.len() <= k as usize {
                    v.resize(k as usize + 1, 0);
                }
                v[k as usize] = x;
            }
            st.model = Model::new(Rc::new(v));
            return V::C(x);
        }
        V::S(e)
    }
    fn as_bool(&mut self, v: &V, w: u32) -> V {
        if w == 1 {
            v.clone()
        } else {
            self.icmp(Pred::Ne, v, &V::C(0), w)
        }
    }

    fn external(&mut self, m: &Module, st: &mut State, n: &str, args: &[(Ty, Opnd)], a: Vec<V>, ret: &Ty) -> R<()> {
        if let Some(r) = n.strip_prefix("llvm.") {
            let v = self.intrinsic(st, r, args, &a, ret)?;
            return self.finish_call(m, st, v);
        }
        if !self.ext_seen.contains(n) {
            self.ext_seen.insert(n.to_string());
        }
        let w0 = args.first().map(|x| x.0.bits()).unwrap_or(0);
        let v: Option<V> = match n {
            "sx_bits" => {
                let w = self.concretize(st, &a[0], w0)? as u32;
                let x = self.input(st, w);
                Some(if w < 64 { self.zx(&x, w, 64) } else { x })
            }
            "sx_spawn" => {
                if st.cur != 0 {
                    return inc("thread started by a thread");
                }
                if st.threads.is_empty() {
                    st.threads.push(Thread { frames: Vec::new(), stand: Stand::Ready, skip: false, spin: false });
                }
                let f = self.concretize(st, &a[0], 64)? as u64;
                st.preempt_bound = self.concretize(st, &a[2], 32)? as u32;
                let Some(&i) = m.addr_fn.get(&f) else { return inc("thread function") };
                let g = m.func(i);
                let mut regs = vec![V::C(0); g.nregs as usize];
                regs[g.params[0] as usize] = a[1].clone();
                let fr = Frame { func: i as u32, block: 0, ip: 0, regs, allocas: Vec::new() };
                self.mark(i as u32, 0, g.blocks.len());
                st.threads.push(Thread { frames: vec![fr], stand: Stand::Ready, skip: false, spin: false });
                None
            }
            "sx_join" => {
                self.finish_call(m, st, None)?;
                if st.threads.iter().skip(1).all(|t| t.stand == Stand::Done) {
                    return Ok(());
                }
                st.threads[0].stand = Stand::Joining;
                self.give_up(st)?;
                return Ok(());
            }
            "sx_case" => {
                let lim = self.concretize(st, &a[0], w0)?;
                let x = self.input(st, 64);
                st.cases += 1;
                let x = match (&x, self.opts.case, st.cases) {
                    (V::S(e), Some(k), 1) => {
                        let kk = self.pool.c(k, 64);
                        let c = self.pool.b(Op::Eq, *e, kk);
                        st.pc.push(c);
                        self.learn(st, c, true);
                        let mut v = (*st.model.vals).clone();
                        if let Op::Var(i) = self.pool.nodes[*e as usize].op {
                            if v.len() <= i as usize {
                                v.resize(i as usize + 1, 0);
                            }
                            v[i as usize] = k;
                        }
                        st.model = Model::new(Rc::new(v));
                        V::C(k)
                    }
                    _ => x,
                };
                let c = self.icmp(Pred::Ult, &x, &V::C(lim), 64);
                self.assume(st, &c)?;
                // concretize without touching `inputs`: the value is enumerated
                let r = self.concretize_nofork_side(st, &x)?;
                Some(V::C(r))
            }
            "sx_assume" => {
                let c = self.as_bool(&a[0], w0);
                self.assume(st, &c)?;
                None
            }
            "sx_concrete" => {
                let v = self.concretize(st, &a[0], w0)?;
                Some(V::C(v))
            }
            "sx_check" => {
                let p = self.concretize(st, &a[1], 64)? as u64;
                let l = self.concretize(st, &a[2], 64)? as u64;
                let id = self.bytes(st, p, l)?;
                let c = self.as_bool(&a[0], w0);
                *self.checks.entry(id.clone()).or_insert(0) += 1;
                self.obligations += 1;
                st.checks += 1;
                match c {
                    V::C(x) => {
                        self.trivially += 1;
                        if x & 1 == 0 {
                            let model = st.model.clone();
                            self.record(st, &model, "check", &id);
                            return Err(End::Done);
                        }
                    }
                    V::S(e) => {
                        let ne = self.pool.not(e);
                        match self.ask(st, ne)? {
                            None => {}
                            Some(model) => {
                                self.record(st, &model, "check", &id);
                                self.assume(st, &V::S(e))?;
                            }
                        }
                    }
                    _ => return inc("check of aggregate"),
                }
                None
            }
            "sx_cover" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let l = self.concretize(st, &a[1], 64)? as u64;
                let id = self.bytes(st, p, l)?;
                *self.covers.entry(id).or_insert(0) += 1;
                None
            }
            "malloc" => {
                let s = self.concretize(st, &a[0], 64)? as u64;
                if s > 1 << 28 {
                    return inc("huge allocation");
                }
                Some(V::C(self.alloc(st, s, 16, true) as u128))
            }
            "calloc" => {
                let s = self.concretize(st, &a[0], 64)? as u64;
                let t = self.concretize(st, &a[1], 64)? as u64;
                Some(V::C(self.alloc(st, s * t, 16, true) as u128))
            }
            "posix_memalign" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let al = self.concretize(st, &a[1], 64)? as u64;
                let s = self.concretize(st, &a[2], 64)? as u64;
                let q = self.alloc(st, s, al, true);
                self.write_int(st, p, &V::C(q as u128), 64)?;
                Some(V::C(0))
            }
            "aligned_alloc" | "memalign" => {
                let al = self.concretize(st, &a[0], 64)? as u64;
                let s = self.concretize(st, &a[1], 64)? as u64;
                Some(V::C(self.alloc(st, s, al, true) as u128))
            }
            "realloc" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let s = self.concretize(st, &a[1], 64)? as u64;
                if p == 0 {
                    let q = self.alloc(st, s, 16, true);
                    return self.finish_call(m, st, Some(V::C(q as u128)));
                }
                let old = match st.mem.get(&p) {
                    Some(o) if o.heap => o.size,
                    _ => return self.bad("realloc", p, s),
                };
                let q = self.alloc(st, s, 16, true);
                self.memcpy(st, q, p, old.min(s))?;
                st.mem.remove(&p);
                Some(V::C(q as u128))
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.heap => {
                            st.mem.remove(&p);
                        }
                        _ => return self.bad("free", p, 0),
                    }
                }
                None
            }
            "memcmp" | "bcmp" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let q = self.concretize(st, &a[1], 64)? as u64;
                let l = self.concretize(st, &a[2], 64)? as u64;
                let mut acc = V::C(0);
                let one = V::C(1);
                let minus = V::C(mask(32));
                for i in (0..l).rev() {
                    let x = self.read_int(st, p + i, 8)?;
                    let y = self.read_int(st, q + i, 8)?;
                    let e = self.icmp(Pred::Eq, &x, &y, 8);
                    let r = if n == "bcmp" {
                        one.clone()
                    } else {
                        let lt = self.icmp(Pred::Ult, &x, &y, 8);
                        self.ite(&lt, &minus, &one, 32)
                    };
                    acc = self.ite(&e, &acc, &r, 32);
                }
                Some(acc)
            }
            "strlen" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let mut k = 0;
                loop {
                    let b = self.read_int(st, p + k, 8)?;
                    if self.concretize(st, &b, 8)? == 0 {
                        break;
                    }
                    k += 1;
                }
                Some(V::C(k as u128))
            }
            "memcpy" | "memmove" => {
                let d = self.concretize(st, &a[0], 64)? as u64;
                let s = self.concretize(st, &a[1], 64)? as u64;
                let l = self.concretize(st, &a[2], 64)? as u64;
                self.memcpy(st, d, s, l)?;
                Some(V::C(d as u128))
            }
            "write" => Some(a[2].clone()),
            "writev" => {
                // report everything written
                let p = self.concretize(st, &a[1], 64)? as u64;
                let c = self.concretize(st, &a[2], 32)? as u64;
                let mut t = V::C(0);
                for i in 0..c {
                    let l = self.read_int(st, p + 16 * i + 8, 64)?;
                    t = self.bin(Op::Add, &t, &l, 64);
                }
                Some(t)
            }
            "getenv" | "dlsym" => Some(V::C(0)),
            "__errno_location" => {
                let p = self.alloc(st, 4, 16, false);
                Some(V::C(p as u128))
            }
            "pthread_key_create" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                st.tlskeys.push(0);
                let k = st.tlskeys.len() as u128;
                self.write_int(st, p, &V::C(k), 32)?;
                Some(V::C(0))
            }
            "pthread_key_delete" => Some(V::C(0)),
            "pthread_setspecific" => {
                let k = self.concretize(st, &a[0], 32)? as usize;
                let v = self.concretize(st, &a[1], 64)? as u64;
                if k >= 1 && k <= st.tlskeys.len() {
                    st.tlskeys[k - 1] = v;
                }
                Some(V::C(0))
            }
            "pthread_getspecific" => {
                let k = self.concretize(st, &a[0], 32)? as usize;
                Some(V::C(st.tlskeys.get(k.wrapping_sub(1)).copied().unwrap_or(0) as u128))
            }
            "__cxa_thread_atexit_impl" | "__cxa_atexit" => Some(V::C(0)),
            "gettid" | "getpid" => Some(V::C(4242)),
            "getrandom" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let l = self.concretize(st, &a[1], 64)? as u64;
                for i in 0..l {
                    self.write_int(st, p + i, &V::C((i * 37 + 11) as u128 & 255), 8)?;
                }
                Some(V::C(l as u128))
            }
            "syscall" => {
                let k = self.concretize(st, &a[0], 64)?;
                match k {
                    202 if !st.threads.is_empty() => {
                        let p = self.concretize(st, &a[1], 64)? as u64;
                        let op = self.concretize(st, &a[2], 32)? & 0x7f;
                        let x = self.concretize(st, &a[3], 32)? & 0xffff_ffff;
                        match op {
                            0 | 9 => {
                                let now = self.read_int(st, p, 32)?;
                                let now = self.concretize(st, &now, 32)?;
                                if now != x {
                                    // EAGAIN; std looks at errno only for EINTR and ETIMEDOUT
                                    Some(V::C(u64::MAX as u128))
                                } else {
                                    self.finish_call(m, st, Some(V::C(0)))?;
                                    let c = st.cur;
                                    st.threads[c].stand = Stand::Asleep(p);
                                    st.threads[c].spin = false;
                                    st.skip = false;
                                    return self.give_up(st);
                                }
                            }
                            1 => {
                                let mut n = 0;
                                for t in st.threads.iter_mut() {
                                    if n < x && t.stand == Stand::Asleep(p) {
                                        t.stand = Stand::Ready;
                                        n += 1;
                                    }
                                }
                                Some(V::C(n))
                            }
                            o => return inc(format!("futex operation {}", o)),
                        }
                    }
                    202 => Some(V::C(0)),
                    186 => Some(V::C(4242)),
                    318 => {
                        let p = self.concretize(st, &a[1], 64)? as u64;
                        let l = self.concretize(st, &a[2], 64)? as u64;
                        for i in 0..l {
                            self.write_int(st, p + i, &V::C((i * 37 + 11) as u128 & 255), 8)?;
                        }
                        Some(V::C(l as u128))
                    }
                    k => return inc(format!("syscall {}", k)),
                }
            }
            "abort" => return Err(End::Violation("abort".into(), "abort called".into())),
            "_Unwind_RaiseException" => {
                let e = self.concretize(st, &a[0], 64)? as u64;
                if !self.has_catch(m, st) {
                    return Err(End::Violation("panic".into(), "panic with no catch_unwind frame".into()));
                }
                return self.unwind(m, st, e);
            }
            "_Unwind_DeleteException" => None,
            o => return inc(format!("external function {}", o)),
        };
        self.finish_call(m, st, v)
    }
    fn concretize_nofork_side(&mut self, st: &mut State, x: &V) -> R<u128> {
        // The forked sibling retries the `sx_case` instruction, which draws a fresh
        // input; undo that draw in every sibling created here.
        let before = self.work.len();
        let (ni, nc) = (st.inputs.len(), st.cases);
        let r = self.concretize(st, x, 64);
        for s in &mut self.work[before..] {
            s.inputs.truncate(ni - 1);
            s.cases = nc - 1;
        }
        r
    }
    fn assume(&mut self, st: &mut State, c: &V) -> R<()> {
        match c {
            V::C(x) => {
                if x & 1 == 1 {
                    Ok(())
                } else {
                    Err(End::Infeasible)
                }
            }
            V::S(e) => {
                let e = *e;
                if st.known.get(&e) == Some(&true) {
                    return Ok(());
                }
                if st.model.eval(&self.pool, e) != 1 {
                    match self.ask(st, e)? {
                        None => return Err(End::Infeasible),
                        Some(mv) => st.model = mv,
                    }
                }
                // conjunctions split so that slicing stays fine-grained
                let mut todo = vec![e];
                while let Some(x) = todo.pop() {
                    let n = self.pool.nodes[x as usize];
                    if n.op == Op::And {
                        todo.push(n.a[0]);
                        todo.push(n.a[1]);
                    } else if self.pool.cv(x).is_none() {
                        st.pc.push(x);
                        self.learn(st, x, true);
                    }
                }
                Ok(())
            }
            _ => inc("assume of aggregate"),
        }
    }
    fn map1(&mut self, ty: &Ty, x: &V, mut f: impl FnMut(&mut Self, &V, u32) -> R<V>) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let mut o = Vec::new();
            for i in 0..*n as usize {
                o.push(f(self, &Self::lane(x, i), w)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, x, ty.bits())
    }
    fn map2(&mut self, ty: &Ty, x: &V, y: &V, mut f: impl FnMut(&mut Self, &V, &V, u32) -> R<V>) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let mut o = Vec::new();
            for i in 0..*n as usize {
                o.push(f(self, &Self::lane(x, i), &Self::lane(y, i), w)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, x, y, ty.bits())
    }
    fn overflow(&mut self, op: &str, x: &V, y: &V, w: u32) -> R<(V, V)> {
        let signed = op.starts_with('s');
        let k = &op[1..];
        if let (V::C(a), V::C(b)) = (x, y) {
            let (r, o) = match (k, signed) {
                ("add", false) => {
                    let r = a.wrapping_add(*b) & mask(w);
                    (r, r < *a)
                }
                ("sub", false) => (a.wrapping_sub(*b) & mask(w), a < b),
                ("mul", false) => match a.checked_mul(*b) {
                    Some(p) => (p & mask(w), p > mask(w)),
                    None => (a.wrapping_mul(*b) & mask(w), true),
                },
                (_, _) => {
                    let (p, q) = (sext(*a, w), sext(*b, w));
                    let r = match k {
                        "add" => p.checked_add(q),
                        "sub" => p.checked_sub(q),
                        _ => p.checked_mul(q),
                    };
                    let wr = match k {
                        "add" => p.wrapping_add(q),
                        "sub" => p.wrapping_sub(q),
                        _ => p.wrapping_mul(q),
                    } as u128
                        & mask(w);
                    (wr, r.map_or(true, |r| sext(wr, w) != r))
                }
            };
            return Ok((V::C(r), V::C(o as u128)));
        }
        match (k, signed) {
            ("add", false) => {
                let r = self.bin(Op::Add, x, y, w);
                let o = self.icmp(Pred::Ult, &r, x, w);
                Ok((r, o))
            }
            ("sub", false) => {
                let r = self.bin(Op::Sub, x, y, w);
                let o = self.icmp(Pred::Ult, x, y, w);
                Ok((r, o))
            }
            _ => {
                let w2 = if k == "mul" { 2 * w } else { w + 1 };
                if w2 > 128 {
                    return inc("128-bit symbolic overflow arithmetic");
                }
                let op = match k {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let (a, b) = if signed { (self.sx(x, w, w2), self.sx(y, w, w2)) } else { (self.zx(x, w, w2), self.zx(y, w, w2)) };
                let p = self.bin(op, &a, &b, w2);
                let r = self.bin(op, x, y, w);
                let back = if signed { self.sx(&r, w, w2) } else { self.zx(&r, w, w2) };
                let o = self.icmp(Pred::Ne, &p, &back, w2);
                Ok((r, o))
            }
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Opnd)], a: &[V], ret: &Ty) -> R<Option<V>> {
        let head = n.split('.').next().unwrap();
        let ty = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let tb = ty.bits();
        Ok(match head {
            "lifetime" | "dbg" | "assume" | "experimental" | "donothing" | "var" | "invariant" | "prefetch" => {
                if n == "experimental.noalias.scope.decl" || head != "experimental" {
                    if *ret != Ty::Void {
                        Some(V::C(0))
                    } else {
                        None
                    }
                } else {
                    return inc(format!("intrinsic {}", n));
                }
            }
            "memcpy" | "memmove" => {
                let d = self.concretize(st, &a[0], 64)? as u64;
                let s = self.concretize(st, &a[1], 64)? as u64;
                let l = self.concretize(st, &a[2], args[2].0.bits())? as u64;
                self.memcpy(st, d, s, l)?;
                None
            }
            "memset" => {
                let d = self.concretize(st, &a[0], 64)? as u64;
                let l = self.concretize(st, &a[2], args[2].0.bits())? as u64;
                if l > 0 {
                    match &a[1] {
                        V::C(x) => {
                            let x = *x as u8;
                            let (o, off) = self.obj_mut(st, d, l)?;
                            o.data[off..off + l as usize].fill(x);
                            if !o.sym.is_empty() {
                                o.sym[off..off + l as usize].fill(0);
                            }
                        }
                        v => {
                            let v = v.clone();
                            for i in 0..l {
                                self.write_int(st, d + i, &v, 8)?;
                            }
                        }
                    }
                }
                None
            }
            "threadlocal" => Some(a[0].clone()),
            "expect" | "ssa" | "launder" | "strip" => Some(a[0].clone()),
            "is" => Some(V::C(0)),
            "trap" | "debugtrap" => return Err(End::Violation("abort".into(), "trap".into())),
            "x86" if n.contains("pause") => None,
            "eh" => Some(V::C(1)),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (x, y) = (&a[0], &a[1]);
                if n.contains(".with.overflow") {
                    if matches!(ty, Ty::Vec(..)) {
                        return inc("vector with.overflow");
                    }
                    let (r, o) = self.overflow(head, x, y, tb)?;
                    Some(V::A(Rc::new(vec![r, o])))
                } else if n.contains(".sat") {
                    let h = head.to_string();
                    Some(self.map2(&ty, x, y, |s, x, y, w| {
                        let (r, o) = s.overflow(&h, x, y, w)?;
                        let lim = match h.as_str() {
                            "uadd" => V::C(mask(w)),
                            "usub" => V::C(0),
                            _ => {
                                // sign of the true result is the sign of x on overflow
                                let neg = s.icmp(Pred::Slt, x, &V::C(0), w);
                                s.ite(&neg, &V::C(1u128 << (w - 1)), &V::C(mask(w - 1)), w)
                            }
                        };
                        Ok(s.ite(&o, &lim, &r, w))
                    })?)
                } else {
                    return inc(format!("intrinsic {}", n));
                }
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match head {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(self.map2(&ty, &a[0], &a[1], |s, x, y, w| {
                    let c = s.icmp(p, x, y, w);
                    Ok(s.ite(&c, x, y, w))
                })?)
            }
            "abs" => Some(self.map1(&ty, &a[0], |s, x, w| {
                let c = s.icmp(Pred::Slt, x, &V::C(0), w);
                let ng = s.bin(Op::Sub, &V::C(0), x, w);
                Ok(s.ite(&c, &ng, x, w))
            })?),
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let (lt, gt) = if head == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, &a[0], &a[1], tb);
                let g = self.icmp(gt, &a[0], &a[1], tb);
                let t = self.ite(&g, &V::C(1), &V::C(0), rw);
                Some(self.ite(&l, &V::C(mask(rw)), &t, rw))
            }
            "fshl" | "fshr" => {
                let w = tb;
                let k = self.concretize(st, &a[2], w)? % w as u128;
                let k = k as u32;
                if k == 0 {
                    return Ok(Some(if head == "fshl" { a[0].clone() } else { a[1].clone() }));
                }
                let (l, r) = if head == "fshl" { (k, w - k) } else { (w - k, k) };
                let hi = self.bin(Op::Shl, &a[0], &V::C(l as u128), w);
                let lo = self.bin(Op::LShr, &a[1], &V::C(r as u128), w);
                Some(self.bin(Op::Or, &hi, &lo, w))
            }
            "bswap" => {
                let nb = tb / 8;
                let mut acc = V::C(0);
                for i in 0..nb {
                    let b = self.tr(&a[0], tb, 8 * i, 8);
                    let b = self.zx(&b, 8, tb);
                    let b = self.bin(Op::Shl, &b, &V::C((8 * (nb - 1 - i)) as u128), tb);
                    acc = self.bin(Op::Or, &acc, &b, tb);
                }
                Some(acc)
            }
            "bitreverse" | "ctpop" | "ctlz" | "cttz" => {
                let h = head.to_string();
                Some(self.map1(&ty, &a[0], |s, x, w| {
                    if let V::C(v) = x {
                        let v = *v;
                        return Ok(V::C(match h.as_str() {
                            "ctpop" => v.count_ones() as u128,
                            "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
                            "cttz" => (v.trailing_zeros().min(w)) as u128,
                            _ => v.reverse_bits() >> (128 - w),
                        }));
                    }
                    let mut acc = match h.as_str() {
                        "ctpop" | "bitreverse" => V::C(0),
                        _ => V::C(w as u128),
                    };
                    for i in 0..w {
                        match h.as_str() {
                            "ctpop" => {
                                let b = s.tr(x, w, i, 1);
                                let b = s.zx(&b, 1, w);
                                acc = s.bin(Op::Add, &acc, &b, w);
                            }
                            "bitreverse" => {
                                let b = s.tr(x, w, i, 1);
                                let b = s.zx(&b, 1, w);
                                let b = s.bin(Op::Shl, &b, &V::C((w - 1 - i) as u128), w);
                                acc = s.bin(Op::Or, &acc, &b, w);
                            }
                            "ctlz" => {
                                let b = s.tr(x, w, i, 1);
                                acc = s.ite(&b, &V::C((w - 1 - i) as u128), &acc, w);
                            }
                            _ => {
                                let k = w - 1 - i;
                                let b = s.tr(x, w, k, 1);
                                acc = s.ite(&b, &V::C(k as u128), &acc, w);
                            }
                        }
                    }
                    Ok(acc)
                })?)
            }
            "vector" if n.starts_with("vector.reduce.") => {
                let k = n.split('.').nth(2).unwrap();
                let w = ty.elem(0).bits();
                let op = match k {
                    "or" => Op::Or,
                    "and" => Op::And,
                    "add" => Op::Add,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    _ => return inc(format!("intrinsic {}", n)),
                };
                let mut acc = Self::lane(&a[0], 0);
                for i in 1..Self::lanes(&a[0]) {
                    acc = self.bin(op, &acc, &Self::lane(&a[0], i), w);
                }
                Some(acc)
            }
            "fabs" => Some(self.bin(Op::And, &a[0], &V::C(mask(tb - 1)), tb)),
            "fptosi" | "fptoui" if n.contains(".sat") => {
                let v = self.concretize(st, &a[0], tb)?;
                let v = if ty == Ty::F64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let w = ret.bits();
                Some(V::C(if head == "fptoui" {
                    (v as u128).min(mask(w))
                } else {
                    let lim = (mask(w - 1)) as i128;
                    (v as i128).clamp(-lim - 1, lim) as u128 & mask(w)
                }))
            }
            _ => return inc(format!("intrinsic llvm.{}", n)),
        })
    }
}
