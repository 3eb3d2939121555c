//! SMT back end: one long-lived `z3` process spoken to in SMT-LIB 2, with constraint
//! independence slicing, a query cache and model reuse in front of it.
use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Sat {
    Sat(Rc<Vec<u128>>),
    Unsat,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    mark: Vec<u32>,
    epoch: u32,
    body: String,
    cache: HashMap<Vec<Id>, Option<Rc<Vec<u128>>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time: f64,
    pub max_query: f64,
    pub name: String,
    log: Option<std::fs::File>,
}

impl Solver {
    pub fn new(cmd: &str) -> Solver {
        let parts: Vec<&str> = cmd.split_whitespace().collect();
        let mut child = Command::new(parts[0])
            .args(&parts[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", cmd, e));
        let mut inp: ChildStdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        inp.write_all(b"(set-option :print-success false)\n").unwrap();
        Solver {
            child,
            inp,
            out,
            mark: Vec::new(),
            epoch: 0,
            body: String::new(),
            cache: HashMap::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            cache_hits: 0,
            model_hits: 0,
            time: 0.0,
            max_query: 0.0,
            name: cmd.to_string(),
            log: std::env::var("SYMX_LOG").ok().map(|p| std::fs::File::create(p).unwrap()),
        }
    }
    fn define(&mut self, p: &Pool, roots: &[Id], buf: &mut String) {
        if self.mark.len() < p.nodes.len() {
            self.mark.resize(p.nodes.len(), 0);
        }
        self.epoch += 1;
        let ep = self.epoch;
        let mut decls = String::new();
        let mut st: Vec<(Id, bool)> = roots.iter().rev().map(|&r| (r, false)).collect();
        while let Some((x, done)) = st.pop() {
            if self.mark[x as usize] == ep {
                continue;
            }
            let n = p.nodes[x as usize];
            match n.op {
                Op::Const(_) => {
                    self.mark[x as usize] = ep;
                    continue;
                }
                Op::Var(k) => {
                    self.mark[x as usize] = ep;
                    decls.push_str(&format!("(declare-const v{} {})\n", k, p.smt_sort(x)));
                    continue;
                }
                _ => {}
            }
            if done {
                self.mark[x as usize] = ep;
                self.body.push_str(&format!("(define-fun e{} () {} {})\n", x, p.smt_sort(x), p.smt_def(x)));
            } else {
                st.push((x, true));
                for &c in &n.a {
                    if c != u32::MAX && self.mark[c as usize] != ep {
                        st.push((c, false));
                    }
                }
            }
        }
        buf.push_str(&decls);
        buf.push_str(&self.body);
        self.body.clear();
    }
    fn overlap(a: &[u64; 4], b: &[u64; 4]) -> bool {
        (0..4).any(|i| a[i] & b[i] != 0)
    }
    /// Is `pc /\ c` satisfiable?  `base` is a model of `pc` (never of `c`).
    pub fn check(&mut self, p: &Pool, pc: &[Id], c: Id, base: &Rc<Vec<u128>>) -> Result<Sat, String> {
        // slice
        let mut vs = p.vars_of[c as usize];
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &k) in pc.iter().enumerate() {
                if !used[i] && Self::overlap(&vs, &p.vars_of[k as usize]) {
                    used[i] = true;
                    ch = true;
                    for j in 0..4 {
                        vs[j] |= p.vars_of[k as usize][j];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<Id> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        key.push(c);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(match r {
                None => Sat::Unsat,
                Some(m) => Sat::Sat(Self::merge(p, base, m, &vs)),
            });
        }
        // every query is a fresh, self-contained problem: z3 then uses its full
        // (non-incremental) QF_BV pipeline, which is far faster on these sizes
        let mut buf = String::from("(reset)\n(set-option :timeout 120000)\n(set-logic QF_BV)\n");
        self.define(p, &key, &mut buf);
        for &k in &key {
            buf.push_str(&format!("(assert {})\n", p.smt_ref(k)));
        }
        buf.push_str("(check-sat)\n");
        let t = Instant::now();
        self.inp.write_all(buf.as_bytes()).unwrap();
        self.inp.flush().unwrap();
        if let Some(l) = &mut self.log {
            l.write_all(buf.as_bytes()).unwrap();
        }
        let r = self.line();
        self.queries += 1;
        let res = if r == "unsat" {
            self.unsat += 1;
            None
        } else if r == "sat" {
            self.sat += 1;
            let ids: Vec<usize> = (0..p.vars.len()).filter(|&i| self.mark[p.vars[i].2 as usize] == self.epoch).collect();
            let mut q = String::from("(get-value (");
            for &i in &ids {
                q.push_str(&format!("v{} ", i));
            }
            q.push_str("))\n");
            self.inp.write_all(q.as_bytes()).unwrap();
            self.inp.flush().unwrap();
            let txt = self.sexpr();
            let mut m = vec![0u128; p.vars.len()];
            parse_values(&txt, &mut m);
            Some(Rc::new(m))
        } else {
            return Err(format!("answered {:?}", r));
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        self.cache.insert(key, res.clone());
        Ok(match res {
            None => Sat::Unsat,
            Some(m) => Sat::Sat(Self::merge(p, base, &m, &vs)),
        })
    }
    fn merge(p: &Pool, base: &[u128], m: &[u128], vs: &[u64; 4]) -> Rc<Vec<u128>> {
        let n = p.vars.len();
        let mut out = vec![0u128; n];
        for i in 0..n {
            let inn = vs[i.min(255) / 64] >> (i.min(255) % 64) & 1 == 1;
            out[i] = if inn { m.get(i).copied().unwrap_or(0) } else { base.get(i).copied().unwrap_or(0) };
        }
        Rc::new(out)
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        self.out.read_line(&mut s).unwrap();
        s.trim().to_string()
    }
    fn sexpr(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap() == 0 {
                panic!("solver closed its output");
            }
            for ch in l.chars() {
                match ch {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            s.push_str(&l);
            if depth <= 0 {
                break;
            }
        }
        s
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(t: &str, m: &mut [u128]) {
    // ((v0 #x00) (v1 #b0) (v2 (_ bv3 8)))
    let toks: Vec<String> = t.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let mut i = 0;
    while i < toks.len() {
        let s = &toks[i];
        if s.starts_with('v') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()) {
            let k: usize = s[1..].parse().unwrap();
            let nx = &toks[i + 1];
            let v = if nx == "true" || nx == "false" {
                (nx == "true") as u128
            } else if let Some(h) = nx.strip_prefix("#x") {
                u128::from_str_radix(h, 16).unwrap()
            } else if let Some(b) = nx.strip_prefix("#b") {
                u128::from_str_radix(b, 2).unwrap()
            } else {
                toks[i + 3].trim_start_matches("bv").parse().unwrap()
            };
            m[k] = v;
            i += 2;
        } else {
            i += 1;
        }
    }
}
