//! C20: an IO runs its effects when run, each once per run and in program order, and none when
//! built; mapping, binding, applying, combining and sequencing give the values of the same
//! program run directly; a panicking effect is reported as its message by the fallible forms
//! and recovered from.
//! bound: programs of up to 3 (thorough 4) steps of every kind, run twice; effects record a symbolic mark; values and marks in a four-value domain, functions arbitrary tables; sequences of 0..=3 effects, each failing or not, and of 5..=17 with up to 6 fixed failures; panics with a literal, a built, an owned or no message
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
//! assume: one thread; IO::new_async, run_async and delay need a tokio runtime and are outside
use crate::harness;
use crate::sx::*;
use rustica::datatypes::io::{IO, IOError};
use rustica::error::ComposableError;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct Log(Arc<Mutex<Vec<D>>>);
impl Log {
    fn new() -> Log {
        Log(Arc::new(Mutex::new(vec![])))
    }
    fn put(&self, x: D) {
        self.0.lock().unwrap().push(x);
    }
    fn take(&self) -> Vec<D> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
    /// an effect leaving mark `m` and giving `v`
    fn io(&self, m: D, v: D) -> IO<D> {
        let l = self.clone();
        IO::new(move || {
            l.put(m);
            v
        })
    }
}

harness!(h_c20_basic__2, {
    let log = Log::new();
    let (m, v) = (d(), d());
    let f = Fun::any();
    let pure = case(2) == 0;
    let io = if pure { IO::pure(v) } else { log.io(m, v) };
    let marks = if pure { vec![] } else { vec![m] };
    check(io.is_pure() == pure && io.is_effect() == !pure, "c20.is_pure");
    let c = io.clone();
    check(log.take().is_empty(), "c20.lazy");
    check(io.run() == v && log.take() == marks, "c20.run");
    check(c.run() == v && log.take() == marks, "c20.clone");
    check(io.run() == v && log.take() == marks, "c20.rerun");
    check(io.evaluate() == v && log.take() == marks, "c20.evaluate");
    check(io.clone().evaluate_owned() == v && log.take() == marks, "c20.evaluate");
    check(io.fmap_evaluate(|x| f.at(x)) == f.at(v) && log.take() == marks, "c20.evaluate_map");
    let g = io.fmap(move |x| f.at(x));
    check(log.take().is_empty(), "c20.lazy");
    check(g.run() == f.at(v) && log.take() == marks, "c20.fmap");
    check(io.fmap(|x| x).run() == v && log.take() == marks, "c20.fmap_identity");
    check(io.try_get() == Ok(v) && log.take() == marks, "c20.try_get");
    check(io.try_get_with_context("c") == Ok(v) && log.take() == marks, "c20.try_get");
    check(io.try_get_composable() == Ok(v) && log.take() == marks, "c20.try_get");
    check(io.try_get_composable_with_context("c") == Ok(v) && log.take() == marks, "c20.try_get");
    check(io.clone().into_error_pipeline().finish().ok() == Some(v) && log.take() == marks, "c20.pipeline");
    let z = IO::delay_sync(std::time::Duration::ZERO, v);
    check(z.is_effect() && z.run() == v && z.fmap(move |x| f.at(x)).run() == f.at(v), "c20.delay_sync");
    let k = d();
    check(io.clone().recover_with(k).run() == v && log.take() == marks, "c20.recover_ok");
    let l2 = log.clone();
    check(io.clone().recover(move |_| l2.io(k, k)).run() == v && log.take() == marks, "c20.recover_ok");
});
harness!(h_c20_laws__8, {
    let log = Log::new();
    let mk = |pure: bool, m: D, v: D| if pure { IO::pure(v) } else { log.io(m, v) };
    let (pa, pb, pc) = (case(2) == 0, case(2) == 0, case(2) == 0);
    let (m, v) = (d(), d());
    let (fm, fv, gm, gv) = (Fun::any(), Fun::any(), Fun::any(), Fun::any());
    let io = mk(pa, m, v);
    let (l1, l2) = (log.clone(), log.clone());
    let k = move |x: D| if pb { IO::pure(fv.at(x)) } else { l1.io(fm.at(x), fv.at(x)) };
    let h = move |x: D| if pc { IO::pure(gv.at(x)) } else { l2.io(gm.at(x), gv.at(x)) };
    let mut marks = vec![];
    if !pa {
        marks.push(m);
    }
    let mut left = vec![];
    if !pb {
        marks.push(fm.at(v));
        left.push(fm.at(v));
    }
    let b = io.bind(k.clone());
    check(log.take().is_empty(), "c20.lazy");
    check(b.run() == fv.at(v) && log.take() == marks, "c20.bind");
    check(IO::pure(v).bind(k.clone()).run() == fv.at(v) && log.take() == left, "c20.left_id");
    let first: Vec<D> = if pa { vec![] } else { vec![m] };
    check(io.bind(IO::pure).run() == v && log.take() == first, "c20.right_id");
    let x = fv.at(v);
    if !pc {
        marks.push(gm.at(x));
    }
    check(io.bind(k.clone()).bind(h.clone()).run() == gv.at(x) && log.take() == marks, "c20.assoc");
    check(io.bind(move |x| k(x).bind(h.clone())).run() == gv.at(x) && log.take() == marks, "c20.assoc");
});
harness!(h_c20_apply__4, {
    let log = Log::new();
    let (pa, pf) = (case(2) == 0, case(2) == 0);
    let (m, v, n, i) = (d(), d(), d(), d());
    let f = Fun2::any();
    let io = if pa { IO::pure(v) } else { log.io(m, v) };
    let fi = if pf { IO::pure(i) } else { log.io(n, i) };
    let mf = fi.fmap(move |i| move |x: D| f.at(i, x));
    let r: IO<D> = io.apply(mf);
    check(log.take().is_empty(), "c20.lazy");
    let mut marks = vec![];
    if !pf {
        marks.push(n);
    }
    if !pa {
        marks.push(m);
    }
    check(r.run() == f.at(i, v) && log.take() == marks, "c20.apply");
    let c = IO::<D>::combine(&io, &fi);
    check(log.take().is_empty(), "c20.lazy");
    let mut marks = vec![];
    if !pa {
        marks.push(m);
    }
    if !pf {
        marks.push(n);
    }
    check(c.run() == (v, i) && log.take() == marks, "c20.combine");
});
harness!(h_c20_sequence__4, {
    let log = Log::new();
    let n = case(4);
    let (ms, vs) = (ds(n), ds(n));
    let mut ios = vec![];
    for j in 0..n {
        ios.push(log.io(ms[j], vs[j]));
    }
    let s = IO::sequence(ios);
    check(log.take().is_empty(), "c20.lazy");
    check(s.run() == vs && log.take() == ms, "c20.sequence");
    check(s.run() == vs && log.take() == ms, "c20.sequence");
});
harness!(h_c20_when__2, {
    let log = Log::new();
    let b = case(2) == 1;
    let (l0, l1, l2) = (log.clone(), log.clone(), log.clone());
    let io = IO::when(
        move || {
            l0.put(0);
            b
        },
        move || {
            l1.put(1);
            1
        },
        move || {
            l2.put(2);
            2
        },
    );
    check(log.take().is_empty(), "c20.lazy");
    let w = if b { 1 } else { 2 };
    check(io.run() == w && log.take() == vec![0, w], "c20.when");
});
// a panic without a message to report
fn no_message(io: IO<D>, log: &Log, m: D) {
    let other = |e: &ComposableError<IOError>| matches!(e.core_error(), IOError::Other(_));
    check(matches!(io.try_get(), Err(e) if other(&e) && e.context().is_empty()), "c20.try_get_no_message");
    check(matches!(io.try_get_with_context("ctx"), Err(e) if other(&e) && e.context() == vec!["ctx"]), "c20.try_get_no_message");
    check(matches!(io.try_get_composable(), Err(e) if other(&e) && e.context().is_empty()), "c20.try_get_no_message");
    check(log.take() == vec![m, m, m], "c20.try_get_no_message");
    let k = d();
    check(io.clone().recover_with(k).run() == k && log.take() == vec![m], "c20.recover");
    let r = io.clone().recover(move |_| IO::pure(k));
    check(r.run() == k && log.take() == vec![m], "c20.recover");
    check(matches!(IO::sequence_composable(vec![io.clone(), IO::pure(k), io]), Err(v) if v.len() == 2), "c20.sequence_composable");
}
fn message(io: IO<D>, log: &Log, m: D, msg: String) {
    let err = ComposableError::new(IOError::Other(msg));
    check(io.try_get() == Err(err.clone()) && log.take() == vec![m], "c20.try_get_err");
    check(io.try_get_with_context("ctx") == Err(err.clone().with_context("ctx")) && log.take() == vec![m], "c20.try_get_err");
    check(io.try_get_composable().map_err(|e| *e) == Err(err.clone()) && log.take() == vec![m], "c20.try_get_err");
    check(io.try_get_composable_with_context("ctx").map_err(|e| *e) == Err(err.clone().with_context("ctx")) && log.take() == vec![m], "c20.try_get_err");
    let k = d();
    check(io.clone().recover_with(k).run() == k && log.take() == vec![m], "c20.recover");
    let l2 = log.clone();
    let e2 = err.clone();
    let r = io.clone().recover(move |e| if *e == e2 { l2.io(k, k) } else { IO::pure(9) });
    check(log.take().is_empty(), "c20.lazy");
    check(r.run() == k && log.take() == vec![m, k], "c20.recover");
    check(io.fmap(|x| x).try_get() == Err(err.clone()) && log.take() == vec![m], "c20.try_get_err");
    let p = io.clone().into_error_pipeline().finish_without_box();
    check(p.map_err(|e| *e.core_error) == Err(err) && log.take() == vec![m], "c20.pipeline");
    check(panics(|| {
        io.run();
    }), "c20.run_panics");
}
harness!(h_c20_fail__5, {
    // a panicking effect, with a literal, a built or no message
    let log = Log::new();
    let kind = case(5);
    let word = if boolean() { "news" } else { "sign" };
    let m = d();
    let l = log.clone();
    let io: IO<D> = IO::new(move || {
        l.put(m);
        match kind {
            0 => panic!("bad news"),
            1 => panic!("bad {}", word),
            2 => std::panic::panic_any(format!("bad {}", word)),
            3 => std::panic::panic_any(word),
            _ => std::panic::panic_any(m),
        }
    });
    match kind {
        0 => message(io, &log, m, String::from("bad news")),
        1 | 2 => message(io, &log, m, format!("bad {}", word)),
        3 => message(io, &log, m, word.to_string()),
        _ => no_message(io, &log, m),
    }
});
harness!(h_c20_fails__8, {
    // every effect runs, and all failures are kept in order
    let log = Log::new();
    let bad = [case(2) == 1, case(2) == 1, case(2) == 1];
    let vs = ds(3);
    let msg = ["x", "y", "z"];
    let mut ios: Vec<IO<D>> = vec![];
    for j in 0..3 {
        let (l, v, b) = (log.clone(), vs[j], bad[j]);
        let s = msg[j];
        ios.push(IO::new(move || {
            l.put(v);
            if b {
                panic!("{}", s);
            }
            v
        }));
    }
    let r = IO::sequence_composable(ios);
    check(log.take() == vs, "c20.sequence_runs_all");
    let errs: Vec<String> = (0..3).filter(|j| bad[*j]).map(|j| msg[j].to_string()).collect();
    match r {
        Ok(v) => check(errs.is_empty() && v == vs, "c20.sequence_composable"),
        Err(e) => {
            let got: Vec<String> = e.iter().map(|e| match e.core_error() {
                IOError::Other(s) => s.clone(),
                _ => String::new(),
            }).collect();
            check(!errs.is_empty() && got == errs, "c20.sequence_composable");
        }
    }
});
fn program(n: usize) {
    let log = Log::new();
    let mut io: IO<D> = IO::pure(0);
    let mut want = vec![];
    let mut x = 0;
    for _ in 0..n {
        let (m, k) = (d(), d());
        let f = Fun2::any();
        let l = log.clone();
        io = match case(5) {
            0 => {
                x = f.at(x, k);
                io.fmap(move |a| f.at(a, k))
            }
            1 => {
                want.push(m);
                x = f.at(x, k);
                io.bind(move |a| l.io(m, f.at(a, k)))
            }
            2 => {
                x = f.at(x, k);
                io.bind(move |a| IO::pure(f.at(a, k)))
            }
            3 => {
                want.insert(0, m);
                x = f.at(k, x);
                io.apply(l.io(m, k).fmap(move |i| move |a: D| f.at(i, a)))
            }
            _ => {
                want.push(m);
                x = f.at(x, k);
                IO::<D>::combine(&io, &l.io(m, k)).fmap(move |(a, b)| f.at(a, b))
            }
        };
    }
    check(log.take().is_empty(), "c20.lazy");
    check(io.run() == x && log.take() == want, "c20.program");
    check(io.run() == x && log.take() == want, "c20.program_again");
}
harness!(h_c20_program__5, {
    program(3);
});
harness!(ht_c20_program4__5, {
    program(4);
});
harness!(h_c20_sequence_long__3, {
    let log = Log::new();
    let n = [5, 9, 17][case(3)];
    let (ms, vs) = (ds(n), ds(n));
    let mut ios = vec![];
    for j in 0..n {
        ios.push(if j == 2 { IO::pure(vs[j]) } else { log.io(ms[j], vs[j]) });
    }
    let mut want = ms.clone();
    want.remove(2);
    let k = case(5);
    let s = IO::sequence(hinted(ios.clone(), k));
    check(log.take().is_empty(), "c20.lazy");
    check(s.run() == vs && log.take() == want, "c20.sequence");
    check(s.run() == vs && log.take() == want, "c20.sequence");
    check(IO::sequence_composable(hinted(ios, k)).ok() == Some(vs) && log.take() == want, "c20.sequence_composable");
});
harness!(h_c20_fails_long__4, {
    // more failures than are kept inline, alone or among successes
    let log = Log::new();
    let (n, first, step) = [(6, 0, 1), (10, 0, 2), (9, 4, 1), (12, 1, 2)][case(4)];
    let vs = ds(n);
    let bad = move |j: usize| j >= first && (j - first) % step == 0;
    let msg = ["a", "b", "c", "e", "f", "g", "h", "i", "j", "k", "l", "m"];
    let mut ios: Vec<IO<D>> = vec![];
    for j in 0..n {
        let (l, v, s) = (log.clone(), vs[j], msg[j]);
        ios.push(IO::new(move || {
            l.put(v);
            if bad(j) {
                panic!("{}", s);
            }
            v
        }));
    }
    let r = IO::sequence_composable(ios);
    check(log.take() == vs, "c20.sequence_runs_all");
    let want: Vec<&str> = (0..n).filter(|j| bad(*j)).map(|j| msg[j]).collect();
    match r {
        Ok(_) => check(false, "c20.sequence_composable"),
        Err(e) => {
            check(e.len() == want.len(), "c20.sequence_composable");
            for (x, m) in e.iter().zip(&want) {
                check(matches!(x.core_error(), IOError::Other(s) if s == m), "c20.sequence_composable");
            }
        }
    }
});
harness!(h_c20_midway__6, {
    // a failure in the middle of a program: what came before has run, nothing after does
    let log = Log::new();
    let (m, v) = (ds(3), ds(3));
    let at = case(3);
    let effect = |j: usize| {
        let (l, m, v) = (log.clone(), m[j], v[j]);
        IO::new(move || {
            l.put(m);
            if j == at {
                panic!("stop");
            }
            v
        })
    };
    let (a, b, c): (IO<D>, IO<D>, IO<D>) = (effect(0), effect(1), effect(2));
    let p = match case(3) {
        0 => a.bind(move |_| b.clone()).bind(move |_| c.clone()),
        1 => IO::sequence(vec![a, b, c]).fmap(|v| v[2]),
        _ => {
            let ab = IO::<D>::combine(&a, &b);
            IO::<(D, D)>::combine(&ab, &c).fmap(|p| p.1)
        }
    };
    check(log.take().is_empty(), "c20.lazy");
    let ran = m[..=at].to_vec();
    let err = ComposableError::new(IOError::Other("stop".to_string()));
    check(p.try_get() == Err(err.clone()) && log.take() == ran, "c20.midway");
    let k = d();
    check(p.clone().recover_with(k).run() == k && log.take() == ran, "c20.midway_recover");
    // recovering only covers what it was called on
    let (l, q) = (log.clone(), d());
    let r = p.recover_with(k).bind(move |x| l.io(q, x));
    let mut more = ran.clone();
    more.push(q);
    check(r.run() == k && log.take() == more, "c20.midway_recover");
});
