//! C15: a state computation threads the state through its steps in order: any program of reads,
//! writes, modifications and computed steps gives the value and final state of the same program
//! run directly; it can be run again from any state; fmap, bind, apply and pure obey their laws.
//! bound: states and values in a four-value domain, transitions arbitrary tables over it; programs of up to 4 (thorough: 5) steps of every kind, runs repeated from two arbitrary states
use crate::harness;
use crate::sx::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{get, modify, put, State};
use rustica::error::ComposableError;
use rustica::transformers::StateT;

type S = State<D, D>;
/// an arbitrary transition s -> (value, state)
#[derive(Clone, Copy)]
struct Tr(Fun, Fun);
impl Tr {
    fn any() -> Tr {
        Tr(Fun::any(), Fun::any())
    }
    fn at(&self, s: D) -> (D, D) {
        (self.0.at(s), self.1.at(s))
    }
    fn st(self) -> S {
        State::new(move |s| self.at(s))
    }
}
/// an arbitrary function from values to transitions: (a, s) -> (value, state)
#[derive(Clone, Copy)]
struct Arrow(Fun2, Fun2);
impl Arrow {
    fn any() -> Arrow {
        Arrow(Fun2::any(), Fun2::any())
    }
    fn at(&self, a: D, s: D) -> (D, D) {
        (self.0.at(a, s), self.1.at(a, s))
    }
    fn st(self, a: D) -> S {
        State::new(move |s| self.at(a, s))
    }
}
fn then(p: (D, D), k: Arrow) -> (D, D) {
    k.at(p.0, p.1)
}

harness!(h_c15_basic, {
    let t = Tr::any();
    let s = d();
    let m = t.st();
    check(m.run_state(s) == t.at(s), "c15.run");
    check(m.eval_state(s) == t.0.at(s), "c15.eval");
    check(m.exec_state(s) == t.1.at(s) && m.exec_pure(s) == t.1.at(s), "c15.exec");
    check(m.clone().run_state(s) == t.at(s), "c15.clone");
    let s2 = d();
    check(m.run_state(s2) == t.at(s2) && m.run_state(s) == t.at(s), "c15.rerun");
    check(get::<D>().run_state(s) == (s, s), "c15.get");
    let k = d();
    check(put(k).run_state(s) == ((), k), "c15.put");
    let f = Fun::any();
    check(modify(move |x: D| f.at(x)).run_state(s) == ((), f.at(s)), "c15.modify");
    check(S::pure(k).run_state(s) == (k, s), "c15.pure");
    let g = Fun::any();
    check(m.clone().fmap(move |a| g.at(a)).run_state(s) == (g.at(t.0.at(s)), t.1.at(s)), "c15.fmap");
    check(m.clone().fmap(|a| a).run_state(s) == t.at(s), "c15.fmap_identity");
    let h = Fun::any();
    check(
        m.clone().fmap(move |a| g.at(a)).fmap(move |a| h.at(a)).run_state(s) == m.clone().fmap(move |a| h.at(g.at(a))).run_state(s),
        "c15.fmap_compose",
    );
    // conversion from the transformer
    let from: S = StateT::new(move |s: D| Id::new(t.at(s))).into();
    check(from.run_state(s) == t.at(s), "c15.from_state_t");
});
harness!(h_c15_monad, {
    let t = Tr::any();
    let k = Arrow::any();
    let l = Arrow::any();
    let s = d();
    let a = d();
    let m = t.st();
    let want = then(t.at(s), k);
    check(m.clone().bind(move |x| k.st(x)).run_state(s) == want, "c15.bind");
    check(S::pure(a).bind(move |x| k.st(x)).run_state(s) == k.at(a, s), "c15.left_id");
    check(m.clone().bind(S::pure).run_state(s) == t.at(s), "c15.right_id");
    let lhs = m.clone().bind(move |x| k.st(x)).bind(move |x| l.st(x)).run_state(s);
    let rhs = m.clone().bind(move |x| k.st(x).bind(move |y| l.st(y))).run_state(s);
    check(lhs == rhs, "c15.assoc");
    check(lhs == then(want, l), "c15.bind_twice");
});
harness!(h_c15_apply, {
    // functions chosen by the first computation: a table index
    let t = Tr::any();
    let u = Tr::any();
    let f = Fun2::any();
    let s = d();
    let fs: State<D, _> = t.st().fmap(move |i| move |x: D| f.at(i, x));
    let (i, s1) = t.at(s);
    let (x, s2) = u.at(s1);
    check(fs.apply::<D, D>(u.st()).run_state(s) == (f.at(i, x), s2), "c15.apply");
    let k = d();
    let g = Fun::any();
    let pf: State<D, _> = State::pure(move |x: D| g.at(x));
    check(pf.clone().apply::<D, D>(u.st()).run_state(s) == u.st().fmap(move |x| g.at(x)).run_state(s), "c15.apply_pure");
    check(pf.apply::<D, D>(S::pure(k)).run_state(s) == (g.at(k), s), "c15.apply_pure");
});
harness!(h_c15_once, {
    // nothing runs when built; each run runs each step once, in order
    let (t, f) = (Tr::any(), Fun::any());
    let (k, l) = (Arrow::any(), Arrow::any());
    let log = Trace::default();
    let see = |v: D| { let log = log.clone(); move || { log.see(v); } };
    let (e0, e1, e2, e3, e4, e5) = (see(0), see(1), see(2), see(3), see(4), see(5));
    let (e6, e7) = (see(6), see(7));
    let m: S = State::new(move |s| { e0(); t.at(s) });
    let m = m.fmap(move |a| { e1(); f.at(a) });
    let m = m.bind(move |a| { e2(); let e3 = e3.clone(); State::new(move |s| { e3(); k.at(a, s) }) });
    let m = m.bind(move |a| { let e4 = e4.clone(); modify(move |s| { e4(); l.1.at(a, s) }).fmap(move |_| a) });
    let fs: State<D, _> = State::new(move |s: D| { e5(); let e7 = e7.clone(); (move |x: D| { e7(); l.0.at(x, s) }, s) });
    let u: S = State::new(move |s| { e6(); t.at(s) });
    let n = fs.apply::<D, D>(u);
    check(log.take().is_empty(), "c15.built");
    let s = d();
    let want = then((f.at(t.at(s).0), t.at(s).1), k);
    check(m.run_state(s) == (want.0, l.1.at(want.0, want.1)), "c15.once_value");
    check(log.take() == [0, 1, 2, 3, 4], "c15.once");
    m.eval_state(s);
    check(log.take() == [0, 1, 2, 3, 4], "c15.eval_once");
    m.exec_state(s);
    check(log.take() == [0, 1, 2, 3, 4], "c15.exec_once");
    check(n.run_state(s) == (l.0.at(t.at(s).0, s), t.at(s).1), "c15.once_value");
    check(log.take() == [5, 6, 7], "c15.apply_once");
    let r: State<D, Result<D, D>> = m.fmap(Ok);
    let _ = (r.try_run_state(s), log.take());
    let _ = r.try_exec_state(s);
    check(log.take() == [0, 1, 2, 3, 4], "c15.try_once");
});
/// A program: each step uses the accumulated value and leaves one.
fn program(n: usize) {
    let mut m: S = S::pure(0);
    let mut steps: Vec<(usize, D, Arrow)> = vec![];
    for _ in 0..n {
        let c = case(5);
        let k = d();
        let a = if c >= 2 { Arrow::any() } else { Arrow(Fun2([0; 16]), Fun2([0; 16])) };
        steps.push((c, k, a));
        m = match c {
            0 => m.bind(|_| get()),
            1 => m.bind(move |x| put(k).fmap(move |_| x)),
            2 => m.bind(move |x| modify(move |s| a.0.at(x, s)).bind(move |_| get())),
            3 => m.bind(move |x| a.st(x)),
            _ => m.fmap(move |x| a.0.at(x, k)),
        };
    }
    let run = |s0: D| {
        let (mut x, mut s) = (0, s0);
        for (c, k, a) in &steps {
            match c {
                0 => x = s,
                1 => s = *k,
                2 => {
                    s = a.0.at(x, s);
                    x = s;
                }
                3 => (x, s) = a.at(x, s),
                _ => x = a.0.at(x, *k),
            }
        }
        (x, s)
    };
    let s = d();
    check(m.run_state(s) == run(s), "c15.program");
    let s2 = d();
    check(m.run_state(s2) == run(s2), "c15.program_again");
}
harness!(h_c15_program__5, {
    program(4);
});
harness!(ht_c15_program5__5, {
    program(5);
});
harness!(h_c15_try__4, {
    let ok = case(2) == 1;
    let t = Tr::any();
    let s = d();
    let m: State<D, Result<D, D>> = State::new(move |s| {
        let (a, s2) = t.at(s);
        (if ok { Ok(a) } else { Err(a) }, s2)
    });
    let (a, s2) = t.at(s);
    let ctx = text(2);
    let plain: Result<D, ComposableError<D>> = if ok { Ok(a) } else { Err(ComposableError::new(a)) };
    let with: Result<D, ComposableError<D>> = if ok { Ok(a) } else { Err(ComposableError::new(a).with_context(ctx.clone())) };
    match case(2) {
        0 => {
            check(m.try_run_state(s) == (plain.clone(), s2), "c15.try_run");
            check(m.try_eval_state(s) == plain, "c15.try_eval");
            check(m.try_exec_state(s) == plain.map(|_| s2), "c15.try_exec");
        }
        _ => {
            check(m.try_run_state_with_context(s, ctx.clone()) == (with.clone(), s2), "c15.try_run_context");
            check(m.try_eval_state_with_context(s, ctx.clone()) == with, "c15.try_eval_context");
            check(m.try_exec_state_with_context(s, ctx.clone()) == with.map(|_| s2), "c15.try_exec_context");
        }
    }
});
