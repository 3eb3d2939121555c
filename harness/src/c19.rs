//! C19: a continuation computation run with a continuation gives what the same program written
//! in direct continuation-passing style gives: pure calls the continuation once, bind and apply
//! chain in order, aborting and calling the continuation several times are preserved, and an
//! escape from call_cc returns its value to the point of capture.
//! bound: computations are pure values, aborts, results modified after the continuation, and two calls of the continuation combined by an arbitrary function; answers and values in a four-value domain, continuations and functions arbitrary tables; programs of up to 4 bound steps and of up to 3 steps mixing map, apply, call_cc and bind, run with two continuations and again
use crate::harness;
use crate::sx::*;
use rustica::datatypes::cont::{Cont, ContFn2};
use rustica::datatypes::id::Id;
use rustica::transformers::cont_t::ContT;
use std::sync::Arc;

type C = Cont<D, D>;
type CT = ContT<D, Option<D>, D>;

/// a computation depending on a value
#[derive(Clone, Copy)]
struct Step {
    kind: usize,
    f: Fun,
    g: Fun,
    h: Fun2,
}
impl Step {
    fn any() -> Step {
        let kind = case(4);
        Step { kind, f: Fun::any(), g: if kind >= 2 { Fun::any() } else { Fun([0; 4]) }, h: if kind == 3 { Fun2::any() } else { Fun2([0; 16]) } }
    }
    /// direct style
    fn run(&self, a: D, k: &dyn Fn(D) -> D) -> D {
        match self.kind {
            0 => k(self.f.at(a)),
            1 => self.f.at(a),
            2 => self.g.at(k(self.f.at(a))),
            _ => self.h.at(k(self.f.at(a)), k(self.g.at(a))),
        }
    }
    fn cont(self, a: D) -> C {
        match self.kind {
            0 => Cont::return_cont(self.f.at(a)),
            _ => Cont::new(move |k| self.run(a, &|x| k(x))),
        }
    }
    fn cont_t(self, a: D) -> CT {
        match self.kind {
            0 => ContT::pure(self.f.at(a)),
            1 => ContT::new(move |_| None),
            2 => ContT::new(move |k: Arc<dyn Fn(D) -> Option<D> + Send + Sync>| k(self.f.at(a)).map(|r| self.g.at(r))),
            _ => ContT::new(move |k: Arc<dyn Fn(D) -> Option<D> + Send + Sync>| match (k(self.f.at(a)), k(self.g.at(a))) {
                (Some(x), Some(y)) => Some(self.h.at(x, y)),
                _ => None,
            }),
        }
    }
    fn run_t(&self, a: D, k: &dyn Fn(D) -> Option<D>) -> Option<D> {
        match self.kind {
            0 => k(self.f.at(a)),
            1 => None,
            2 => k(self.f.at(a)).map(|r| self.g.at(r)),
            _ => match (k(self.f.at(a)), k(self.g.at(a))) {
                (Some(x), Some(y)) => Some(self.h.at(x, y)),
                _ => None,
            },
        }
    }
}

harness!(h_c19_cont__4, {
    let t = Step::any();
    let (q, f, g) = (Fun::any(), Fun::any(), Fun::any());
    let a = d();
    let k = move |x: D| q.at(x);
    check(C::pure(a).run(k) == q.at(a) && C::return_cont(a).run(k) == q.at(a), "c19.pure");
    check(t.cont(0).run(k) == t.run(0, &k), "c19.run");
    check(t.cont(0).clone().run(k) == t.run(0, &k), "c19.clone");
    check(t.cont(0).fmap(move |x| f.at(x)).run(k) == t.run(0, &|x| q.at(f.at(x))), "c19.fmap");
    check(t.cont(0).fmap(|x| x).run(k) == t.run(0, &k), "c19.fmap_identity");
    check(t.cont(0).fmap(move |x| f.at(x)).fmap(move |x| g.at(x)).run(k) == t.run(0, &|x| q.at(g.at(f.at(x)))), "c19.fmap_compose");
    check(C::pure(a).bind(move |x| t.cont(x)).run(k) == t.run(a, &k), "c19.left_id");
    check(t.cont(0).bind(C::pure).run(k) == t.run(0, &k), "c19.right_id");
    let ct = ContT::<D, Id<D>, D>::from_cont(t.cont(0));
    check(ct.run(move |x| Id::new(q.at(x))).into_inner() == t.run(0, &k), "c19.from_cont");
    check(ct.to_cont().run(k) == t.run(0, &k), "c19.to_cont");
    let c: C = ContT::<D, Id<D>, D>::from_cont(t.cont(0)).into();
    check(c.run(k) == t.run(0, &k), "c19.to_cont");
});
harness!(h_c19_bind__16, {
    let t = Step::any();
    let u = Step::any();
    let q = Fun::any();
    let k = move |x: D| q.at(x);
    check(t.cont(0).bind(move |x| u.cont(x)).run(k) == t.run(0, &|x| u.run(x, &k)), "c19.bind");
    let s = u;
    let lhs = t.cont(0).bind(move |x| u.cont(x)).bind(move |x| s.cont(x)).run(k);
    let rhs = t.cont(0).bind(move |x| u.cont(x).bind(move |y| s.cont(y))).run(k);
    check(lhs == rhs, "c19.assoc");
    // apply runs the function's effects first
    let f = Fun2::any();
    let cf: Cont<D, ContFn2<D, D>> = t.cont(0).fmap(move |i| Arc::new(move |x: D| f.at(i, x)) as ContFn2<D, D>);
    check(u.cont(0).apply(cf).run(k) == t.run(0, &|i| u.run(0, &|x| q.at(f.at(i, x)))), "c19.apply");
});
harness!(h_c19_cont_t__16, {
    let t = Step::any();
    let u = Step::any();
    let (q, f) = (Fun::any(), Fun2::any());
    let some = boolean();
    let k = move |x: D| if some { Some(q.at(x)) } else { None };
    check(t.cont_t(0).run(k) == t.run_t(0, &k), "c19.t_run");
    check(t.cont_t(0).fmap(move |x| f.at(0, x)).run(k) == t.run_t(0, &|x| k(f.at(0, x))), "c19.t_fmap");
    check(t.cont_t(0).bind(move |x| u.cont_t(x)).run(k) == t.run_t(0, &|x| u.run_t(x, &k)), "c19.t_bind");
    let cf: ContT<D, Option<D>, Arc<dyn Fn(D) -> D + Send + Sync>> =
        t.cont_t(0).fmap(move |i| Arc::new(move |x: D| f.at(i, x)) as Arc<dyn Fn(D) -> D + Send + Sync>);
    check(u.cont_t(0).apply(cf).run(k) == t.run_t(0, &|i| u.run_t(0, &|x| k(f.at(i, x)))), "c19.t_apply");
});
harness!(h_c19_callcc__16, {
    let t = Step::any();
    let u = Step::any();
    let q = Fun::any();
    let p = Pred::any();
    let k = move |x: D| q.at(x);
    // escape(x) when p(x), else go on with u
    let c: Cont<D, D> = C::pure(0).call_cc(move |escape: Box<dyn Fn(D) -> Cont<D, D> + Send + Sync>| {
        let escape: Arc<dyn Fn(D) -> Cont<D, D> + Send + Sync> = Arc::from(escape);
        t.cont(0).bind(move |x| if p.at(x) { escape(x).bind(move |y| u.cont(y)) } else { u.cont(x) })
    });
    let want = t.run(0, &|x| if p.at(x) { q.at(x) } else { u.run(x, &k) });
    check(c.run(k) == want, "c19.call_cc");
    let r = Fun::any();
    let k2 = move |x: D| r.at(x);
    check(c.run(k2) == t.run(0, &|x| if p.at(x) { r.at(x) } else { u.run(x, &k2) }) && c.run(k) == want, "c19.call_cc_again");
    let ct: CT = ContT::call_cc(move |escape: Arc<dyn Fn(D) -> CT + Send + Sync>| {
        t.cont_t(0).bind(move |x| if p.at(x) { escape(x).bind(move |y| u.cont_t(y)) } else { u.cont_t(x) })
    });
    let kt = move |x: D| Some(q.at(x));
    check(ct.run(kt) == t.run_t(0, &|x| if p.at(x) { kt(x) } else { u.run_t(x, &kt) }), "c19.t_call_cc");
    // unused escape changes nothing
    let c: Cont<D, D> = C::pure(0).call_cc(move |_: Box<dyn Fn(D) -> Cont<D, D> + Send + Sync>| t.cont(0));
    check(c.run(k) == t.run(0, &k), "c19.call_cc_unused");
});
/// chains answering with the record of every value the final continuation saw and of the marks
/// left on the way back
fn chain(n: usize) {
    type W = Vec<D>;
    fn run(s: &[(usize, Fun, Fun)], a: D, k: &dyn Fn(D) -> W) -> W {
        let Some((&(kind, f, g), rest)) = s.split_first() else { return k(a) };
        let next = |x: D| run(rest, x, k);
        match kind {
            0 => next(f.at(a)),
            1 => vec![f.at(a)],
            2 => {
                let mut w = next(f.at(a));
                w.push(g.at(a));
                w
            }
            _ => [next(f.at(a)), next(g.at(a))].concat(),
        }
    }
    let mut steps: Vec<(usize, Fun, Fun)> = vec![];
    for _ in 0..n {
        steps.push((case(4), Fun::any(), Fun::any()));
    }
    let mut c: Cont<W, D> = Cont::pure(0);
    for &(kind, f, g) in &steps {
        c = c.bind(move |a| match kind {
            0 => Cont::pure(f.at(a)),
            1 => Cont::new(move |_| vec![f.at(a)]),
            2 => Cont::new(move |k| {
                let mut w: W = k(f.at(a));
                w.push(g.at(a));
                w
            }),
            _ => Cont::new(move |k| [k(f.at(a)), k(g.at(a))].concat()),
        });
    }
    let q = Fun::any();
    check(c.run(move |x| vec![x, q.at(x)]) == run(&steps, 0, &|x| vec![x, q.at(x)]), "c19.chain");
    check(c.clone().run(move |x| vec![q.at(x)]) == run(&steps, 0, &|x| vec![q.at(x)]), "c19.chain_again");
    check(c.run(move |x| vec![x, q.at(x)]) == run(&steps, 0, &|x| vec![x, q.at(x)]), "c19.chain_again");
}
harness!(h_c19_chain__4, {
    chain(4);
});
/// programs mixing every construct; the answer records every value the final continuation saw
fn mixed(n: usize) {
    type W = Vec<D>;
    type K = Arc<dyn Fn(D) -> W + Send + Sync>;
    #[derive(Clone, Copy)]
    struct St(usize, Fun, Fun, Pred);
    fn twice(s: St) -> Cont<W, ContFn2<D, D>> {
        Cont::new(move |k: Arc<dyn Fn(ContFn2<D, D>) -> W + Send + Sync>| {
            let (f, g) = (s.1, s.2);
            let (f, g): (ContFn2<D, D>, ContFn2<D, D>) = (Arc::new(move |x| f.at(x)), Arc::new(move |x| g.at(x)));
            [k(f), k(g)].concat()
        })
    }
    fn run(s: &[St], k: &dyn Fn(D) -> W) -> W {
        let Some((s, rest)) = s.split_last() else { return k(0) };
        let St(kind, f, g, p) = *s;
        match kind {
            0 => run(rest, &|x| k(f.at(x))),
            1 => [run(rest, &|x| k(f.at(x))), run(rest, &|x| k(g.at(x)))].concat(),
            2 => run(rest, &|x| if p.at(x) { k(f.at(x)) } else { k(g.at(x)) }),
            3 => run(rest, &|x| if p.at(x) { vec![x] } else { [k(f.at(x)), k(g.at(x))].concat() }),
            _ => run(rest, &|x| {
                let mut w = k(f.at(x));
                w.push(g.at(x));
                w
            }),
        }
    }
    let mut steps = vec![];
    let mut c: Cont<W, D> = Cont::pure(0);
    for _ in 0..n {
        let kind = case(5);
        let s = St(kind, Fun::any(), if kind > 0 { Fun::any() } else { Fun([0; 4]) }, if kind == 2 || kind == 3 { Pred::any() } else { Pred([0; 4]) });
        steps.push(s);
        let St(_, f, g, p) = s;
        c = match kind {
            0 => c.fmap(move |x| f.at(x)),
            1 => c.apply(twice(s)),
            2 => c.bind(move |x| {
                Cont::<W, D>::pure(x).call_cc(move |escape: Box<dyn Fn(D) -> Cont<W, D> + Send + Sync>| {
                    if p.at(x) { escape(f.at(x)).bind(move |y| Cont::new(move |k: K| [k(y), k(g.at(y))].concat())) } else { Cont::pure(g.at(x)) }
                })
            }),
            3 => c.bind(move |x| Cont::new(move |k: K| if p.at(x) { vec![x] } else { [k(f.at(x)), k(g.at(x))].concat() })),
            _ => c.bind(move |x| {
                Cont::new(move |k: K| {
                    let mut w = k(f.at(x));
                    w.push(g.at(x));
                    w
                })
            }),
        };
    }
    let q = Fun::any();
    let want = run(&steps, &|x| vec![x, q.at(x)]);
    check(c.run(move |x| vec![x, q.at(x)]) == want, "c19.mixed");
    check(c.run(move |x| vec![x, q.at(x)]) == want, "c19.mixed_again");
    let ct = ContT::<W, Id<W>, D>::from_cont(c);
    check(ct.run(move |x| Id::new(vec![x, q.at(x)])).into_inner() == want, "c19.mixed_t");
}
harness!(h_c19_mixed__5, {
    mixed(3);
});
harness!(h_c19_once, {
    // nothing runs when built; each run runs each step once, in order
    let (f, g, q) = (Fun::any(), Fun::any(), Fun::any());
    let s = Trace::default();
    let (s0, s1, s2, s3, s4, s5, s6) = (s.clone(), s.clone(), s.clone(), s.clone(), s.clone(), s.clone(), s.clone());
    let c: C = Cont::new(move |k: Arc<dyn Fn(D) -> D + Send + Sync>| { s0.see(0); k(1) });
    let c = c.fmap(move |x| { s1.see(1); f.at(x) });
    let c = c.bind(move |x| { s2.see(2); let s3 = s3.clone(); Cont::new(move |k: Arc<dyn Fn(D) -> D + Send + Sync>| { s3.see(3); k(g.at(x)) }) });
    let cf: Cont<D, ContFn2<D, D>> = Cont::new(move |k: Arc<dyn Fn(ContFn2<D, D>) -> D + Send + Sync>| {
        s4.see(4);
        let s5 = s5.clone();
        k(Arc::new(move |x| { s5.see(5); f.at(x) }))
    });
    let c = c.apply(cf);
    check(s.take().is_empty(), "c19.built");
    check(c.run(move |x| q.at(s6.see(x))) == q.at(f.at(g.at(f.at(1)))), "c19.once_value");
    check(s.take() == [4, 0, 1, 2, 3, 5, f.at(g.at(f.at(1)))], "c19.once");
});
