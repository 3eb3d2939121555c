//! C16: the state transformer threads state through a base that may fail, fail with an error or
//! give several results: running, mapping, binding, combining, lifting and joining follow the
//! base's own sequencing; the Result forms report exactly the base's error, with the context
//! given; conversion from and to State preserves what runs.
//! bound: bases Option, Result and Vec (each step 0..=2 results); states, values and errors in a four-value domain, transitions arbitrary (partial) tables; programs of up to 3 (thorough 4) bound steps over Option and of 2 (thorough 3) steps of every kind over Result, run from two states and again
//! assume: base operations handed in (map, bind, combine) are the base's own; apply and combine run both operands from the initial state, as documented
use crate::harness;
use crate::sx::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::state::State;
use rustica::error::ComposableError;
use rustica::transformers::{lift, MonadTransformer, StateT};

type Opt<A> = StateT<D, Option<(D, A)>, A>;
type Res<A> = StateT<D, Result<(D, A), D>, A>;
type Many<A> = StateT<D, Vec<(D, A)>, A>;

/// (a, s) -> failure with an error, or (state, value)
#[derive(Clone, Copy)]
struct Step {
    ok: [u8; 16],
    st: Fun2,
    val: Fun2,
}
impl Step {
    fn any() -> Step {
        let mut ok = [0; 16];
        for o in &mut ok {
            *o = bits(1) as u8;
        }
        Step { ok, st: Fun2::any(), val: Fun2::any() }
    }
    fn res(&self, a: D, s: D) -> Result<(D, D), D> {
        if self.ok[((a & 3) * 4 + (s & 3)) as usize] == 1 { Ok((self.st.at(a, s), self.val.at(a, s))) } else { Err(self.val.at(a, s)) }
    }
    fn opt(&self, a: D, s: D) -> Option<(D, D)> {
        self.res(a, s).ok()
    }
    fn as_opt(self, a: D) -> Opt<D> {
        StateT::new(move |s| self.opt(a, s))
    }
    fn as_res(self, a: D) -> Res<D> {
        StateT::new(move |s| self.res(a, s))
    }
}
fn bind_o<A: Clone + 'static>(m: &Opt<D>, f: impl Fn(D) -> Opt<A> + Send + Sync + Clone + 'static) -> Opt<A> {
    m.bind_with(f, |m: Option<(D, D)>, k| m.and_then(|p| k(p)))
}
fn bind_r(m: &Res<D>, f: impl Fn(D) -> Res<D> + Send + Sync + Clone + 'static) -> Res<D> {
    m.bind_with(f, |m: Result<(D, D), D>, k| m.and_then(|p| k(p)))
}

harness!(h_c16_option, {
    let t = Step::any();
    let k = Step::any();
    let (s, a) = (d(), d());
    let f = Fun::any();
    let m = t.as_opt(0);
    check(m.run_state(s) == t.opt(0, s), "c16.run");
    check(m.clone().run_state(s) == t.opt(0, s), "c16.clone");
    check(m.exec_state(s, |r| r.map(|p| p.0)) == t.opt(0, s).map(|p| p.0), "c16.exec");
    let fm: StateT<D, Option<(D, D)>, D> = m.fmap_with(move |x| f.at(x), |m: Option<(D, D)>, g| m.map(|p| g(p)));
    check(fm.run_state(s) == t.opt(0, s).map(|(s2, x)| (s2, f.at(x))), "c16.fmap");
    check(bind_o(&m, move |x| k.as_opt(x)).run_state(s) == t.opt(0, s).and_then(|(s2, x)| k.opt(x, s2)), "c16.bind");
    check(Opt::<D>::get(Some).run_state(s) == Some((s, s)), "c16.get");
    check(Opt::<D>::put(a, Some).run_state(s) == Some((a, s)), "c16.put");
    let md: StateT<D, Option<(D, ())>, ()> = StateT::<D, Option<(D, ())>, ()>::modify(move |x| f.at(x), Some);
    check(md.run_state(s) == Some((f.at(s), ())), "c16.modify");
    check(Opt::pure(a, Some).run_state(s) == Some((s, a)), "c16.pure");
    check(bind_o(&Opt::pure(a, Some), move |x| k.as_opt(x)).run_state(s) == k.opt(a, s), "c16.left_id");
    check(bind_o(&m, |x| Opt::pure(x, Some)).run_state(s) == t.opt(0, s), "c16.right_id");
    check(bind_o(&StateT::Pure(a), move |x| k.as_opt(x)).run_state(s) == k.opt(a, s), "c16.bind_pure");
});
harness!(h_c16_assoc, {
    let t = Step::any();
    let k = Step::any();
    let l = Step::any();
    let s = d();
    let m = t.as_opt(0);
    let lhs = bind_o(&bind_o(&m, move |x| k.as_opt(x)), move |x| l.as_opt(x)).run_state(s);
    let rhs = bind_o(&m, move |x| bind_o(&k.as_opt(x), move |y| l.as_opt(y))).run_state(s);
    check(lhs == rhs, "c16.assoc");
    check(lhs == t.opt(0, s).and_then(|(s, x)| k.opt(x, s)).and_then(|(s, x)| l.opt(x, s)), "c16.bind_twice");
});
harness!(h_c16_lift__2, {
    // a lifted base ignores the incoming state and keeps its own
    let p = if case(2) == 0 { None } else { Some((d(), d())) };
    let s = d();
    let k = Step::any();
    let f = Fun::any();
    let l: Opt<D> = MonadTransformer::lift(p);
    let l2: Opt<D> = lift(p);
    check(l.run_state(s) == p && l2.run_state(s) == p, "c16.lift");
    let m: Opt<D> = StateT::LiftM(p);
    check(m.run_state(s) == p, "c16.lift_m");
    check(bind_o(&m, move |x| k.as_opt(x)).run_state(s) == p.and_then(|(s2, x)| k.opt(x, s2)), "c16.lift_m_bind");
    check(bind_o(&l, move |x| k.as_opt(x)).run_state(s) == p.and_then(|(s2, x)| k.opt(x, s2)), "c16.lift_bind");
    let fm: Opt<D> = m.fmap_with(move |x| f.at(x), |m: Option<(D, D)>, g| m.map(|p| g(p)));
    check(fm.run_state(s) == p.map(|(s2, x)| (s2, f.at(x))), "c16.lift_m_fmap");
    // a pure value cannot run by itself but maps
    let a = d();
    let pure: Opt<D> = StateT::Pure(a);
    check(panics(|| {
        pure.run_state(s);
    }), "c16.pure_panics");
    let g: Opt<D> = pure.fmap_with(move |x| f.at(x), |m: Option<(D, D)>, g| m.map(|p| g(p)));
    check(matches!(g, StateT::Pure(x) if x == f.at(a)), "c16.pure_fmap");
});
harness!(h_c16_combine, {
    let t = Step::any();
    let u = Step::any();
    let f = Fun2::any();
    let s = d();
    let (m, n) = (t.as_opt(0), u.as_opt(0));
    let c: Opt<D> = m.combine_with(&n, move |x, y| f.at(x, y), |a, b, k| match (a, b) {
        (Some(p), Some(q)) => Some(k(p, q)),
        _ => None,
    });
    let want = match (t.opt(0, s), u.opt(0, s)) {
        (Some((_, x)), Some((s2, y))) => Some((s2, f.at(x, y))),
        _ => None,
    };
    check(c.run_state(s) == want, "c16.combine");
    let ap: Opt<D> = m.apply(n, move |a, b| match (a, b) {
        (Some((_, x)), Some((s2, y))) => Some((s2, f.at(x, y))),
        _ => None,
    });
    check(ap.run_state(s) == want, "c16.apply");
    // lifted operands
    let (p, q) = (Some((d(), d())), Some((d(), d())));
    let (lp, lq): (Opt<D>, Opt<D>) = (StateT::LiftM(p), StateT::LiftM(q));
    let apply = move |a: Option<(D, D)>, b: Option<(D, D)>| match (a, b) {
        (Some((_, x)), Some((s2, y))) => Some((s2, f.at(x, y))),
        _ => None,
    };
    check(lp.apply::<D, D, _>(lq.clone(), apply).run_state(s) == apply(p, q), "c16.apply_lifted");
    check(lp.apply::<D, D, _>(u.as_opt(0), apply).run_state(s) == apply(p, u.opt(0, s)), "c16.apply_mixed");
    check(t.as_opt(0).apply::<D, D, _>(lq.clone(), apply).run_state(s) == apply(t.opt(0, s), q), "c16.apply_mixed");
    let c: Opt<D> = lp.combine_with(&lq, move |x, y| f.at(x, y), |a, b, k| match (a, b) {
        (Some(p), Some(q)) => Some(k(p, q)),
        _ => None,
    });
    check(c.run_state(s).map(|r| r.1) == apply(p, q).map(|r| r.1), "c16.combine_lifted");
    let (x, y) = (d(), d());
    let c: Opt<D> = Opt::<D>::Pure(x).combine_with(&Opt::<D>::Pure(y), move |x, y| f.at(x, y), |a, _, _| a);
    check(matches!(c, StateT::Pure(z) if z == f.at(x, y)), "c16.combine_pure");
});
/// two failing operands can be told apart, and so can the two that are handed over
harness!(h_c16_order__4, {
    let (t, u) = (Step::any(), Step::any());
    let f = Fun2::any();
    let s = d();
    let operand = |lifted: bool, t: Step| if lifted { StateT::LiftM(t.res(3, 3)) } else { t.as_res(0) };
    let direct = |lifted: bool, t: Step| if lifted { t.res(3, 3) } else { t.res(0, s) };
    let c = case(4);
    let (l, r) = (c & 1 == 1, c & 2 == 2);
    let (m, n): (Res<D>, Res<D>) = (operand(l, t), operand(r, u));
    let (p, q) = (direct(l, t), direct(r, u));
    let both = |p: Result<(D, D), D>, q: Result<(D, D), D>| p.and_then(|x| q.map(|y| (x, y)));
    let ap: Res<D> = m.apply::<D, D, _>(n.clone(), move |a, b| both(a, b).map(|(x, y)| (y.0, f.at(x.1, y.1))));
    check(ap.run_state(s) == both(p, q).map(|(x, y)| (y.0, f.at(x.1, y.1))), "c16.apply_order");
    if l == r {
        let cb: Res<D> = m.combine_with(&n, move |x, y| f.at(x, y), move |a, b, k| both(a, b).map(|(x, y)| k(x, y)));
        check(cb.run_state(s).map(|z| z.1) == both(p, q).map(|(x, y)| f.at(x.1, y.1)), "c16.combine_order");
    }
    // once more, from another state
    let s2 = d();
    let again = |lifted: bool, t: Step| if lifted { t.res(3, 3) } else { t.res(0, s2) };
    check(ap.run_state(s2) == both(again(l, t), again(r, u)).map(|(x, y)| (y.0, f.at(x.1, y.1))), "c16.apply_order");
});
harness!(h_c16_join, {
    let t = Step::any();
    let u = Step::any();
    let s = d();
    let nested: StateT<D, Option<(D, Opt<D>)>, Opt<D>> = StateT::new(move |s| t.opt(0, s).map(|(s2, x)| (s2, u.as_opt(x))));
    let flat: StateT<D, Option<(D, D)>, Opt<D>> = nested.join(|m| m.and_then(|(s, inner)| inner.run_state(s)));
    let got = match &flat {
        StateT::Effect(run) => run(s),
        _ => None,
    };
    check(got == t.opt(0, s).and_then(|(s2, x)| u.opt(x, s2)), "c16.join");
});
harness!(h_c16_result, {
    let t = Step::any();
    let k = Step::any();
    let s = d();
    let e = Fun::any();
    let ctx = text(2);
    let m = bind_r(&t.as_res(0), move |x| k.as_res(x));
    let want = t.res(0, s).and_then(|(s2, x)| k.res(x, s2));
    check(m.run_state(s) == want, "c16.result_bind");
    check(m.try_run_state(s) == want.map_err(ComposableError::new), "c16.try_run");
    check(m.try_eval_state(s) == want.map(|p| p.1).map_err(ComposableError::new), "c16.try_eval");
    check(m.try_exec_state(s) == want.map(|p| p.0).map_err(ComposableError::new), "c16.try_exec");
    let with = |x: D| ComposableError::new(x).with_context(ctx.clone());
    check(m.try_run_state_with_context(s, ctx.clone()) == want.map_err(with), "c16.try_run_context");
    check(m.try_eval_state_with_context(s, ctx.clone()) == want.map(|p| p.1).map_err(with), "c16.try_eval_context");
    let me: Res<D> = m.map_error(move |x| e.at(x));
    check(me.run_state(s) == want.map_err(|x| e.at(x)), "c16.map_error");
    let l: Res<D> = StateT::LiftM(want);
    check(l.try_run_state(s) == want.map_err(ComposableError::new), "c16.try_run_lifted");
    check(l.try_run_state_with_context(s, ctx.clone()) == want.map_err(with), "c16.try_run_context_lifted");
    check(l.map_error::<_, D>(move |x| e.at(x)).run_state(s) == want.map_err(|x| e.at(x)), "c16.map_error_lifted");
});
harness!(h_c16_many__3, {
    // several results per step
    let (n, k) = (case(3), case(3));
    let t: Vec<(Fun, Fun)> = (0..n).map(|_| (Fun::any(), Fun::any())).collect();
    let u: Vec<(Fun2, Fun2)> = (0..k).map(|_| (Fun2::any(), Fun2::any())).collect();
    let s = d();
    let at = |s: D| t.iter().map(|p| (p.0.at(s), p.1.at(s))).collect::<Vec<_>>();
    let (t2, u2) = (t.clone(), u.clone());
    let m: Many<D> = StateT::new(move |s| t2.iter().map(|p| (p.0.at(s), p.1.at(s))).collect());
    let b: Many<D> = m.bind_with(
        move |x| {
            let u2 = u2.clone();
            StateT::new(move |s| u2.iter().map(|p| (p.0.at(x, s), p.1.at(x, s))).collect())
        },
        |m: Vec<(D, D)>, k| m.into_iter().flat_map(|p| k(p)).collect(),
    );
    let mut want = vec![];
    for (s2, x) in at(s) {
        for p in &u {
            want.push((p.0.at(x, s2), p.1.at(x, s2)));
        }
    }
    check(m.run_state(s) == at(s), "c16.many_run");
    check(b.run_state(s) == want, "c16.many_bind");
});
fn program(n: usize) {
    let mut m: Opt<D> = Opt::pure(0, Some);
    let mut steps = vec![];
    for _ in 0..n {
        let c = case(4);
        let k = d();
        let t = if c == 3 { Step::any() } else { Step { ok: [0; 16], st: Fun2([0; 16]), val: Fun2([0; 16]) } };
        steps.push((c, k, t));
        m = match c {
            0 => bind_o(&m, |_| Opt::<D>::get(Some)),
            1 => bind_o(&m, move |_| Opt::<D>::put(k, Some)),
            2 => bind_o(&m, move |x| Opt::pure(x ^ k, Some)),
            _ => bind_o(&m, move |x| t.as_opt(x)),
        };
    }
    let run = |s: D| {
        let mut want = Some((s, 0));
        for (c, k, t) in &steps {
            want = want.and_then(|(s, x)| match c {
                0 => Some((s, s)),
                1 => Some((*k, s)),
                2 => Some((s, x ^ *k)),
                _ => t.opt(x, s),
            });
        }
        want
    };
    let (s, s2) = (d(), d());
    check(m.run_state(s) == run(s), "c16.program");
    check(m.clone().run_state(s2) == run(s2), "c16.program_again");
    check(m.run_state(s) == run(s), "c16.program_again");
}
// every kind of step, over a base whose failures can be told apart
fn mixed(n: usize) {
    type Run = std::sync::Arc<dyn Fn(D) -> Result<(D, D), D> + Send + Sync>;
    let t = Step::any();
    let mut m = t.as_res(0);
    let mut run: Run = std::sync::Arc::new(move |s| t.res(0, s));
    for _ in 0..n {
        let r = run.clone();
        (m, run) = match case(6) {
            0 => {
                let f = Fun::any();
                (m.fmap_with(move |x| f.at(x), |m: Result<(D, D), D>, g| m.map(|p| g(p))), std::sync::Arc::new(move |s| r(s).map(|(s, x)| (s, f.at(x)))) as Run)
            }
            1 => {
                let t = Step::any();
                (bind_r(&m, move |x| t.as_res(x)), std::sync::Arc::new(move |s| r(s).and_then(|(s, x)| t.res(x, s))) as Run)
            }
            2 => {
                let t = Step::any();
                (bind_r(&m, move |x| StateT::LiftM(t.res(x, 1))), std::sync::Arc::new(move |s| r(s).and_then(|(_, x)| t.res(x, 1))) as Run)
            }
            3 => {
                let f = Fun::any();
                (m.map_error(move |e| f.at(e)), std::sync::Arc::new(move |s| r(s).map_err(|e| f.at(e))) as Run)
            }
            4 => {
                let (t, f) = (Step::any(), Fun2::any());
                let c = m.combine_with(&t.as_res(1), move |x, y| f.at(x, y), |a: Result<(D, D), D>, b: Result<(D, D), D>, k| a.and_then(|p| b.map(|q| k(p, q))));
                (c, std::sync::Arc::new(move |s| r(s).and_then(|(_, x)| t.res(1, s).map(|(s, y)| (s, f.at(x, y))))) as Run)
            }
            _ => {
                let (t, f) = (Step::any(), Fun2::any());
                let c = t.as_res(1).apply::<D, D, _>(m.clone(), move |a, b| a.and_then(|p| b.map(|q| (q.0, f.at(p.1, q.1)))));
                (c, std::sync::Arc::new(move |s| t.res(1, s).and_then(|(_, x)| r(s).map(|(s, y)| (s, f.at(x, y))))) as Run)
            }
        };
    }
    let (s, s2) = (d(), d());
    check(m.run_state(s) == run(s), "c16.mixed");
    check(m.clone().run_state(s2) == run(s2) && m.run_state(s) == run(s), "c16.mixed_again");
    check(m.try_run_state(s2) == run(s2).map_err(ComposableError::new), "c16.mixed_try");
}
harness!(h_c16_mixed__6, {
    mixed(2);
});
harness!(ht_c16_mixed3__6, {
    mixed(3);
});
// values that own memory
harness!(h_c16_owned__2, {
    let some = case(2) == 1;
    let (s, s2, x) = (d(), d(), d());
    type W = Vec<D>;
    type T = StateT<W, Option<(W, W)>, W>;
    let put = |mut w: W, x: D| {
        w.push(x);
        w
    };
    let m: T = StateT::new(move |s: W| if some { Some((put(s.clone(), x), s)) } else { None });
    let b: T = m.bind_with(move |a| StateT::new(move |s: W| Some(([&s[..], &a[..]].concat(), put(s, x)))), |m: Option<(W, W)>, k| m.and_then(|p| k(p)));
    let f: T = b.fmap_with(move |a| put(a, x), |m: Option<(W, W)>, g| m.map(|p| g(p)));
    let want = |w: W| if some { Some(([&w[..], &[x], &w[..]].concat(), [&w[..], &[x, x, x]].concat())) } else { None };
    check(f.run_state(vec![s]) == want(vec![s]), "c16.owned");
    check(f.run_state(vec![s2, s]) == want(vec![s2, s]) && f.run_state(vec![s]) == want(vec![s]), "c16.owned_again");
});
harness!(h_c16_program__4, {
    program(3);
});
harness!(ht_c16_program4__4, {
    program(4);
});
harness!(h_c16_state, {
    let (f, g) = (Fun::any(), Fun::any());
    let s = d();
    let st: State<D, D> = State::new(move |s| (f.at(s), g.at(s)));
    let t = StateT::<D, Id<(D, D)>, D>::from_state(st);
    check(t.run_state(s).into_inner() == (g.at(s), f.at(s)), "c16.from_state");
    check(t.clone().to_state().run_state(s) == (f.at(s), g.at(s)), "c16.to_state");
});
