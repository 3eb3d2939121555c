//! C17: a reader hands the environment to every step unchanged: asking, selecting, modifying it
//! locally, mapping, binding and combining give what the same functions give directly; over a
//! base that may fail the base's sequencing decides, and values with owned memory survive.
//! bound: environments and values in a four-value domain, functions arbitrary tables, values also owned lists (the sequence of steps that produced them); bases Id, Option, Result, Validated, Choice (0..=2 results); programs of up to 4 (thorough 5) steps, and of 2 (thorough 3) over Result, run with two environments and again
//! assume: base operations handed in (map, bind, combine) are the base's own
use crate::harness;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::validated::Validated;
use rustica::error::ComposableError;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::transformers::{lift, MonadTransformer, ReaderT};

type R = Reader<D, D>;
type Word = Vec<D>;
fn push(mut w: Word, x: D) -> Word {
    w.push(x);
    w
}

harness!(h_c17_reader, {
    let f = Fun::any();
    let g = Fun::any();
    let b = Fun2::any();
    let c = Fun2::any();
    let e = d();
    let r: R = Reader::new(move |e| f.at(e));
    check(r.run_reader(e) == f.at(e), "c17.run");
    check(r.clone().run_reader(e) == f.at(e), "c17.clone");
    check(R::ask().run_reader(e) == e, "c17.ask");
    check(R::asks(move |e| f.at(e)).run_reader(e) == f.at(e), "c17.asks");
    check(R::ask_transform(move |e| f.at(e)).run_reader(e) == f.at(e), "c17.asks");
    check(R::ask_with(move |e| f.at(*e), move |a| Id::new(g.at(a))).run_reader(e) == g.at(f.at(e)), "c17.ask_with");
    check(r.fmap(move |a| g.at(a)).run_reader(e) == g.at(f.at(e)), "c17.fmap");
    check(r.fmap(|a| a).run_reader(e) == f.at(e), "c17.fmap_identity");
    check(r.local(move |e| g.at(e)).run_reader(e) == f.at(g.at(e)), "c17.local");
    let k = move |a: D| -> R { Reader::new(move |e| b.at(a, e)) };
    let l = move |a: D| -> R { Reader::new(move |e| c.at(a, e)) };
    check(r.bind(k).run_reader(e) == b.at(f.at(e), e), "c17.bind");
    check(r.bind(k).bind(l).run_reader(e) == r.bind(move |a| k(a).bind(l)).run_reader(e), "c17.assoc");
    check(r.bind(|a| Reader::new(move |_| a)).run_reader(e) == f.at(e), "c17.right_id");
    let a = d();
    check(R::new(move |_| a).bind(k).run_reader(e) == b.at(a, e), "c17.left_id");
    let o: R = Reader::new(move |e| g.at(e));
    check(r.combine(&o, move |x, y| b.at(x, y)).run_reader(e) == b.at(f.at(e), g.at(e)), "c17.combine");
    // local reaches every step inside and none outside
    let h = Fun::any();
    check(r.bind(k).local(move |e| h.at(e)).run_reader(e) == b.at(f.at(h.at(e)), h.at(e)), "c17.local_bind");
    check(r.local(move |e| h.at(e)).bind(k).run_reader(e) == b.at(f.at(h.at(e)), e), "c17.local_scope");
    let t: R = ReaderT::new(move |e: D| Id::new(f.at(e))).into();
    check(t.run_reader(e) == f.at(e), "c17.from_reader_t");
    // nothing runs when built; each run runs each step once
    let s = Trace::default();
    let (s0, s1, s2, s3, s4, s5) = (s.clone(), s.clone(), s.clone(), s.clone(), s.clone(), s.clone());
    let r0: R = Reader::new(move |e| { s0.see(0); f.at(e) });
    let m = r0.fmap(move |a| { s1.see(1); g.at(a) });
    let m = m.bind(move |a| { s2.see(2); let s3 = s3.clone(); Reader::new(move |e| { s3.see(3); b.at(a, e) }) });
    let m = m.local(move |e| { s4.see(4); h.at(e) });
    let n = m.combine(&r0, move |x, y| { s5.see(5); c.at(x, y) });
    check(s.take().is_empty(), "c17.built");
    let he = h.at(e);
    let want = b.at(g.at(f.at(he)), he);
    check(m.run_reader(e) == want && s.take() == [4, 0, 1, 2, 3], "c17.once");
    check(n.run_reader(e) == c.at(want, f.at(e)), "c17.once_combine");
    let t = s.take();
    check(t.len() == 7 && t.iter().filter(|x| **x == 0).count() == 2 && t[6] == 5, "c17.once_combine");
    let e2 = d();
    check(r.run_reader(e2) == f.at(e2) && r.run_reader(e) == f.at(e), "c17.rerun");
});
fn program(n: usize) {
    let mut r: R = R::ask();
    let mut steps: Vec<(usize, Fun2, Fun)> = vec![];
    for _ in 0..n {
        let s = case(4);
        let (b, f) = match s {
            0 => (Fun2([0; 16]), Fun::any()),
            2 => (Fun2([0; 16]), Fun::any()),
            _ => (Fun2::any(), Fun([0; 4])),
        };
        steps.push((s, b, f));
        r = match s {
            0 => r.fmap(move |a| f.at(a)),
            1 => r.bind(move |a| Reader::new(move |e| b.at(a, e))),
            2 => r.local(move |e| f.at(e)),
            _ => r.combine(&R::ask(), move |x, y| b.at(x, y)),
        };
    }
    fn run(steps: &[(usize, Fun2, Fun)], e: D) -> D {
        match steps.split_last() {
            None => e,
            Some(((0, _, f), rest)) => f.at(run(rest, e)),
            Some(((2, _, f), rest)) => run(rest, f.at(e)),
            Some(((_, b, _), rest)) => b.at(run(rest, e), e),
        }
    }
    let (e, e2) = (d(), d());
    check(r.run_reader(e) == run(&steps, e), "c17.program");
    check(r.clone().run_reader(e2) == run(&steps, e2) && r.run_reader(e) == run(&steps, e), "c17.program_again");
}
harness!(h_c17_program__4, {
    program(4);
});
harness!(ht_c17_program5__4, {
    program(5);
});

/// values that own memory
harness!(h_c17_owned, {
    let e = d();
    let (x, y) = (d(), d());
    let r: Reader<D, Word> = Reader::new(move |e| vec![e, x]);
    check(r.run_reader(e) == vec![e, x], "c17.run_owned");
    check(r.fmap(move |w| push(w, y)).run_reader(e) == vec![e, x, y], "c17.fmap_owned");
    check(r.bind(move |w| Reader::new(move |e2| push(w.clone(), e2))).run_reader(e) == vec![e, x, e], "c17.bind_owned");
    check(r.combine(&r, |a, b| [a, b].concat()).run_reader(e) == vec![e, x, e, x], "c17.combine_owned");
});
harness!(h_c17_t_owned__2, {
    let some = case(2) == 1;
    let e = d();
    let (x, y) = (d(), d());
    type T = ReaderT<D, Option<Word>, Word>;
    let r: T = ReaderT::new(move |e| if some { Some(vec![e, x]) } else { None });
    let want = |v: Vec<D>| if some { Some(v) } else { None };
    check(r.fmap(move |w| push(w, y)).run_reader(e) == want(vec![e, x, y]), "c17.t_fmap_owned");
    let b: T = r.bind(move |w| ReaderT::new(move |e2| Some(push(w.clone(), e2))));
    check(b.run_reader(e) == want(vec![e, x, e]), "c17.t_bind_owned");
    let c: T = r.combine(&r, |a, b| [a, b].concat());
    check(c.run_reader(e) == want(vec![e, x, e, x]), "c17.t_combine_owned");
});

/// (a, e) -> failure or value
#[derive(Clone, Copy)]
struct Part {
    ok: [u8; 16],
    val: Fun2,
}
impl Part {
    fn any() -> Part {
        let mut ok = [0; 16];
        for o in &mut ok {
            *o = bits(1) as u8;
        }
        Part { ok, val: Fun2::any() }
    }
    fn res(&self, a: D, e: D) -> Result<D, D> {
        if self.ok[((a & 3) * 4 + (e & 3)) as usize] == 1 { Ok(self.val.at(a, e)) } else { Err(self.val.at(a, e)) }
    }
    fn opt(&self, a: D, e: D) -> Option<D> {
        self.res(a, e).ok()
    }
}
type O = ReaderT<D, Option<D>, D>;
harness!(h_c17_option, {
    let t = Part::any();
    let k = Part::any();
    let u = Part::any();
    let (f, b, h) = (Fun::any(), Fun2::any(), Fun::any());
    let e = d();
    let r: O = ReaderT::new(move |e| t.opt(0, e));
    let at = |a: D| -> O { ReaderT::new(move |e| k.opt(a, e)) };
    let _ = at;
    let m = t.opt(0, e);
    check(r.run_reader(e) == m && r.clone().run_reader(e) == m && r.clone().unwrap_with(e) == m, "c17.t_run");
    check(O::ask(Some).run_reader(e) == Some(e), "c17.t_ask");
    check(O::asks(move |e| f.at(e), Some).run_reader(e) == Some(f.at(e)), "c17.t_asks");
    check(O::ask_with(move |e: &D| f.at(*e), Some).run_reader(e) == Some(f.at(e)), "c17.t_asks");
    check(O::asks_with(move |e: &D| f.at(*e), move |a| h.at(a), Some).run_reader(e) == Some(h.at(f.at(e))), "c17.t_asks_with");
    check(r.local(move |e| h.at(e)).run_reader(e) == t.opt(0, h.at(e)), "c17.t_local");
    check(O::pure(e, Some).run_reader(d()) == Some(e), "c17.t_pure");
    let p = opt_d();
    let l: O = lift(p);
    let l2: O = MonadTransformer::lift(p);
    check(l.run_reader(e) == p && l2.run_reader(e) == p, "c17.t_lift");
    let fm: O = r.fmap_with(move |x| f.at(x), |m, f| m.map(f));
    check(fm.run_reader(e) == m.map(|x| f.at(x)), "c17.t_fmap_with");
    let fm: O = r.fmap(move |x| f.at(x));
    check(fm.run_reader(e) == m.map(|x| f.at(x)), "c17.t_fmap");
    let bw: O = r.bind_with(move |a| ReaderT::new(move |e| k.opt(a, e)), |m: Option<D>, k| m.and_then(|a| k(a)));
    let want = m.and_then(|a| k.opt(a, e));
    check(bw.run_reader(e) == want, "c17.t_bind_with");
    let bd: O = r.bind(move |a| ReaderT::new(move |e| k.opt(a, e)));
    check(bd.run_reader(e) == want, "c17.t_bind");
    let o: O = ReaderT::new(move |e| u.opt(1, e));
    let both = match (m, u.opt(1, e)) {
        (Some(x), Some(y)) => Some(b.at(x, y)),
        _ => None,
    };
    let c: O = r.combine(&o, move |x, y| b.at(x, y));
    check(c.run_reader(e) == both, "c17.t_combine");
    let c: O = r.combine_with(&o, move |x, y| b.at(x, y), |m, n, f| match (m, n) {
        (Some(x), Some(y)) => Some(f(&x, &y)),
        _ => None,
    });
    check(c.run_reader(e) == both, "c17.t_combine_with");
    let l = r.lift2::<D, D, _, _>(move |x, y| b.at(x, y), |m, n, f| match (m, n) {
        (Some(x), Some(y)) => Some(f(x, y)),
        _ => None,
    });
    check(l(&r, &o).run_reader(e) == both, "c17.t_lift2");
    check(l(&o, &r).run_reader(e) == match (u.opt(1, e), m) {
        (Some(x), Some(y)) => Some(b.at(x, y)),
        _ => None,
    }, "c17.t_lift2");
});
harness!(h_c17_assoc, {
    let t = Part::any();
    let k = Part::any();
    let l = Part::any();
    let e = d();
    let r: ReaderT<D, Result<D, D>, D> = ReaderT::new(move |e| t.res(0, e));
    let want = t.res(0, e).and_then(|a| k.res(a, e)).and_then(|a| l.res(a, e));
    let x: ReaderT<D, Result<D, D>, D> = r.bind(move |a| ReaderT::new(move |e| k.res(a, e)));
    let x: ReaderT<D, Result<D, D>, D> = x.bind(move |a| ReaderT::new(move |e| l.res(a, e)));
    let y: ReaderT<D, Result<D, D>, D> = r.bind(move |a| {
        let i: ReaderT<D, Result<D, D>, D> = ReaderT::new(move |e| k.res(a, e));
        i.bind(move |a| ReaderT::new(move |e| l.res(a, e)))
    });
    check(x.run_reader(e) == want && y.run_reader(e) == want, "c17.t_assoc");
});
harness!(h_c17_result, {
    let t = Part::any();
    let e = d();
    let f = Fun::any();
    let ctx = text(2);
    let r: ReaderT<D, Result<D, D>, D> = ReaderT::new(move |e| t.res(0, e));
    let m = t.res(0, e);
    check(r.try_run_reader(e) == m.map_err(ComposableError::new), "c17.try_run");
    check(r.try_run_reader_with_context(e, ctx.clone()) == m.map_err(|x| ComposableError::new(x).with_context(ctx.clone())), "c17.try_run_context");
    check(r.map_error(move |x| f.at(x)).run_reader(e) == m.map_err(|x| f.at(x)), "c17.map_error");
});

fn t_program(n: usize) {
    type T = ReaderT<D, Result<D, D>, D>;
    type Run = std::sync::Arc<dyn Fn(D) -> Result<D, D> + Send + Sync>;
    let p = Part::any();
    let mut m: T = ReaderT::new(move |e| p.res(0, e));
    let mut run: Run = std::sync::Arc::new(move |e| p.res(0, e));
    for _ in 0..n {
        let r = run.clone();
        (m, run) = match case(6) {
            0 => {
                let f = Fun::any();
                (m.fmap(move |x| f.at(x)), std::sync::Arc::new(move |e| r(e).map(|x| f.at(x))) as Run)
            }
            1 => {
                let p = Part::any();
                (m.bind(move |x| ReaderT::new(move |e| p.res(x, e))), std::sync::Arc::new(move |e| r(e).and_then(|x| p.res(x, e))) as Run)
            }
            2 => {
                let f = Fun::any();
                (m.local(move |e| f.at(e)), std::sync::Arc::new(move |e| r(f.at(e))) as Run)
            }
            3 => {
                let f = Fun::any();
                (m.map_error(move |e| f.at(e)), std::sync::Arc::new(move |e| r(e).map_err(|e| f.at(e))) as Run)
            }
            4 => {
                let (p, f) = (Part::any(), Fun2::any());
                let o: T = ReaderT::new(move |e| p.res(1, e));
                (m.combine(&o, move |x, y| f.at(x, y)), std::sync::Arc::new(move |e| r(e).and_then(|x| p.res(1, e).map(|y| f.at(x, y)))) as Run)
            }
            _ => {
                let (p, f) = (Part::any(), Fun2::any());
                let o: T = ReaderT::new(move |e| p.res(1, e));
                (o.combine(&m, move |x, y| f.at(x, y)), std::sync::Arc::new(move |e| p.res(1, e).and_then(|x| r(e).map(|y| f.at(x, y)))) as Run)
            }
        };
    }
    let (e, e2) = (d(), d());
    check(m.run_reader(e) == run(e), "c17.t_program");
    check(m.clone().run_reader(e2) == run(e2) && m.run_reader(e) == run(e), "c17.t_program_again");
    check(m.try_run_reader(e2) == run(e2).map_err(ComposableError::new), "c17.t_program_try");
}
harness!(h_c17_t_program__6, {
    t_program(2);
});
harness!(ht_c17_t_program3__6, {
    t_program(3);
});

/// every operation over a base whose failures, or whose several results, can be told apart
macro_rules! over {
    ($name:ident, $m:ty, $part:expr, $step:expr, $run:expr, $map:expr, $then:expr, $both:expr) => {
        harness!($name, {
            type T = ReaderT<D, $m, D>;
            let (r, o, k) = ($part, $part, $step);
            let (f, b, h) = (Fun::any(), Fun2::any(), Fun::any());
            let e = d();
            let (r2, o2, k2) = (r.clone(), o.clone(), k.clone());
            let (x, y): (T, T) = (ReaderT::new(move |e| $run(&r2, 0, e)), ReaderT::new(move |e| $run(&o2, 1, e)));
            let (p, q) = ($run(&r, 0, e), $run(&o, 1, e));
            let mapped = $map(p.clone(), &|v| f.at(v));
            check(x.fmap(move |v| f.at(v)).run_reader(e) == mapped, "c17.t_fmap");
            let t: T = x.fmap_with(move |v| f.at(v), |m, f| $map(m, &|v| f(v)));
            check(t.run_reader(e) == mapped, "c17.t_fmap_with");
            let step = move |v: D| -> T {
                let k2 = k2.clone();
                ReaderT::new(move |e| $run(&k2, v, e))
            };
            let bound = $then(p.clone(), &|v| $run(&k, v, e));
            let t: T = x.bind(step.clone());
            check(t.run_reader(e) == bound, "c17.t_bind");
            let t: T = x.bind_with(step.clone(), |m: $m, k| $then(m, &|v| k(v)));
            check(t.run_reader(e) == bound, "c17.t_bind_with");
            let there = $both(&p, &q, &|v, w| b.at(v, w));
            let t: T = x.combine(&y, move |v, w| b.at(v, w));
            check(t.run_reader(e) == there, "c17.t_combine");
            let t: T = x.combine_with(&y, move |v, w| b.at(v, w), |m: $m, n: $m, f| $both(&m, &n, &|v, w| f(&v, &w)));
            check(t.run_reader(e) == there, "c17.t_combine_with");
            let l = x.lift2::<D, D, _, _>(move |v, w| b.at(v, w), |m: $m, n: $m, f| $both(&m, &n, &|v, w| f(v, w)));
            check(l(&x, &y).run_reader(e) == there, "c17.t_lift2");
            let back = $both(&q, &p, &|w, v| b.at(w, v));
            check(l(&y, &x).run_reader(e) == back, "c17.t_lift2");
            // applying: the values' results come first, the functions' second
            let fs: ReaderT<D, $m, fn(D) -> D> = {
                let o2 = o.clone();
                ReaderT::new(move |e| $run(&o2, 1, e))
            };
            let t: T = x.apply_with(&fs, move |m: $m, n: $m| $both(&m, &n, &|v, w| b.at(v, w)));
            check(t.run_reader(e) == there, "c17.t_apply_with");
            // a local change is seen by the wrapped computation only
            let t: T = x.local(move |e| h.at(e)).combine(&y, move |v, w| b.at(v, w));
            check(t.run_reader(e) == $both(&$run(&r, 0, h.at(e)), &q, &|v, w| b.at(v, w)), "c17.t_local_combine");
            let t: T = x.local(move |e| h.at(e)).bind(step.clone());
            check(t.run_reader(e) == $then($run(&r, 0, h.at(e)), &|v| $run(&k, v, e)), "c17.t_local_bind");
            let t: T = x.bind(step).local(move |e| h.at(e));
            check(t.run_reader(e) == $then($run(&r, 0, h.at(e)), &|v| $run(&k, v, h.at(e))), "c17.t_bind_local");
            let l: T = lift(p.clone());
            check(l.run_reader(d()) == p && x.clone().unwrap_with(e) == p, "c17.t_lift");
        });
    };
}
type Res = Result<D, D>;
over!(h_c17_over_result, Res, Part::any(), Part::any(), |p: &Part, v, e| p.res(v, e), |m: Res, f: &dyn Fn(D) -> D| m.map(f), |m: Res, f: &dyn Fn(D) -> Res| m.and_then(f), |m: &Res, n: &Res, f: &dyn Fn(D, D) -> D| m.and_then(|x| n.map(|y| f(x, y))));
type Val = Validated<D, D>;
over!(
    h_c17_over_validated,
    Val,
    Part::any(),
    Part::any(),
    |p: &Part, v, e| match p.res(v, e) {
        Ok(x) => Val::Valid(x),
        Err(x) => Val::invalid_many([x, e]),
    },
    |m: Val, f: &dyn Fn(D) -> D| m.fmap(|x| f(*x)),
    |m: Val, f: &dyn Fn(D) -> Val| m.bind(|x| f(*x)),
    |m: &Val, n: &Val, f: &dyn Fn(D, D) -> D| match (m, n) {
        (Val::Valid(x), Val::Valid(y)) => Val::Valid(f(*x, *y)),
        _ => Val::invalid_many(m.errors().into_iter().chain(n.errors())),
    }
);
/// (a, e) -> no, one or two results
#[derive(Clone, Copy)]
struct Several {
    n: [usize; 2],
    val: [Fun2; 2],
}
impl Several {
    fn of(a: usize, b: usize) -> Several {
        Several { n: [a, b], val: [Fun2::any(), Fun2::any()] }
    }
    fn any() -> Several {
        let n = case(3);
        Several::of(n, n)
    }
    fn at(&self, v: D, e: D) -> Choice<D> {
        let n = if self.n[0] == self.n[1] { self.n[0] } else { self.n[concrete((v & 1) as usize)] };
        self.val[..n].iter().map(|f| f.at(v, e)).collect()
    }
}
over!(
    h_c17_over_choice__3,
    Choice<D>,
    Several::any(),
    Several::of(2, 0),
    |p: &Several, v, e| p.at(v, e),
    |m: Choice<D>, f: &dyn Fn(D) -> D| m.fmap(|x| f(*x)),
    |m: Choice<D>, f: &dyn Fn(D) -> Choice<D>| m.bind(|x| f(*x)),
    |m: &Choice<D>, n: &Choice<D>, f: &dyn Fn(D, D) -> D| Choice::<D>::lift2(|x: &D, y: &D| f(*x, *y), m, n)
);
