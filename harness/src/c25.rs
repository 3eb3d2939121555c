//! C25: function morphisms compose associatively with identity, arrows act on the chosen
//! component only, and conditional, sequenced, composed and piped functions run their parts in
//! the stated order.
//! bound: functions and predicates arbitrary tables over a four-value domain; sequences of 0..=4, 5, 8, 9, 12 and 40 functions, compose! and pipe! of 1..=4
use crate::harness;
use crate::sx::*;
use rustica::category::function_category::{FunctionCategory as F, FunctionMorphism};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::{compose, function, pipe};
use std::sync::Arc;

type M = FunctionMorphism<D, D>;
fn m(f: Fun) -> M {
    F::arrow(move |x: D| f.at(x))
}
harness!(h_c25_category, {
    let (f, g, h) = (Fun::any(), Fun::any(), Fun::any());
    let x = d();
    check(F::identity_morphism::<D>()(x) == x, "c25.identity");
    check(m(f)(x) == f.at(x) && F::lift(move |x: D| f.at(x))(x) == f.at(x), "c25.arrow");
    check(F::compose_morphisms(&m(g), &m(f))(x) == g.at(f.at(x)), "c25.compose");
    check(F::compose_morphisms(&m(f), &F::identity_morphism())(x) == f.at(x), "c25.right_id");
    check(F::compose_morphisms(&F::identity_morphism(), &m(f))(x) == f.at(x), "c25.left_id");
    let l = F::compose_morphisms(&F::compose_morphisms(&m(h), &m(g)), &m(f));
    let r = F::compose_morphisms(&m(h), &F::compose_morphisms(&m(g), &m(f)));
    check(l(x) == h.at(g.at(f.at(x))) && r(x) == l(x), "c25.assoc");
});
harness!(h_c25_arrow, {
    let (f, g) = (Fun::any(), Fun::any());
    let (x, y) = (d(), d());
    check(F::first::<D, D, D>(&m(f))((x, y)) == (f.at(x), y), "c25.first");
    check(F::second::<D, D, D>(&m(f))((x, y)) == (x, f.at(y)), "c25.second");
    check(F::split(&m(f), &m(g))(x) == (f.at(x), g.at(x)), "c25.split");
    check(F::combine_morphisms(&m(f), &m(g))((x, y)) == (f.at(x), g.at(y)), "c25.combine");
    check(F::both(move |a: D| f.at(a))((x, y)) == (f.at(x), f.at(y)), "c25.both");
    // mixed types keep components apart
    let p: FunctionMorphism<D, bool> = F::arrow(move |a: D| f.at(a) == 1);
    check(F::combine_morphisms(&p, &m(g))((x, y)) == (f.at(x) == 1, g.at(y)), "c25.combine");
    check(F::first::<D, bool, Vec<D>>(&p)((x, vec![y])) == (f.at(x) == 1, vec![y]), "c25.first");
    check(F::second::<D, bool, Vec<D>>(&p)((vec![y], x)) == (vec![y], f.at(x) == 1), "c25.second");
});
harness!(h_c25_conditional, {
    let (f, g, p) = (Fun::any(), Fun::any(), Pred::any());
    let x = d();
    check(F::when(move |a: &D| p.at(*a), move |a| f.at(a))(x) == if p.at(x) { f.at(x) } else { x }, "c25.when");
    let y = f.at(x);
    let want = if p.at(y) { g.at(y) } else { y };
    check(F::then_if(&m(f), &m(g), move |a: &D| p.at(*a))(x) == want, "c25.then_if");
    #[allow(deprecated)]
    let c = F::compose_when(&m(f), &m(g), move |a: &D| p.at(*a));
    check(c(x) == want, "c25.compose_when");
});
harness!(h_c25_once, {
    // no part runs when built; each part runs once per call, and only if it applies
    let (f, g, p) = (Fun::any(), Fun::any(), Pred::any());
    let (x, y) = (d(), d());
    let (s, t) = (Trace::default(), Trace::default());
    let (s1, t1) = (s.clone(), t.clone());
    let (a, b): (M, M) = (F::arrow(move |x: D| f.at(s1.see(x))), F::arrow(move |x: D| g.at(t1.see(x))));
    let saw = |u: &[D], v: &[D]| (s.take() == u) & (t.take() == v);
    let m = F::compose_morphisms(&b, &a);
    check(saw(&[], &[]), "c25.built");
    m(x);
    check(saw(&[x], &[f.at(x)]), "c25.compose_once");
    let m = F::first::<D, D, D>(&a);
    m((x, y));
    let m = F::second::<D, D, D>(&b);
    m((x, y));
    check(saw(&[x], &[y]), "c25.component_once");
    let m = F::split(&a, &b);
    m(y);
    check(saw(&[y], &[y]), "c25.split_once");
    let m = F::combine_morphisms(&a, &b);
    m((x, y));
    check(saw(&[x], &[y]), "c25.combine_once");
    // of two parts side by side, the first runs first
    let (u, v) = (s.clone(), s.clone());
    let (l, r): (M, M) = (F::arrow(move |x: D| u.see(f.at(x))), F::arrow(move |x: D| v.see(g.at(x))));
    let m = F::split(&l, &r);
    m(y);
    check(saw(&[f.at(y), g.at(y)], &[]), "c25.split_order");
    let m = F::combine_morphisms(&l, &r);
    m((x, y));
    check(saw(&[f.at(x), g.at(y)], &[]), "c25.combine_order");
    let u = s.clone();
    let m = F::both(move |a: D| u.see(a));
    m((x, y));
    check(saw(&[x, y], &[]), "c25.both_once");
    let (u, v) = (s.clone(), t.clone());
    let m = F::when(move |a: &D| p.at(u.see(*a)), move |a| v.see(a));
    m(x);
    let e = if p.at(x) { vec![x] } else { vec![] };
    check(saw(&[x], &e), "c25.when_once");
    let m = F::then_if(&a, &b, move |a: &D| p.at(*a));
    m(x);
    let z = f.at(x);
    let e = if p.at(z) { vec![z] } else { vec![] };
    check(saw(&[x], &e), "c25.then_if_once");
    let u = s.clone();
    let m = F::sequence((0..5).map(|_| { let u = u.clone(); move |x: D| u.see(f.at(x)) }).collect());
    check(saw(&[], &[]), "c25.built");
    m(x);
    let mut e = vec![f.at(x)];
    for i in 0..4 {
        e.push(f.at(e[i]));
    }
    check(saw(&e, &[]), "c25.sequence_once");
    let (u, v, w) = (s.clone(), s.clone(), t.clone());
    let m = pipe!(move |x: D| u.see(x), move |x: D| w.see(f.at(x)), move |x: D| v.see(g.at(x)));
    check(saw(&[], &[]), "c25.built");
    m(x);
    check(saw(&[x, g.at(z)], &[z]), "c25.pipe_once");
});
harness!(h_c25_sequence__5, {
    let n = case(5);
    let mut fs = vec![];
    for _ in 0..n {
        fs.push(Fun::any());
    }
    let x = d();
    let mut want = x;
    for f in &fs {
        want = f.at(want);
    }
    let boxed: Vec<Box<dyn Fn(D) -> D>> = fs.iter().map(|f| {
        let f = *f;
        Box::new(move |a: D| f.at(a)) as Box<dyn Fn(D) -> D>
    }).collect();
    check(F::sequence(boxed)(x) == want, "c25.sequence");
});
harness!(h_c25_macros, {
    let (f, g, h, k) = (Fun::any(), Fun::any(), Fun::any(), Fun::any());
    let x = d();
    let (a, b, c, e) = (move |x: D| f.at(x), move |x: D| g.at(x), move |x: D| h.at(x), move |x: D| k.at(x));
    check(compose!(a)(x) == a(x) && pipe!(a)(x) == a(x), "c25.macro_one");
    check(compose!(a, b)(x) == a(b(x)), "c25.macro_compose");
    check(compose!(a, b, c)(x) == a(b(c(x))), "c25.macro_compose");
    check(compose!(a, b, c, e)(x) == a(b(c(e(x)))), "c25.macro_compose");
    check(pipe!(a, b)(x) == b(a(x)), "c25.macro_pipe");
    check(pipe!(a, b, c)(x) == c(b(a(x))), "c25.macro_pipe");
    check(pipe!(a, b, c, e)(x) == e(c(b(a(x)))), "c25.macro_pipe");
    function!(q: D => D = move |x: D| f.at(x));
    check(q(x) == f.at(x), "c25.macro_function");
    let _: Arc<dyn Fn(D) -> D> = m(f);
});
harness!(h_c25_sequence_long__5, {
    let n = [5, 8, 9, 12, 40][case(5)];
    // each function appends its own mark
    let boxed: Vec<Box<dyn Fn(Vec<D>) -> Vec<D>>> = (0..n)
        .map(|_| {
            let m = d();
            Box::new(move |mut v: Vec<D>| {
                v.push(m);
                v
            }) as Box<dyn Fn(Vec<D>) -> Vec<D>>
        })
        .collect();
    let mut want = vec![];
    for f in &boxed {
        want = f(want);
    }
    let s = F::sequence(boxed);
    check(s(vec![]) == want && s(vec![]) == want, "c25.sequence");
});

/// A category of plain functions that takes every default method.
struct Plain;
type CM<A, B> = std::rc::Rc<dyn Fn(A) -> B>;
impl Category for Plain {
    type Morphism<A, B> = CM<A, B>;
    fn identity_morphism<A>() -> CM<A, A> {
        std::rc::Rc::new(|x| x)
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &CM<B, C>, f: &CM<A, B>) -> CM<A, C> {
        let (f, g) = (f.clone(), g.clone());
        std::rc::Rc::new(move |x| g(f(x)))
    }
}
impl Arrow for Plain {
    fn arrow<B, C, G: Fn(B) -> C + 'static>(f: G) -> CM<B, C> {
        std::rc::Rc::new(f)
    }
    fn first<B: 'static, C: 'static, E: 'static>(f: &CM<B, C>) -> CM<(B, E), (C, E)> {
        let f = f.clone();
        std::rc::Rc::new(move |(b, e)| (f(b), e))
    }
    fn second<B: 'static, C: 'static, E: 'static>(f: &CM<B, C>) -> CM<(E, B), (E, C)> {
        let f = f.clone();
        std::rc::Rc::new(move |(e, b)| (e, f(b)))
    }
    fn combine_morphisms<B: 'static, C: 'static, E: 'static, G: 'static>(f: &CM<B, C>, g: &CM<E, G>) -> CM<(B, E), (C, G)> {
        let (f, g) = (f.clone(), g.clone());
        std::rc::Rc::new(move |(b, e)| (f(b), g(e)))
    }
}
harness!(h_c25_default_arrow, {
    let (f, g) = (Fun::any(), Fun::any());
    let x = d();
    let p: CM<D, D> = Plain::arrow(move |a: D| f.at(a));
    let q: CM<D, bool> = Plain::arrow(move |a: D| g.at(a) == 1);
    let m = Plain::split(&p, &q);
    check(m(x) == (f.at(x), g.at(x) == 1), "c25.default_split");
    let s = Trace::default();
    let (u, v) = (s.clone(), s.clone());
    let (p, q): (CM<D, D>, CM<D, D>) = (Plain::arrow(move |a: D| u.see(f.at(a))), Plain::arrow(move |a: D| v.see(g.at(a))));
    let m = Plain::split(&p, &q);
    check(s.take().is_empty(), "c25.built");
    m(x);
    check(s.take() == [f.at(x), g.at(x)], "c25.default_split_order");
});
