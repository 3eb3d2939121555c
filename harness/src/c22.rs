//! C22: a prism matches exactly its case: previewing, building, modifying and setting agree
//! with the functions it was built from, obey the prism laws where those do, leave other cases
//! alone, and composed prisms match the composed case.
//! bound: three-case sums and arbitrary preview/review tables over four-value structures; modifying functions arbitrary tables; compositions of two and three
use crate::harness;
use crate::sx::*;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::prism::Prism;
use rustica::traits::iso::Iso;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Sum {
    A(D),
    B(D),
    C,
}
impl Sum {
    fn any() -> Sum {
        match case(3) {
            0 => Sum::A(d()),
            1 => Sum::B(d()),
            _ => Sum::C,
        }
    }
    fn a(&self) -> Option<D> {
        match self {
            Sum::A(x) => Some(*x),
            _ => None,
        }
    }
}
harness!(h_c22_laws__3, {
    let s = Sum::any();
    let v = d();
    let f = Fun::any();
    let p = Prism::new(Sum::a, |x: &D| Sum::A(*x));
    check(p.preview(&s) == s.a(), "c22.preview");
    check(p.review(&v) == Sum::A(v), "c22.review");
    check(p.preview(&p.review(&v)) == Some(v), "c22.review_preview");
    if let Some(x) = p.preview(&s) {
        check(p.review(&x) == s, "c22.preview_review");
    }
    let want = match &s {
        Sum::A(x) => Sum::A(f.at(*x)),
        o => o.clone(),
    };
    check(p.modify(s.clone(), |x| f.at(x)) == want, "c22.modify");
    check(p.set_if_different(s.clone(), v) == Sum::A(v), "c22.set_if_different");
    let q = Prism::for_case::<(), ()>(Sum::a, |x: &D| Sum::A(*x));
    check(q.preview(&s) == s.a() && q.review(&v) == Sum::A(v), "c22.for_case");
});
harness!(h_c22_any__2, {
    let (hit, g, b) = (Pred::any(), Fun::any(), Fun::any());
    let _ = case(2);
    let builds = Rc::new(Cell::new(0));
    let w = builds.clone();
    let p = Prism::new(
        move |s: &D| if hit.at(*s) { Some(g.at(*s)) } else { None },
        move |a: &D| {
            w.set(w.get() + 1);
            b.at(*a)
        },
    );
    let (s, v) = (d(), d());
    let f = Fun::any();
    check(p.preview(&s) == if hit.at(s) { Some(g.at(s)) } else { None } && builds.get() == 0, "c22.preview");
    check(p.review(&v) == b.at(v) && builds.get() == 1, "c22.review");
    builds.set(0);
    let nv = f.at(g.at(s));
    let change = hit.at(s) && nv != g.at(s);
    check(p.modify(s, |x| f.at(x)) == if change { b.at(nv) } else { s }, "c22.modify");
    check(builds.get() == if change { 1 } else { 0 }, "c22.modify_skips");
    builds.set(0);
    let keep = hit.at(s) && g.at(s) == v;
    check(p.set_if_different(s, v) == if keep { s } else { b.at(v) }, "c22.set_if_different");
    check(builds.get() == if keep { 0 } else { 1 }, "c22.set_skips");
});
/// forward arbitrary and partial, backward arbitrary on Some and None
#[derive(Clone)]
struct Part(Pred, Fun, Fun, D);
impl Part {
    fn any() -> Part {
        Part(Pred::any(), Fun::any(), Fun::any(), d())
    }
}
impl Iso<D, Option<D>> for Part {
    type From = D;
    type To = Option<D>;
    fn forward(&self, s: &D) -> Option<D> {
        if self.0.at(*s) { Some(self.1.at(*s)) } else { None }
    }
    fn backward(&self, a: &Option<D>) -> D {
        match a {
            Some(x) => self.2.at(*x),
            None => self.3,
        }
    }
}
harness!(h_c22_iso, {
    let (p, q) = (Part::any(), Part::any());
    let (s, v) = (d(), d());
    let ip = IsoPrism::new(p.clone());
    check(ip.preview(&s) == p.forward(&s), "c22.iso_preview");
    check(ip.review(&v) == p.2.at(v), "c22.iso_review");
    let c = ip.compose(IsoPrism::new(q.clone()));
    check(c.preview(&s) == p.forward(&s).and_then(|x| q.forward(&x)), "c22.iso_compose_preview");
    check(c.review(&v) == p.2.at(q.2.at(v)), "c22.iso_compose_review");
    check(c.iso.backward(&None) == p.3, "c22.iso_compose_none");
});
harness!(h_c22_once, {
    // the function given to modify runs once, and only on a match
    let hit = Pred::any();
    let p = Prism::new(move |s: &D| if hit.at(*s) { Some(*s) } else { None }, |a: &D| *a);
    let runs = Rc::new(Cell::new(0));
    let (s, f, r) = (d(), Fun::any(), runs.clone());
    let out = p.modify(s, move |v| {
        r.set(r.get() + 1);
        f.at(v)
    });
    check(out == if hit.at(s) { f.at(s) } else { s }, "c22.once");
    check(runs.get() == hit.at(s) as u32, "c22.once");
});
harness!(h_c22_three, {
    let (p, q, r) = (Part::any(), Part::any(), Part::any());
    let (s, s2, v) = (d(), d(), d());
    let c = IsoPrism::new(p.clone()).compose(IsoPrism::new(q.clone()));
    let l = c.compose(IsoPrism::new(r.clone()));
    let want = |s: D| p.forward(&s).and_then(|x| q.forward(&x)).and_then(|x| r.forward(&x));
    check(l.preview(&s) == want(s) && l.preview(&s2) == want(s2) && l.preview(&s) == want(s), "c22.three_preview");
    check(l.review(&v) == p.2.at(q.2.at(r.2.at(v))), "c22.three_review");
    let inner = IsoPrism::new(q.clone()).compose(IsoPrism::new(r.clone()));
    let k = IsoPrism::new(p.clone()).compose(inner);
    check(k.preview(&s) == want(s) && k.review(&v) == p.2.at(q.2.at(r.2.at(v))), "c22.three_assoc");
});
// a focus that owns memory, and the same prism on several values
harness!(h_c22_owned__3, {
    #[derive(Clone, Debug, PartialEq)]
    enum Doc {
        Words(Vec<D>),
        Number(D),
        Empty,
    }
    let (x, y, v) = (d(), d(), d());
    let n = case(3);
    let doc = |n: usize, x: D| match n {
        0 => Doc::Words(vec![x, y]),
        1 => Doc::Number(x),
        _ => Doc::Empty,
    };
    let p = Prism::new(
        |s: &Doc| match s {
            Doc::Words(w) => Some(w.clone()),
            _ => None,
        },
        |w: &Vec<D>| Doc::Words(w.clone()),
    );
    let s = doc(n, x);
    let words = |x: D| if n == 0 { Some(vec![x, y]) } else { None };
    check(p.preview(&s) == words(x), "c22.owned_preview");
    check(p.preview(&doc(n, v)) == words(v) && p.preview(&s) == words(x), "c22.owned_again");
    check(p.review(&vec![v, x]) == Doc::Words(vec![v, x]), "c22.owned_review");
    let m = p.modify(s.clone(), |mut w| {
        w.push(v);
        w
    });
    check(m == if n == 0 { Doc::Words(vec![x, y, v]) } else { s.clone() }, "c22.owned_modify");
    check(p.modify(m.clone(), |w| w) == m, "c22.owned_modify_identity");
    check(p.set_if_different(s.clone(), vec![v, y]) == Doc::Words(vec![v, y]), "c22.owned_set");
});
