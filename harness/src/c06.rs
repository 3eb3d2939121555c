//! C06: predicates combine as the sets they describe: union, intersection, difference and
//! complement, in methods, operators and as a monoid.
//! bound: predicates are arbitrary truth tables over a four-value domain; every formula below over three of them, at every point; operators nested two deep; unions and intersections of 8, 16, 17, 40 parts decided by one of them, mixed formulas of that depth over three predicates
use crate::harness;
use crate::sx::*;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::monoid::{self, Monoid};
use rustica::traits::semigroup::{Semigroup, SemigroupExt};

harness!(h_c06_sets, {
    let (tp, tq, tr) = (Pred::any(), Pred::any(), Pred::any());
    let p = Predicate::new(move |x: &D| tp.at(*x));
    let q = Predicate::new(move |x: &D| tq.at(*x));
    let r = Predicate::new(move |x: &D| tr.at(*x));
    let x = d();
    let (a, b, c) = (tp.at(x), tq.at(x), tr.at(x));
    check(p.contains(&x) == a, "c06.contains");
    check(p.union(&q).contains(&x) == (a | b), "c06.union");
    check(p.intersection(&q).contains(&x) == (a & b), "c06.intersection");
    check(p.diff(&q).contains(&x) == (a & !b), "c06.diff");
    check(p.negate().contains(&x) == !a, "c06.negate");
    check((p.clone() | q.clone()).contains(&x) == (a | b), "c06.bitor");
    check((p.clone() & q.clone()).contains(&x) == (a & b), "c06.bitand");
    check((p.clone() - q.clone()).contains(&x) == (a & !b), "c06.sub");
    check((!p.clone()).contains(&x) == !a, "c06.not");
    check(p.combine(&q).contains(&x) == (a | b), "c06.combine");
    check(p.clone().combine_owned(q.clone()).contains(&x) == (a | b), "c06.combine_owned");
    let none = Predicate::<D>::empty();
    check(!none.contains(&x), "c06.empty");
    check(none.combine(&p).contains(&x) == a && p.combine(&none).contains(&x) == a, "c06.empty_id");
    check(monoid::mconcat(&[p.clone(), q.clone(), r.clone()]).contains(&x) == (a | b | c), "c06.mconcat");
    check(monoid::combine_all(vec![p.clone(), q.clone(), r.clone()]).contains(&x) == (a | b | c), "c06.combine_all");
    check(p.clone().combine_all(vec![q.clone(), r.clone()]).contains(&x) == (a | b | c), "c06.combine_all");
    // nested
    check(p.union(&q).intersection(&r).contains(&x) == ((a | b) & c), "c06.nested");
    check(p.diff(&q.union(&r)).contains(&x) == (a & !(b | c)), "c06.nested");
    check(p.union(&q).negate().diff(&r).contains(&x) == (!(a | b) & !c), "c06.nested");
    check((!(p.clone() & q.clone()) - (r.clone() | !p.clone())).contains(&x) == (!(a & b) & !(c | !a)), "c06.nested_ops");
    // the originals are untouched
    check(p.contains(&x) == a && q.contains(&x) == b && r.contains(&x) == c, "c06.originals");
});
harness!(h_c06_short, {
    // the second part is asked only when the first does not decide
    let (tp, tq) = (Pred::any(), Pred::any());
    let (sp, sq) = (Trace::default(), Trace::default());
    let (s1, s2) = (sp.clone(), sq.clone());
    let p = Predicate::new(move |x: &D| tp.at(s1.see(*x)));
    let q = Predicate::new(move |x: &D| tq.at(s2.see(*x)));
    let x = d();
    let a = tp.at(x);
    let asked = |f: Predicate<D>, second: bool| {
        let quiet = sp.take().is_empty() && sq.take().is_empty();
        f.contains(&x);
        quiet & (sp.take() == [x]) & (sq.take().len() == second as usize)
    };
    check(asked(p.union(&q), !a), "c06.union_asks");
    check(asked(p.clone() | q.clone(), !a), "c06.bitor_asks");
    check(asked(p.combine(&q), !a), "c06.combine_asks");
    check(asked(p.clone().combine_owned(q.clone()), !a), "c06.combine_owned_asks");
    check(asked(p.intersection(&q), a), "c06.intersection_asks");
    check(asked(p.clone() & q.clone(), a), "c06.bitand_asks");
    check(asked(p.diff(&q), a), "c06.diff_asks");
    check(asked(p.clone() - q.clone(), a), "c06.sub_asks");
});
harness!(h_c06_shared, {
    // one predicate is a view of arbitrary state at the time it is asked
    use std::cell::Cell;
    use std::rc::Rc;
    let k = Rc::new(Cell::new(d()));
    let k2 = k.clone();
    let p = Predicate::new(move |x: &D| *x < k2.get());
    let n = p.negate();
    let (x, m) = (d(), d());
    check(n.contains(&x) == (x >= k.get()), "c06.late");
    k.set(m);
    check(n.contains(&x) == (x >= m) && p.contains(&x) == (x < m), "c06.late");
});
harness!(h_c06_long__4, {
    // long unions and intersections, decided by one part
    let n = [8, 16, 17, 40][case(4)];
    let k = [0, 7, 8, n - 1][case(4)].min(n - 1);
    let x = d();
    let t = Pred::any();
    let e = t.at(x);
    let parts = |rest: bool| -> Vec<Predicate<D>> {
        (0..n).map(|i| Predicate::new(move |x: &D| if i == k { t.at(*x) } else { rest })).collect()
    };
    let ps = parts(false);
    check(monoid::mconcat(&ps).contains(&x) == e, "c06.mconcat");
    check(monoid::combine_all(ps.clone()).contains(&x) == e, "c06.combine_all");
    check(ps[0].clone().combine_all(ps[1..].to_vec()).contains(&x) == e, "c06.combine_all");
    check(ps[1..].iter().fold(ps[0].clone(), |a, p| a.union(p)).contains(&x) == e, "c06.union");
    check(ps[1..].iter().fold(ps[0].clone(), |a, p| p.clone() | a).contains(&x) == e, "c06.bitor");
    let ps = parts(true);
    check(ps[1..].iter().fold(ps[0].clone(), |a, p| p.intersection(&a)).contains(&x) == e, "c06.intersection");
    check(ps[1..].iter().fold(ps[0].clone(), |a, p| a & p.clone()).contains(&x) == e, "c06.bitand");
});
harness!(h_c06_deep__4, {
    // deep formulas over three predicates
    let n = [8, 16, 17, 40][case(4)];
    let start = case(6);
    let x = d();
    let ts = [Pred::any(), Pred::any(), Pred::any()];
    let ps = ts.map(|t| Predicate::new(move |x: &D| t.at(*x)));
    let mut f = ps[0].clone();
    let mut e = ts[0].at(x);
    for i in 1..n {
        let p = &ps[(i + i / 6) % 3];
        let b = ts[(i + i / 6) % 3].at(x);
        (f, e) = match (i + start) % 6 {
            0 => (f.diff(p), e & !b),
            1 => (p.diff(&f), b & !e),
            2 => (f.negate(), !e),
            3 => (f.union(p), e | b),
            4 => (!(f & p.clone()), !(e & b)),
            _ => (p.clone() - !f, b & e),
        };
    }
    check(f.contains(&x) == e, "c06.deep");
    check(f.contains(&x) == e, "c06.deep_again");
});
