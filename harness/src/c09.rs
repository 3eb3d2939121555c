//! C09: binding feeds every value to the function and puts the results together in order
//! (with errors and logs kept from left to right); pure is its unit, binding is associative,
//! and join, flat_map and the owned and fallible forms agree with it.
//! bound: containers Option, Result, Maybe, Either, Id, Validated (a value or 1..=2 errors), Choice (0..=2 values), Writer (log of 0..=2)
//! bound: Choice of 9x1, 3x3, 5x2, 1x9, 2x5, 8x2, 40x1, 1x40 values (operand x result) and results of uneven lengths; Validated and Writer with 8, 9 and 40 errors or log entries
//! bound: the bound functions map each of the four values to an arbitrary container (for Choice, lists of 0..=2 arbitrary values, two distinct shapes chosen per value)
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::monad::Monad;
use rustica::traits::pure::Pure;

/// An arbitrary function from D to models: two model shapes, chosen by a symbolic predicate,
/// whose values depend on the argument through a table.
struct Kleisli {
    which: Pred,
    a: Model<Fun>,
    b: Model<Fun>,
}
impl Kleisli {
    fn at(&self, x: D) -> Model<D> {
        let m = if self.which.at(x) { &self.a } else { &self.b };
        mapped(m, |t| t.at(x))
    }
}

macro_rules! monad {
    ($bind:ident, $laws:ident, $join:ident, $mk:ident $(($n:expr))?, $($decl:tt)*) => {
        harness!($bind, {
            $($decl)*
            let m: Model<D> = $mk($($n,)? d);
            let c = <M<D> as Shape<D>>::build(m.clone());
            let k = Kleisli { which: Pred::any(), a: $mk($($n,)? Fun::any), b: $mk($($n,)? Fun::any) };
            let f = |x: &D| <M<D> as Shape<D>>::build(k.at(*x));
            let e = chain(&m, |x| k.at(*x));
            check(c.bind(f).show() == e, "c09.bind");
            check(c.clone().bind_owned(|x| f(&x)).show() == e, "c09.bind_owned");
            check(c.flat_map(f).show() == e, "c09.flat_map");
            check(c.clone().flat_map_owned(|x| f(&x)).show() == e, "c09.flat_map_owned");
            let t = Fun::any();
            check(c.map_and_pure(|x| t.at(*x)).show() == mapped(&m, |x| t.at(*x)), "c09.map_and_pure");
            let ok = Pred::any();
            let z = d();
            let tf = |x: &D| if ok.at(*x) { Ok(f(x)) } else { Err(*x) };
            let te = chain(&m, |x| if ok.at(*x) { k.at(*x) } else { (vec![], vec![z]) });
            check(c.try_bind(&z, tf).show() == te, "c09.try_bind");
            // once for each value, in order
            let s = Trace::default();
            let _ = c.bind(|x| f(&s.see(*x)));
            check(s.take() == m.1, "c09.bind_once");
            let _ = c.clone().bind_owned(|x| f(&s.see(x)));
            check(s.take() == m.1, "c09.bind_owned_once");
            let _ = c.flat_map(|x| f(&s.see(*x)));
            let _ = c.clone().flat_map_owned(|x| f(&s.see(x)));
            check(s.take() == [&m.1[..], &m.1[..]].concat(), "c09.flat_map_once");
            check(c.show() == m, "c09.original");
        });
        harness!($laws, {
            $($decl)*
            let m: Model<D> = $mk($($n,)? d);
            let c = <M<D> as Shape<D>>::build(m.clone());
            let k = Kleisli { which: Pred::any(), a: $mk($($n,)? Fun::any), b: $mk($($n,)? Fun::any) };
            let t = Fun::any();
            let f = |x: &D| <M<D> as Shape<D>>::build(k.at(*x));
            let g = |x: &D| <M<D> as Shape<D>>::build(k.at(t.at(*x)));
            let x = d();
            let px: M<D> = <M<D> as Pure>::pure(&x);
            check(px.bind(f).show() == f(&x).show(), "c09.left_id");
            check(px.bind_owned(|x| f(&x)).show() == f(&x).show(), "c09.left_id");
            check(c.bind(|x| -> M<D> { <M<D> as Pure>::pure(x) }).show() == m, "c09.right_id");
            let l: M<D> = c.bind(f);
            let l: M<D> = l.bind(g);
            let r: M<D> = c.bind(|x| -> M<D> { f(x).bind(g) });
            check(l.show() == r.show(), "c09.assoc");
            let lo: M<D> = c.clone().bind_owned(|x| f(&x));
            let lo: M<D> = lo.bind_owned(|x| g(&x));
            check(lo.show() == r.show(), "c09.assoc_owned");
        });
        harness!($join, {
            $($decl)*
            let m: Model<M<D>> = $mk($($n,)? || <M<D> as Shape<D>>::build($mk($($n,)? d)));
            let e = chain(&m, |x| x.show());
            let c = <M<M<D>> as Shape<M<D>>>::build(m.clone());
            let j: M<D> = c.join();
            check(j.show() == e, "c09.join");
            let j: M<D> = c.clone().join_owned();
            check(j.show() == e, "c09.join_owned");
            let b: M<D> = c.bind(|x: &M<D>| x.clone());
            check(b.show() == e, "c09.bind_id");
        });
    };
}
monad!(h_c09_choice__3, h_c09_choice_laws__3, h_c09_choice_join__3, many(case(3)), type M<T> = Choice<T>;);
monad!(h_c09_option, h_c09_option_laws, h_c09_option_join, maybe, type M<T> = Option<T>;);
monad!(h_c09_maybe, h_c09_maybe_laws, h_c09_maybe_join, maybe, type M<T> = Maybe<T>;);
monad!(h_c09_result, h_c09_result_laws, h_c09_result_join, or_err, type M<T> = Result<T, D>;);
monad!(h_c09_either, h_c09_either_laws, h_c09_either_join, or_err, type M<T> = Either<D, T>;);
monad!(h_c09_validated, h_c09_validated_laws, h_c09_validated_join, or_errs, type M<T> = Validated<D, T>;);
monad!(h_c09_id, h_c09_id_laws, h_c09_id_join, single, type M<T> = Id<T>;);
monad!(h_c09_writer, h_c09_writer_laws, h_c09_writer_join, logged, type M<T> = Writer<Vec<D>, T>;);

// results and operands around the inline capacity (8) of choices and error lists
harness!(h_c09_big__8, {
    let (n, k) = [(9, 1), (3, 3), (5, 2), (1, 9), (2, 5), (8, 2), (40, 1), (1, 40)][case(8)];
    let m = many(n, d);
    let c: Choice<D> = Shape::build(m.clone());
    let r = many(k, d);
    let f = |x: &D| -> Choice<(D, D)> { Shape::build(mapped(&r, |y| (*x, *y))) };
    let e = chain(&m, |x| mapped(&r, |y| (*x, *y)));
    check(c.bind(f).show() == e, "c09.bind");
    check(c.clone().bind_owned(|x| f(&x)).show() == e, "c09.bind_owned");
    check(c.flat_map(f).show() == e, "c09.flat_map");
    check(c.clone().flat_map_owned(|x| f(&x)).show() == e, "c09.flat_map_owned");
    check(c.map_and_pure(|x| (*x, 7)).show() == mapped(&m, |x| (*x, 7)), "c09.map_and_pure");
    let e = mapped(&chain(&m, |x| mapped(&r, |y| (*x, *y))), |p| p.1);
    check(c.try_bind(&0, |x| -> Result<Choice<D>, ()> { Ok(Shape::build(mapped(&f(x).show(), |p| p.1))) }).show() == e, "c09.try_bind");
    let parts: Vec<Vec<D>> = (0..n).map(|_| ds(k)).collect();
    let e: Model<D> = (vec![], parts.iter().flatten().copied().collect());
    let c: Choice<Choice<D>> = Shape::build((vec![], parts.iter().map(|p| Shape::build((vec![], p.clone()))).collect()));
    let j: Choice<D> = c.join();
    check(j.show() == e, "c09.join");
    let j: Choice<D> = c.join_owned();
    check(j.show() == e, "c09.join_owned");
});
harness!(h_c09_uneven__4, {
    // the functions' results differ in length, the first possibly shorter than the others
    let lens = [[1, 9, 0], [9, 1, 2], [2, 0, 8], [3, 4, 5]][case(4)];
    let parts: Vec<Vec<D>> = lens.iter().map(|n| ds(*n)).collect();
    let flat: Model<D> = (vec![], parts.iter().flatten().copied().collect());
    let c: Choice<u8> = Shape::build((vec![], vec![0, 1, 2]));
    let f = |i: &u8| -> Choice<D> { Shape::build((vec![], parts[*i as usize].clone())) };
    check(c.bind(f).show() == flat, "c09.bind");
    check(c.clone().bind_owned(|x| f(&x)).show() == flat, "c09.bind_owned");
    let c: Choice<Choice<D>> = Shape::build((vec![], (0..3).map(|i| f(&i)).collect()));
    let j: Choice<D> = c.join();
    check(j.show() == flat, "c09.join");
    let j: Choice<D> = c.join_owned();
    check(j.show() == flat, "c09.join_owned");
});
harness!(h_c09_many_errors__3, {
    let n = [8, 9, 40][case(3)];
    let m: Model<D> = (ds(n), vec![]);
    let c: Validated<D, D> = Shape::build(m.clone());
    let f = |x: &D| -> Validated<D, D> { Shape::build((vec![], vec![*x])) };
    check(c.bind(f).show() == m, "c09.bind");
    check(c.clone().bind_owned(|x| f(&x)).show() == m, "c09.bind_owned");
    check(c.flat_map(f).show() == m, "c09.flat_map");
    check(c.clone().flat_map_owned(|x| f(&x)).show() == m, "c09.flat_map_owned");
    let g = |_: &D| c.clone();
    let v: Validated<D, D> = Shape::build((vec![], vec![d()]));
    check(v.bind(g).show() == m, "c09.bind");
    check(v.clone().bind_owned(|x| g(&x)).show() == m, "c09.bind_owned");
    let w: Validated<D, Validated<D, D>> = Shape::build((vec![], vec![c.clone()]));
    let j: Validated<D, D> = w.join();
    check(j.show() == m, "c09.join");
    let j: Validated<D, D> = w.join_owned();
    check(j.show() == m, "c09.join_owned");
    let w: Validated<D, Validated<D, D>> = Shape::build((m.0.clone(), vec![]));
    let j: Validated<D, D> = w.join();
    check(j.show() == m, "c09.join");
    let j: Validated<D, D> = w.join_owned();
    check(j.show() == m, "c09.join_owned");
    let (a, b) = (ds(n), ds(3));
    let w: Writer<Vec<D>, D> = Shape::build((a.clone(), vec![d()]));
    let f = |x: &D| -> Writer<Vec<D>, D> { Shape::build((b.clone(), vec![*x])) };
    let e = chain(&w.show(), |x| f(x).show());
    check(w.bind(f).show() == e, "c09.bind");
    check(w.bind_owned(|x| f(&x)).show() == e, "c09.bind_owned");
});
