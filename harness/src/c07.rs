//! C07: mapping over any container applies the function to each value in order, keeps
//! everything else (shape, errors, log) and satisfies the functor laws; owned, replacing,
//! discarding and fallible variants agree with it.
//! bound: containers Vec, Choice and PersistentVector (0..=4, 8, 9, 12 and 40 values; Vec with the fallible functions 0..=3), Option, Result, Maybe, Either, Id, Validated (a value or 1..=3, 8, 10 or 40 errors), Writer (log of 0..=2)
//! bound: values, errors and log entries are arbitrary in a four-value domain, functions are arbitrary tables over it, fallible functions arbitrary partial tables
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::functor::{Functor, FunctorExt};

macro_rules! functor {
    ($name:ident, $mk:expr, $($decl:tt)*) => {
        harness!($name, {
            $($decl)*
            let m: Model<D> = $mk;
            let c = <M<D> as Shape<D>>::build(m.clone());
            check(c.show() == m, "c07.build");
            let (f, g) = (Fun::any(), Fun::any());
            let e = mapped(&m, |x| f.at(*x));
            let r: M<D> = c.fmap(|x| f.at(*x));
            check(r.show() == e, "c07.fmap");
            let o: M<D> = c.clone().fmap_owned(|x| f.at(x));
            check(o.show() == e, "c07.fmap_owned");
            // identity and composition
            check(c.fmap(|x| *x).show() == m, "c07.identity");
            check(c.clone().fmap_owned(|x| x).show() == m, "c07.identity_owned");
            let fg: M<D> = r.fmap(|x| g.at(*x));
            check(fg.show() == c.fmap(|x| g.at(f.at(*x))).show(), "c07.compose");
            check(o.fmap_owned(|x| g.at(x)).show() == fg.show(), "c07.compose_owned");
            // other value types
            check(c.fmap(|x| vec![*x, f.at(*x)]).show() == mapped(&m, |x| vec![*x, f.at(*x)]), "c07.fmap_type");
            let k = d();
            check(c.replace(&k).show() == mapped(&m, |_| k), "c07.replace");
            check(c.clone().replace_owned(k).show() == mapped(&m, |_| k), "c07.replace_owned");
            check(c.void().show() == mapped(&m, |_| ()), "c07.void");
            check(c.clone().void_owned().show() == mapped(&m, |_| ()), "c07.void_owned");
            // once for each value, in order
            let t = Trace::default();
            let _: M<D> = c.fmap(|x| t.see(*x));
            check(t.take() == m.1, "c07.once");
            let _: M<D> = c.clone().fmap_owned(|x| t.see(x));
            check(t.take() == m.1, "c07.once_owned");
            // the original is untouched
            check(c.show() == m, "c07.original");
        });
    };
}
/// list lengths: all small ones, and those around the inline capacities (8)
const LENS: [usize; 9] = [0, 1, 2, 3, 4, 8, 9, 12, 40];
fn list<T>(mk: impl Fn() -> T) -> Model<T> {
    many(LENS[case(9)], mk)
}
fn errs<T>(mk: impl Fn() -> T) -> Model<T> {
    match case(7) {
        0 => (vec![], vec![mk()]),
        n => (ds([1, 2, 3, 8, 10, 40][n - 1]), vec![]),
    }
}
functor!(h_c07_vec__9, list(d), type M<T> = Vec<T>;);
functor!(h_c07_pvec__9, list(d), type M<T> = PersistentVector<T>;);
functor!(h_c07_choice__9, list(d), type M<T> = Choice<T>;);
functor!(h_c07_option, maybe(d), type M<T> = Option<T>;);
functor!(h_c07_maybe, maybe(d), type M<T> = Maybe<T>;);
functor!(h_c07_result, or_err(d), type M<T> = Result<T, D>;);
functor!(h_c07_either, or_err(d), type M<T> = Either<D, T>;);
functor!(h_c07_validated, errs(d), type M<T> = Validated<D, T>;);
functor!(h_c07_id, single(d), type M<T> = Id<T>;);
functor!(h_c07_writer, logged(d), type M<T> = Writer<Vec<D>, T>;);

macro_rules! functor_ext {
    ($name:ident, $mk:expr, $none:expr, $($decl:tt)*) => {
        harness!($name, {
            $($decl)*
            let m: Model<D> = $mk;
            let c = <M<D> as Shape<D>>::build(m.clone());
            let (ok, f, g) = (Pred::any(), Fun::any(), Fun::any());
            let t = |x: &D| if ok.at(*x) { Ok(f.at(*x)) } else { Err(g.at(*x)) };
            let k = d();
            check(c.try_map_or(k, t).show() == mapped(&m, |x| t(x).unwrap_or(k)), "c07.try_map_or");
            let h = Fun::any();
            check(
                c.try_map_or_else(|e: &D| h.at(*e), t).show() == mapped(&m, |x| t(x).unwrap_or_else(|e| h.at(e))),
                "c07.try_map_or_else",
            );
            // filter_map keeps the mapped values in order; nothing left means $none
            let kept: Vec<D> = m.1.iter().filter_map(|x| t(x).ok()).collect();
            let none: Vec<D> = $none;
            let e = if !m.1.is_empty() && kept.is_empty() { (none, vec![]) } else { (m.0.clone(), kept) };
            check(c.filter_map(|x| t(x).ok()).show() == e, "c07.filter_map");
            let s = Trace::default();
            let _ = c.filter_map(|x| t(&s.see(*x)).ok());
            check(s.take() == m.1, "c07.filter_map_once");
            // the function for failures runs on failures only
            let _ = c.try_map_or_else(|e: &D| s.see(*e), t);
            check(s.take() == m.1.iter().filter_map(|x| t(x).err()).collect::<Vec<D>>(), "c07.try_map_or_else_once");
        });
    };
}
functor_ext!(h_c07_vec_ext__4, many(case(4), d), vec![], type M<T> = Vec<T>;);
functor_ext!(h_c07_option_ext, maybe(d), vec![], type M<T> = Option<T>;);
functor_ext!(h_c07_result_ext, or_err(d), vec![D::default()], type M<T> = Result<T, D>;);

/// A container that takes every default method of the traits.
#[derive(Clone, Copy)]
struct Three<T>([T; 3]);
impl<T> rustica::traits::hkt::HKT for Three<T> {
    type Source = T;
    type Output<U> = Three<U>;
}
impl<T> Functor for Three<T> {
    fn fmap<B, F: Fn(&T) -> B>(&self, f: F) -> Three<B> {
        let [x, y, z] = &self.0;
        Three([f(x), f(y), f(z)])
    }
    fn fmap_owned<B, F: Fn(T) -> B>(self, f: F) -> Three<B> {
        let [x, y, z] = self.0;
        Three([f(x), f(y), f(z)])
    }
}
impl<T> FunctorExt for Three<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> Three<B> {
        let [x, y, z] = &self.0;
        let g = |t: &T| f(t).expect("kept");
        Three([g(x), g(y), g(z)])
    }
}
harness!(h_c07_default, {
    let c = Three([d(), d(), d()]);
    let (ok, f, g, h, k) = (Pred::any(), Fun::any(), Fun::any(), Fun::any(), d());
    let t = |x: &D| if ok.at(*x) { Ok(f.at(*x)) } else { Err(g.at(*x)) };
    check(c.try_map_or(k, t).0 == c.0.map(|x| t(&x).unwrap_or(k)), "c07.default_try_map_or");
    check(
        c.try_map_or_else(|e: &D| h.at(*e), t).0 == c.0.map(|x| t(&x).unwrap_or_else(|e| h.at(e))),
        "c07.default_try_map_or_else",
    );
    check(c.replace(&k).0 == [k; 3] && c.clone().replace_owned(k).0 == [k; 3], "c07.default_replace");
    let _: Three<()> = c.void();
    let _: Three<()> = c.void_owned();
});
