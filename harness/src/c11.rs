//! C11: folding any container visits exactly its values, left folds first to last and right
//! folds last to first, and every derived query (length, find, all, any, contains, sums,
//! products, extrema, sortedness, reduce, to_vec, fold_map) agrees with the value sequence.
//! bound: Vec and Choice and PersistentVector of 0..=4, 8, 9 and (most of them fixed for the queries) 40 values (fold_option 0..=4, and 8 and 9 fixed values under every predicate), Option, Result, Id, Validated (a value or 1, 2, 8, 9 errors)
//! bound: values are arbitrary bytes (folding functions record them) or from a four-value domain where tables are used; sums are taken modulo 256 and, like products, over sequences that record the operands
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::pvec::PersistentVector;
use rustica::traits::foldable::{Foldable, FoldableExt};
use std::num::Wrapping;

type W = Wrapping<u8>;

fn folds<C: Foldable<Source = u8>>(c: &C, v: &[u8]) {
    let push = |a: &Vec<u8>, x: u8| {
        let mut a = a.clone();
        a.push(x);
        a
    };
    let seed = vec![byte()];
    let mut l = seed.clone();
    l.extend_from_slice(v);
    check(c.fold_left(&seed, |a, x| push(a, *x)) == l, "c11.fold_left");
    let mut r = seed.clone();
    r.extend(v.iter().rev());
    check(c.fold_right(&seed, |x, a| push(a, *x)) == r, "c11.fold_right");
    // not associative
    let e = v.iter().fold(7u8, |a, x| a.wrapping_mul(3) ^ *x);
    check(c.fold_left(&7u8, |a, x| a.wrapping_mul(3) ^ *x) == e, "c11.fold_left");
    let e = v.iter().rev().fold(7u8, |a, x| a.wrapping_mul(3) ^ *x);
    check(c.fold_right(&7u8, |x, a| a.wrapping_mul(3) ^ *x) == e, "c11.fold_right");
    check(c.length() == v.len(), "c11.length");
    check(Foldable::is_empty(c) == v.is_empty(), "c11.is_empty");
    let m: Vec<u8> = c.fold_map(|x| vec![*x, 0]);
    let mut e = vec![];
    for x in v {
        e.push(*x);
        e.push(0);
    }
    check(m == e, "c11.fold_map");
    check(FoldableExt::to_vec(c) == v.to_vec(), "c11.to_vec");
}
/// Sums and products that record their operands in order.
#[derive(Clone, PartialEq)]
struct Word(Vec<u8>);
impl Default for Word {
    fn default() -> Word {
        Word(vec![])
    }
}
impl From<u8> for Word {
    fn from(x: u8) -> Word {
        if x == 1 { Word(vec![]) } else { Word(vec![x]) }
    }
}
impl std::ops::Add for Word {
    type Output = Word;
    fn add(mut self, o: Word) -> Word {
        self.0.extend(o.0);
        self
    }
}
impl std::ops::Mul for Word {
    type Output = Word;
    fn mul(self, o: Word) -> Word {
        self + o
    }
}
fn monoid_fold<C: Foldable<Source = W>>(c: &C, v: &[W]) {
    let mut s = Wrapping(0);
    for x in v {
        s += *x;
    }
    check(c.sum_values() == s, "c11.sum_values");
    check(c.fold_map(|x| Sum(*x)) == Sum(s), "c11.fold_map_sum");
}
fn words<C: Foldable<Source = Word>>(c: &C, v: &[Word]) {
    let e = v.iter().cloned().fold(Word(vec![]), |a, x| a + x);
    check(c.sum_values() == e, "c11.sum_values");
    check(c.product_values() == e, "c11.product_values");
}
#[derive(Clone)]
struct One(D);
impl From<One> for Vec<D> {
    fn from(x: One) -> Vec<D> {
        vec![x.0]
    }
}
fn queries<C: Foldable<Source = D>>(c: &C, v: &[D]) {
    let p = Pred::any();
    check(FoldableExt::find(c, |x| p.at(*x)) == v.iter().copied().find(|x| p.at(*x)), "c11.find");
    check(FoldableExt::all(c, |x| p.at(*x)) == v.iter().all(|x| p.at(*x)), "c11.all");
    check(FoldableExt::any(c, |x| p.at(*x)) == v.iter().any(|x| p.at(*x)), "c11.any");
    let k = d();
    check(FoldableExt::contains(c, &k) == v.iter().any(|x| *x == k), "c11.contains");
    if v.len() > 4 {
        return;
    }
    let t = Fun::any();
    let fo: Option<Vec<D>> = c.fold_option(|x| if p.at(*x) { Some(vec![t.at(*x)]) } else { None });
    let e = if v.iter().all(|x| p.at(*x)) { Some(v.iter().map(|x| t.at(*x)).collect::<Vec<_>>()) } else { None };
    check(fo == e, "c11.fold_option");
}
fn orders<C: Foldable<Source = u8>>(c: &C, v: &[u8]) {
    check(FoldableExt::is_sorted(c) == v.windows(2).all(|w| w[0] <= w[1]), "c11.is_sorted");
    check(FoldableExt::maximum(c) == v.iter().copied().max(), "c11.maximum");
    check(FoldableExt::minimum(c) == v.iter().copied().min(), "c11.minimum");
    check(
        FoldableExt::reduce(c, |a, x| a.wrapping_mul(3) ^ *x) == v.iter().copied().reduce(|a, x| a.wrapping_mul(3) ^ x),
        "c11.reduce",
    );
}

macro_rules! foldable {
    ($f:ident, $m:ident, $q:ident, $o:ident, $mk:ident $(($n:expr))?, $($decl:tt)*) => {
        harness!($f, {
            $($decl)*
            let m: Model<u8> = $mk($($n,)? byte);
            folds(&<M<u8> as Shape<u8>>::build(m.clone()), &m.1);
        });
        harness!($m, {
            $($decl)*
            let m: Model<W> = $mk($($n,)? || Wrapping(byte()));
            monoid_fold(&<M<W> as Shape<W>>::build(m.clone()), &m.1);
            let m: Model<Word> = $mk($($n,)? || Word(vec![byte()]));
            words(&<M<Word> as Shape<Word>>::build(m.clone()), &m.1);
            let m: Model<One> = $mk($($n,)? || One(d()));
            let r: Vec<D> = <M<One> as Shape<One>>::build(m.clone()).fold_monoid();
            check(r == m.1.iter().map(|x| x.0).collect::<Vec<_>>(), "c11.fold_monoid");
        });
        harness!($q, {
            $($decl)*
            let m: Model<D> = $mk($($n,)? d);
            queries(&<M<D> as Shape<D>>::build(m.clone()), &m.1);
        });
        harness!($o, {
            $($decl)*
            let m: Model<u8> = $mk($($n,)? byte);
            orders(&<M<u8> as Shape<u8>>::build(m.clone()), &m.1);
        });
    };
}
/// lengths 0..=4 and those around the inline capacities
fn list<T>(mk: impl Fn() -> T) -> Model<T> {
    many([0, 1, 2, 3, 4, 8, 9][case(7)], mk)
}
foldable!(h_c11_vec__7, h_c11_vec_monoid__7, h_c11_vec_queries__7, h_c11_vec_orders__7, list, type M<T> = Vec<T>;);
foldable!(h_c11_choice__7, h_c11_choice_monoid__7, h_c11_choice_queries__7, h_c11_choice_orders__7, list, type M<T> = Choice<T>;);
foldable!(h_c11_pvec__7, h_c11_pvec_monoid__7, h_c11_pvec_queries__7, h_c11_pvec_orders__7, list, type M<T> = PersistentVector<T>;);
foldable!(h_c11_option, h_c11_option_monoid, h_c11_option_queries, h_c11_option_orders, maybe, type M<T> = Option<T>;);
foldable!(h_c11_result, h_c11_result_monoid, h_c11_result_queries, h_c11_result_orders, or_err, type M<T> = Result<T, D>;);
foldable!(h_c11_id, h_c11_id_monoid, h_c11_id_queries, h_c11_id_orders, single, type M<T> = Id<T>;);
foldable!(h_c11_validated, h_c11_validated_monoid, h_c11_validated_queries, h_c11_validated_orders, or_errs, type M<T> = Validated<D, T>;);
harness!(h_c11_many_errors__2, {
    // failures hold no value
    let n = [8, 9][case(2)];
    let v: Validated<D, u8> = Shape::build((ds(n), vec![]));
    folds(&v, &[]);
    orders(&v, &[]);
    let v: Validated<D, D> = Shape::build((ds(n), vec![]));
    queries(&v, &[]);
});
fn wide<C: Foldable<Source = u8>>(mk: impl Fn(&[u8]) -> C) {
    let v: Vec<u8> = (0..40).map(|_| byte()).collect();
    folds(&mk(&v), &v);
    // fixed values, one of them changed
    let mut v: Vec<u8> = (0..40).map(|i| 5 * i + 3).collect();
    let i = [0, 1, 20, 38, 39][case(5)];
    if boolean() {
        v.reverse();
    }
    orders(&mk(&v), &v);
    v[i] = byte();
    orders(&mk(&v), &v);
    let mut v: Vec<u8> = (0..40).map(|i| i / 14).collect();
    v[i] = 3;
    queries(&mk(&v), &v);
}
harness!(h_c11_wide__3, {
    match case(3) {
        0 => wide(|v| v.to_vec()),
        1 => wide(|v| <Choice<u8> as Shape<u8>>::build((vec![], v.to_vec()))),
        _ => wide(|v| <PersistentVector<u8> as Shape<u8>>::build((vec![], v.to_vec()))),
    }
});
harness!(h_c11_fold_option__2, {
    let n = [8, 9][case(2)];
    let v: Vec<D> = (0..n as u8).map(|i| i & 3).collect();
    let p = Pred::any();
    let e = if (0..4).all(|x| p.at(x)) { Some(v.clone()) } else { None };
    fn fo<C: Foldable<Source = D>>(c: &C, p: &Pred) -> Option<Vec<D>> {
        c.fold_option(|x| if p.at(*x) { Some(vec![*x]) } else { None })
    }
    check(fo(&v, &p) == e, "c11.fold_option");
    check(fo(&<Choice<D> as Shape<D>>::build((vec![], v.clone())), &p) == e, "c11.fold_option");
    check(fo(&<PersistentVector<D> as Shape<D>>::build((vec![], v)), &p) == e, "c11.fold_option");
});
