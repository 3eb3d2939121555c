//! C14: single-value containers (option-like, either, identity) say the same about their value
//! through every accessor, conversion and iterator; either's two sides are mapped apart; pure
//! puts exactly the given value into any container.
//! bound: Maybe, Option, Either, Result, Id, First, Last holding at most one value, PersistentVector of 0..=2 values; values and errors arbitrary in a four-value domain, functions and predicates arbitrary tables
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::writer::Writer;
use rustica::error::WithError;
use rustica::pvec::PersistentVector;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::comonad::Comonad;
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;
use rustica::traits::pure::{Pure, PureExt, PureType};

type E = Either<D, D>;

harness!(h_c14_either__2, {
    let right = case(2) == 1;
    let x = d();
    let k = d();
    let e: E = if right { Either::right(x) } else { Either::left(x) };
    check(matches!((right, &e), (true, Either::Right(y)) | (false, Either::Left(y)) if *y == x), "c14.either_new");
    check(e.is_right() == right && e.is_left() == !right, "c14.is_side");
    let l = if right { None } else { Some(x) };
    let r = if right { Some(x) } else { None };
    check(e.clone().right_option() == r && e.clone().left_option() == l, "c14.side_option");
    check(e.clone().unwrap_or(k) == r.unwrap_or(k), "c14.unwrap_or");
    check(e.clone().right_or(k) == r.unwrap_or(k), "c14.right_or");
    check(e.clone().left_or(k) == l.unwrap_or(k), "c14.left_or");
    check(e.clone().to_result() == r.ok_or(x), "c14.to_result");
    check(E::from_result(r.ok_or(x)) == e, "c14.from_result");
    check(e.clone().left_iter().collect::<Vec<_>>() == l.iter().copied().collect::<Vec<_>>(), "c14.left_iter");
    check(e.left_iter_ref().copied().collect::<Vec<_>>() == l.iter().copied().collect::<Vec<_>>(), "c14.left_iter");
    check(e.clone().into_iter().collect::<Vec<_>>() == r.iter().copied().collect::<Vec<_>>(), "c14.right_iter");
    check((&e).into_iter().copied().collect::<Vec<_>>() == r.iter().copied().collect::<Vec<_>>(), "c14.right_iter");
    let f = Fun::any();
    let g = Fun::any();
    let rf: E = if right { Either::Right(f.at(x)) } else { Either::Left(x) };
    let lf: E = if right { Either::Right(x) } else { Either::Left(g.at(x)) };
    let both: E = if right { Either::Right(f.at(x)) } else { Either::Left(g.at(x)) };
    let mut w = e.clone();
    for y in w.left_iter_mut() {
        *y = g.at(*y);
    }
    check(w == lf, "c14.left_iter_mut");
    let mut w = e.clone();
    for y in &mut w {
        *y = f.at(*y);
    }
    check(w == rf, "c14.right_iter_mut");
    check(e.clone().fmap_left(|y| g.at(y)) == lf, "c14.fmap_left");
    check(e.clone().fmap_right(|y| f.at(y)) == rf, "c14.fmap_right");
    check(Bifunctor::first(&e, |y| f.at(*y)) == rf, "c14.first");
    check(Bifunctor::second(&e, |y| g.at(*y)) == lf, "c14.second");
    check(Bifunctor::bimap(&e, |y| f.at(*y), |y| g.at(*y)) == both, "c14.bimap");
    check(e.map_second(|y| g.at(*y)) == lf, "c14.map_second");
    check(e.clone().map_second_owned(|y| g.at(y)) == lf, "c14.map_second");
    check(Bifunctor::second(&Bifunctor::first(&e, |y| f.at(*y)), |y| g.at(*y)) == both, "c14.bimap");
    check(Identity::try_value(&e) == r.as_ref() && Identity::try_into_value(e.clone()) == r, "c14.try_value");
    // the function for the side held runs once, the other not at all
    let (s, t) = (Trace::default(), Trace::default());
    let _ = e.clone().fmap_left(|y| s.see(y));
    let _ = e.clone().fmap_right(|y| t.see(y));
    let _ = Bifunctor::bimap(&e, |y| t.see(*y), |y| s.see(*y));
    let _ = Bifunctor::first(&e, |y| t.see(*y));
    let _ = Bifunctor::second(&e, |y| s.see(*y));
    check(s.take() == if right { vec![] } else { vec![x; 3] }, "c14.left_once");
    check(t.take() == if right { vec![x; 3] } else { vec![] }, "c14.right_once");
    // the two sides of different types
    let m: Either<bool, (D, D)> = Bifunctor::bimap(&e, |y| (*y, k), |y| *y == k);
    check(m == if right { Either::Right((x, k)) } else { Either::Left(x == k) }, "c14.bimap");
    let keep: E = if right { Either::Right(x) } else { Either::Left(x) };
    check(e == keep, "c14.original");
});
harness!(h_c14_either_panics__2, {
    let right = case(2) == 1;
    let x = d();
    let e: E = if right { Either::right(x) } else { Either::left(x) };
    let mut n = 0;
    let mut bad = false;
    let mut see = |p: bool, v: D, want_right: bool| {
        n += 1;
        if p != (right != want_right) || (!p && v != x) {
            bad = true;
        }
    };
    let mut v = 9;
    let p = panics(|| v = e.clone().unwrap());
    see(p, v, true);
    let p = panics(|| v = e.clone().unwrap_right());
    see(p, v, true);
    let p = panics(|| v = e.clone().right_value());
    see(p, v, true);
    let p = panics(|| v = *e.right_ref());
    see(p, v, true);
    let p = panics(|| v = *Identity::value(&e));
    see(p, v, true);
    let p = panics(|| v = Identity::into_value(e.clone()));
    see(p, v, true);
    let p = panics(|| v = e.clone().unwrap_left());
    see(p, v, false);
    let p = panics(|| v = e.clone().left_value());
    see(p, v, false);
    let p = panics(|| v = *e.left_ref());
    see(p, v, false);
    let mut m = e.clone();
    let p = panics(|| v = *m.left_mut());
    see(p, v, false);
    check(!bad && n == 10, "c14.either_panics");
    if !right {
        let k = d();
        let mut m = e.clone();
        *m.left_mut() = k;
        check(m == Either::Left(k), "c14.left_mut");
    }
});

harness!(h_c14_maybe__2, {
    let some = case(2) == 1;
    let x = d();
    let k = d();
    let o = if some { Some(x) } else { None };
    let m: Maybe<D> = if some { Maybe::some(x) } else { Maybe::none() };
    check(matches!((some, &m), (true, Maybe::Just(y)) if *y == x) || matches!((some, &m), (false, Maybe::Nothing)), "c14.maybe_new");
    check(Maybe::when(some, x) == m, "c14.when");
    check(m.is_just() == some && m.is_nothing() == !some, "c14.is_just");
    check(Maybe::from_option(o) == m && Maybe::from(o) == m, "c14.from_option");
    check(Maybe::from(o.ok_or(k)) == m, "c14.from_result");
    check(m.clone().to_option() == o && Option::<D>::from(m.clone()) == o, "c14.to_option");
    check(m.clone().to_result(k) == o.ok_or(k), "c14.to_result");
    check(rustica::datatypes::maybe::MaybeExt::to_result(m.clone(), k) == o.ok_or(k), "c14.to_result");
    check(m.clone().to_standard_result().ok() == o, "c14.to_result");
    check(matches!((some, m.clone().to_standard_result()), (true, Ok(_)) | (false, Err(MaybeError::ValueNotPresent))), "c14.to_result");
    check(WithError::to_result(m.clone()).ok() == o, "c14.to_result");
    check(m.clone().try_unwrap().ok() == o, "c14.try_unwrap");
    check(rustica::datatypes::maybe::MaybeExt::try_unwrap(m.clone()).ok() == o, "c14.try_unwrap");
    check(m.clone().unwrap_or(k) == o.unwrap_or(k), "c14.unwrap_or");
    let mut ran = 0;
    let y = m.clone().unwrap_or_else(|| {
        ran += 1;
        k
    });
    check(y == o.unwrap_or(k) && ran == if some { 0 } else { 1 }, "c14.unwrap_or_else");
    let f = Fun::any();
    check(m.clone().fmap_or(k, |y| f.at(y)) == o.map(|y| f.at(y)).unwrap_or(k), "c14.fmap_or");
    let s = Trace::default();
    let _ = m.clone().fmap_or(k, |y| s.see(f.at(y)));
    let _ = m.clone().filter(|y| s.see(*y) == k);
    check(s.take() == o.iter().flat_map(|y| [f.at(*y), *y]).collect::<Vec<_>>(), "c14.maybe_once");
    check(m.as_ref() == o.as_ref() && m.as_option() == o.as_ref(), "c14.as_ref");
    let p = Pred::any();
    check(m.clone().filter(|y| p.at(*y)).to_option() == o.filter(|y| p.at(*y)), "c14.filter");
    let mut seen = vec![];
    let t = m.clone().tap(|y| seen.push(*y));
    let want: Vec<D> = o.iter().copied().collect();
    check(t == m && seen == want, "c14.tap");
    check(m.iter().copied().collect::<Vec<_>>() == want, "c14.iter");
    check((&m).into_iter().copied().collect::<Vec<_>>() == want, "c14.iter");
    check(m.clone().into_iter().collect::<Vec<_>>() == want, "c14.iter");
    check(m.clone().to_vec() == want, "c14.to_vec");
    let mf: Vec<D> = want.iter().map(|y| f.at(*y)).collect();
    let mut w = m.clone();
    for y in w.iter_mut() {
        *y = f.at(*y);
    }
    check(w.to_vec() == mf, "c14.iter_mut");
    let mut w = m.clone();
    for y in &mut w {
        *y = f.at(*y);
    }
    check(w.to_vec() == mf, "c14.iter_mut");
    check(Identity::try_value(&m) == o.as_ref() && Identity::try_into_value(m.clone()) == o, "c14.try_value");
    let mut v = 9;
    let q = panics(|| v = m.clone().unwrap());
    check(q == !some && (q || v == x), "c14.unwrap");
    let q = panics(|| v = *Identity::value(&m));
    check(q == !some && (q || v == x), "c14.value");
    let q = panics(|| v = Identity::into_value(m.clone()));
    check(q == !some && (q || v == x), "c14.value");
    check(m.clone().to_option() == o, "c14.original");
    check(Maybe::<D>::default().is_nothing(), "c14.default");
});
harness!(h_c14_collect__4, {
    let v = ds(case(4));
    let m: Maybe<D> = v.iter().copied().collect();
    check(m.to_option() == v.first().copied(), "c14.collect");
});

harness!(h_c14_id, {
    let x = d();
    let y = d();
    let k = d();
    let f = Fun::any();
    let i = Id::new(x);
    check(*i.value() == x && i.clone().into_inner() == x && i.clone().unwrap() == x, "c14.id_value");
    check(i.clone().unwrap_or(k) == x && *i.as_ref() == x, "c14.id_value");
    check(Id::from_ref(&x) == i && Id::from(x) == i, "c14.id_from");
    check(i.clone().into_value() == x && i.clone().try_into_value() == Some(x) && i.try_value() == Some(&x), "c14.id_value");
    check(i.clone().then(Id::new(y)).into_inner() == y, "c14.id_then");
    let mut w = i.clone();
    *w.value_mut() = k;
    check(w.into_inner() == k && *i.value() == x, "c14.id_mut");
    let mut w = i.clone();
    for z in &mut w {
        *z = f.at(*z);
    }
    check(w.into_inner() == f.at(x), "c14.id_mut");
    check((&i).into_iter().copied().collect::<Vec<_>>() == vec![x], "c14.id_iter");
    check(i.clone().into_iter().collect::<Vec<_>>() == vec![x], "c14.id_iter");
    check(Id::<D>::default().into_inner() == D::default(), "c14.id_default");
    // comonad laws
    check(i.extract() == x, "c14.extract");
    check(i.extend(|w| f.at(w.extract())).into_inner() == f.at(x), "c14.extend");
    check(i.extend(|w| w.extract()) == i, "c14.extend_extract");
    let g = Fun::any();
    check(i.extend(|w| f.at(w.extract())).extend(|w| g.at(w.extract())) == i.extend(|w| g.at(w.extend(|u| f.at(u.extract())).extract())), "c14.extend_assoc");
    check(i.duplicate() == i, "c14.duplicate");
    check(i.extend(|w| f.at(w.extract())) == i.fmap(|z| f.at(*z)), "c14.extend_fmap");
});

harness!(h_c14_identity__2, {
    let some = case(2) == 1;
    let x = d();
    let k = d();
    let o = if some { Some(x) } else { None };
    let mut v = 9;
    check(Identity::try_value(&o) == o.as_ref() && Identity::try_into_value(o) == o, "c14.try_value");
    let p = panics(|| v = *Identity::value(&o));
    check(p == !some && (p || v == x), "c14.value");
    let p = panics(|| v = Identity::into_value(o));
    check(p == !some && (p || v == x), "c14.value");
    let r: Result<D, D> = o.ok_or(k);
    check(Identity::try_value(&r) == o.as_ref() && Identity::try_into_value(r) == o, "c14.try_value");
    let p = panics(|| v = *Identity::value(&r));
    check(p == !some && (p || v == x), "c14.value");
    let p = panics(|| v = Identity::into_value(r));
    check(p == !some && (p || v == x), "c14.value");
    let a = First(o);
    check(Identity::try_value(&a) == o.as_ref() && Identity::try_into_value(a) == o, "c14.try_value");
    let b = Last(o);
    check(Identity::try_value(&b) == o.as_ref() && Identity::try_into_value(b) == o, "c14.try_value");
});
harness!(h_c14_identity_pvec__3, {
    let v = ds(case(3));
    let pv: PersistentVector<D> = v.iter().copied().collect();
    check(Identity::try_value(&pv) == v.first() && Identity::try_into_value(pv.clone()) == v.first().copied(), "c14.try_value");
    let mut x = 9;
    let p = panics(|| x = *Identity::value(&pv));
    check(p == v.is_empty() && (p || x == v[0]), "c14.value");
});

macro_rules! pure {
    ($p:ty, $k:expr, $show:expr) => {{
        let x = d();
        let y = d();
        let f = Fun2::any();
        let _ = $k;
        check($show(&<$p as Pure>::pure(&x)) == (vec![], vec![x]), "c14.pure");
        check($show(&<$p as Pure>::pure_owned(x)) == (vec![], vec![x]), "c14.pure_owned");
        check($show(&x.to_pure::<$p>()) == (vec![], vec![x]), "c14.to_pure");
        check($show(&x.to_pure_owned::<$p>()) == (vec![], vec![x]), "c14.to_pure");
        check($show(&x.lift_other::<$p, D>(&y)) == (vec![], vec![y]), "c14.lift_other");
        check($show(&x.combine_with::<$p, D, D>(&y, |a, b| f.at(*a, *b))) == (vec![], vec![f.at(x, y)]), "c14.combine_with");
        check($show(&PureType::<$p, D>::lift(&x)) == (vec![], vec![x]), "c14.pure_type");
        check($show(&PureType::<$p, D>::lift_owned(x)) == (vec![], vec![x]), "c14.pure_type");
    }};
}
macro_rules! pair_with {
    ($p:ty) => {{
        let x = d();
        let y = d();
        check(Shape::<(D, D)>::show(&x.pair_with::<$p, D>(&y)) == (vec![], vec![(x, y)]), "c14.pair_with");
    }};
}
harness!(h_c14_pure__3, {
    match case(3) {
        0 => {
            pure!(Option<D>, 0, |w: &Option<D>| w.show());
            pure!(Result<D, D>, 0, |w: &Result<D, D>| w.show());
            pure!(Vec<D>, 0, |w: &Vec<D>| w.show());
            pure!(Box<D>, 0, |w: &Box<D>| (Vec::<D>::new(), vec![**w]));
        }
        1 => {
            pure!(Maybe<D>, 0, |w: &Maybe<D>| w.show());
            pure!(E, 0, |w: &E| w.show());
            pure!(Id<D>, 0, |w: &Id<D>| w.show());
            pure!(Validated<D, D>, 0, |w: &Validated<D, D>| w.show());
        }
        _ => {
            pure!(Choice<D>, 0, |w: &Choice<D>| w.show());
            pure!(Writer<Vec<D>, D>, 0, |w: &Writer<Vec<D>, D>| w.show());
            pair_with!(Option<D>);
            pair_with!(Result<D, D>);
            pair_with!(Vec<D>);
            pair_with!(Maybe<D>);
            pair_with!(E);
            pair_with!(Id<D>);
            pair_with!(Validated<D, D>);
            pair_with!(Choice<D>);
            pair_with!(Writer<Vec<D>, D>);
        }
    }
});
