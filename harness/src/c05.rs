//! C05: the wrappers select or accumulate what their name says and give back what they hold.
//! bound: Sum, Product, Min, Max, First, Last over unconstrained 8-bit values (numbers wrapping), 8-bit signed values, folds of 0..=4, 8, 9 and 17 values; Min and Max also over values equal in order but not in content
//! assume: numbers are combined with wrapping arithmetic, so overflow is outside the claim
use crate::harness;
use crate::sx::*;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::num::Wrapping;

harness!(h_c05_held, {
    let (x, y) = (byte(), byte());
    let (wx, wy) = (Wrapping(x), Wrapping(y));
    let f = Fun::any();
    macro_rules! held {
        ($w:ident) => {
            let a = $w(wx);
            check(a.clone().unwrap() == wx && a.clone().unwrap_or(wy) == wx, "c05.unwrap");
            check(*a.as_ref() == wx && *a.value() == wx && a.clone().into_value() == wx, "c05.value");
            check($w::from(wx) == a && a.0 == wx, "c05.from");
            check(a.fmap(|v| Wrapping(v.0 ^ 5)).0 == Wrapping(x ^ 5), "c05.fmap");
            check(a.clone().fmap_owned(|v| Wrapping(v.0 ^ 5)).0 == Wrapping(x ^ 5), "c05.fmap_owned");
            check(($w(x) == $w(y)) == (x == y) && $w(x).cmp(&$w(y)) == x.cmp(&y), "c05.order");
            check($w(x & 3).fmap(|v| f.at(*v)).0 == f.at(x & 3), "c05.fmap_fun");
        };
    }
    held!(Sum);
    held!(Product);
    held!(Min);
    held!(Max);
    macro_rules! opt {
        ($w:ident) => {
            let a = $w(Some(x));
            check(a.unwrap() == x && a.unwrap_or(y) == x && $w::<u8>(None).unwrap_or(y) == y, "c05.opt_unwrap");
            check(*a.as_ref() == x && *a.value() == x && a.clone().into_value() == x, "c05.opt_value");
            check($w::from(x) == a, "c05.opt_from");
            check(a.fmap(|v| v ^ 5) == $w(Some(x ^ 5)) && $w::<u8>(None).fmap(|v| v ^ 5) == $w(None), "c05.opt_fmap");
            check(a.fmap_owned(|v| v ^ 5) == $w(Some(x ^ 5)) && $w::<u8>(None).fmap_owned(|v| v ^ 5) == $w(None), "c05.opt_fmap_owned");
            check(panics(|| { $w::<u8>(None).unwrap(); }), "c05.opt_panic");
        };
    }
    opt!(First);
    opt!(Last);
});
harness!(h_c05_fold__5, {
    let n = case(5);
    let mut v = Vec::new();
    let mut o = Vec::new();
    for _ in 0..n {
        v.push(byte());
        o.push(opt_d());
    }
    let s = v.iter().fold(Sum::empty(), |a: Sum<Wrapping<u8>>, x| a.combine(&Sum(Wrapping(*x))));
    check(s.0 == v.iter().fold(Wrapping(0), |a, x| a + Wrapping(*x)), "c05.sum");
    let m = v.iter().fold(Max::empty(), |a: Max<u8>, x| a.combine_owned(Max(*x)));
    check(m.0 == v.iter().copied().max().unwrap_or(0), "c05.max");
    if n > 0 {
        let m = v.iter().fold(Min(v[0]), |a, x| a.combine_owned(Min(*x)));
        check(m.0 == v.iter().copied().min().unwrap(), "c05.min");
        let m = v.iter().fold(Min(v[0]), |a, x| Min(*x).combine(&a));
        check(m.0 == v.iter().copied().min().unwrap(), "c05.min");
        let p = v.iter().fold(Product(Wrapping(1u8)), |a, x| a.combine(&Product(Wrapping(*x & 7))));
        check(p.0 == v.iter().fold(Wrapping(1), |a, x| a * Wrapping(*x & 7)), "c05.product");
    }
    let f = o.iter().fold(First::empty(), |a: First<u8>, x| a.combine(&First(*x)));
    check(f.0 == o.iter().copied().flatten().next(), "c05.first");
    let l = o.iter().fold(Last::empty(), |a: Last<u8>, x| a.combine(&Last(*x)));
    check(l.0 == o.iter().copied().flatten().last(), "c05.last");
});
harness!(h_c05_empty, {
    check(Sum::<u8>::empty() == Sum(0) && Product::<u16>::empty() == Product(1) && Max::<u8>::empty() == Max(0) && Min::<u8>::empty() == Min(0), "c05.empty");
    check(First::<u8>::empty() == First(None) && Last::<u8>::empty() == Last(None), "c05.empty");
    let (a, b) = (Keyed(d(), d()), Keyed(d(), d()));
    let bits = |k: Keyed| (k.0, k.1);
    let lo = if a <= b { a } else { b };
    let hi = if a >= b { a } else { b };
    check(bits(Min(a).combine(&Min(b)).0) == bits(lo) && bits(Min(a).combine_owned(Min(b)).0) == bits(lo), "c05.min_tie");
    check(bits(Max(a).combine(&Max(b)).0) == bits(hi) && bits(Max(a).combine_owned(Max(b)).0) == bits(hi), "c05.max_tie");
});
harness!(h_c05_show, {
    let x = d();
    let s = x.to_string();
    check(format!("{}", Sum(x)) == format!("Sum({s})") && format!("{}", Product(x)) == format!("Product({s})"), "c05.display");
    check(format!("{}", Min(x)) == format!("Min({s})") && format!("{}", Max(x)) == format!("Max({s})"), "c05.display");
    check(format!("{:?}", Sum(x)) == format!("Sum({s})") && format!("{:?}", Product(x)) == format!("Product({s})"), "c05.debug");
    check(format!("{:?}", Min(x)) == format!("Min({s})") && format!("{:?}", Max(x)) == format!("Max({s})"), "c05.debug");
    check(format!("{}", First(Some(x))) == format!("First(Some({s}))") && format!("{}", First::<u8>(None)) == "First(None)", "c05.opt_display");
    check(format!("{}", Last(Some(x))) == format!("Last(Some({s}))") && format!("{}", Last::<u8>(None)) == "Last(None)", "c05.opt_display");
});
harness!(h_c05_long__3, {
    // long folds, by reference, owned, and from the other side
    let n = [8, 9, 17][case(3)];
    let v: Vec<u8> = (0..n).map(|_| byte()).collect();
    let s = v.iter().fold(Sum(Wrapping(0u8)), |a, x| a.combine(&Sum(Wrapping(*x))));
    let t = v.iter().fold(Sum(Wrapping(0u8)), |a, x| Sum(Wrapping(*x)).combine_owned(a));
    let e = v.iter().fold(Wrapping(0), |a, x| a + Wrapping(*x));
    check(s.0 == e && t.0 == e, "c05.sum");
    let e = v.iter().fold(v[0], |a, x| if *x > a { *x } else { a });
    check(v.iter().fold(Max(v[0]), |a, x| a.combine(&Max(*x))).0 == e, "c05.max");
    check(v.iter().fold(Max(v[0]), |a, x| Max(*x).combine_owned(a)).0 == e, "c05.max");
    let e = v.iter().fold(v[0], |a, x| if *x < a { *x } else { a });
    check(v.iter().fold(Min(v[0]), |a, x| a.combine(&Min(*x))).0 == e, "c05.min");
    check(v.iter().fold(Min(v[0]), |a, x| Min(*x).combine_owned(a)).0 == e, "c05.min");
    // absent values around the present ones
    let (i, j) = (case(3), [n - 1, n - 2, 5][case(3)]);
    let o: Vec<Option<u8>> = (0..n).map(|k| if k < i || k > j { None } else { Some(v[k]) }).collect();
    check(o.iter().fold(First::empty(), |a: First<u8>, x| a.combine_owned(First(*x))).0 == Some(v[i]), "c05.first");
    check(o.iter().fold(Last::empty(), |a: Last<u8>, x| a.combine_owned(Last(*x))).0 == Some(v[j]), "c05.last");
    check(o.iter().rev().fold(First::empty(), |a: First<u8>, x| First(*x).combine(&a)).0 == Some(v[i]), "c05.first");
    check(o.iter().rev().fold(Last::empty(), |a: Last<u8>, x| Last(*x).combine(&a)).0 == Some(v[j]), "c05.last");
});
harness!(h_c05_signed, {
    let (x, y) = (byte() as i8, byte() as i8);
    check(Max(x).combine(&Max(y)).0 == x.max(y) && Max(x).combine_owned(Max(y)).0 == x.max(y), "c05.max_signed");
    check(Min(x).combine(&Min(y)).0 == x.min(y) && Min(x).combine_owned(Min(y)).0 == x.min(y), "c05.min_signed");
    let (a, b) = (x as i32, y as i32);
    check(Sum(a).combine(&Sum(b)).0 == a + b && Sum(a).combine_owned(Sum(b)).0 == a + b, "c05.sum_signed");
    check(Product(a).combine(&Product(b)).0 == a * b && Product(a).combine_owned(Product(b)).0 == a * b, "c05.product_signed");
    check(Max(x) >= Max(y) && Min(x) >= Min(y) || x < y, "c05.order_signed");
});
