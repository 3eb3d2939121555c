//! C30: writing a value as JSON and reading it back gives an equal value, for every serialisable
//! type alone, nested in one another, and from the generic JSON tree; different values are
//! written differently, and a value reads back only from the form its own case is written in.
//! bound: validated with a value or 0..=3, 8, 9 or (fixed) 40 errors, choices of 0..=3, 8..=9 and (fixed) 40 values, either, maybe, identity, the numeric and selection wrappers, writers with logs of 0..=2, strings of one arbitrary letter (alone) or a few fixed ones with and without escapes (nested), lists of 0..=2 nested values; numbers in a four-value domain
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::max::Max;
use rustica::datatypes::wrapper::min::Min;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use serde::Serialize;
use serde::de::DeserializeOwned;

fn back<T: Serialize + DeserializeOwned>(x: &T) -> Option<T> {
    let s = serde_json::to_string(x).ok()?;
    serde_json::from_str(&s).ok()
}
fn tree<T: Serialize + DeserializeOwned>(x: &T) -> Option<T> {
    serde_json::from_value(serde_json::to_value(x).ok()?).ok()
}
fn rt<T: Serialize + DeserializeOwned + PartialEq>(x: T, id: &'static str) {
    check(back(&x).as_ref() == Some(&x), id);
    check(tree(&x).as_ref() == Some(&x), id);
}
/// arbitrary values, fixed ones when many
fn some(n: usize) -> Vec<D> {
    if n < 10 { ds(n) } else { (0..n).map(|i| (i % 4) as D).collect() }
}
fn any_valid() -> Model<D> {
    match case(8) {
        0 => (vec![], vec![d()]),
        n => (some([0, 1, 2, 3, 8, 9, 40][n - 1]), vec![]),
    }
}
harness!(h_c30_validated__8, {
    let m = any_valid();
    let v: Validated<D, D> = match m.1.first() {
        Some(x) => Validated::Valid(*x),
        None => Validated::Invalid(m.0.iter().copied().collect()),
    };
    check(back(&v).map(|w| w.show()) == Some(m.clone()), "c30.validated");
    check(tree(&v).map(|w| w.show()) == Some(m), "c30.validated");
});
harness!(h_c30_choice__7, {
    let xs = some([0, 1, 2, 3, 8, 9, 40][case(7)]);
    let c: Choice<D> = xs.iter().copied().collect();
    check(back(&c).map(|w| w.to_vec()) == Some(xs.clone()), "c30.choice");
    check(tree(&c).map(|w| w.to_vec()) == Some(xs), "c30.choice");
});
harness!(h_c30_sides__2, {
    let (x, y) = (d(), d());
    if case(2) == 0 {
        rt(Either::<D, D>::Left(x), "c30.either");
        rt(Maybe::<D>::Nothing, "c30.maybe");
        rt(First::<D>(None), "c30.first");
        rt(Last::<D>(None), "c30.last");
    } else {
        rt(Either::<D, D>::Right(x), "c30.either");
        rt(Maybe::Just(x), "c30.maybe");
        rt(First(Some(x)), "c30.first");
        rt(Last(Some(x)), "c30.last");
    }
    rt(Id::new(x), "c30.id");
    rt(Sum(x), "c30.sum");
    rt(Product(x), "c30.product");
    rt(Min(x), "c30.min");
    rt(Max(x), "c30.max");
    // two values are written alike only when equal
    let w = |e: &Either<D, D>| serde_json::to_string(e).unwrap();
    let a = if boolean() { Either::Left(x) } else { Either::Right(x) };
    let b = if boolean() { Either::Left(y) } else { Either::Right(y) };
    check((w(&a) == w(&b)) == (a == b), "c30.distinct");
});
harness!(h_c30_writer__3, {
    let n = case(3);
    let (log, x) = (ds(n), d());
    let w = Writer::new(log.clone(), x);
    check(back(&w).map(|w| w.run()) == Some((log.clone(), x)), "c30.writer");
    check(tree(&w).map(|w| w.run()) == Some((log, x)), "c30.writer");
    let t = word();
    let w = Writer::new(t.clone(), x);
    check(back(&w).map(|w| w.run()) == Some((t, x)), "c30.writer");
});
harness!(h_c30_nested__9, {
    let c = case(9);
    let mut v: Vec<Either<Maybe<D>, Validated<String, Choice<D>>>> = vec![];
    for (j, k) in [c % 3, c / 3].into_iter().enumerate() {
        match k {
            0 => {}
            1 => v.push(Either::Left(if case(2) == 0 { Maybe::Nothing } else { Maybe::Just(d()) })),
            _ => v.push(Either::Right(match case(3 - j) {
                0 => Validated::Valid(ds(case(3)).into_iter().collect()),
                _ if j == 1 => Validated::Invalid(vec!["z".to_string(), String::new()].into()),
                n => {
                    let mut e = vec![];
                    for i in 0..n {
                        e.push(word());
                    }
                    Validated::Invalid(e.into())
                }
            })),
        }
    }
    rt(v, "c30.nested");
    rt(Id::new(Sum(Maybe::Just(Max(d())))), "c30.nested");
    rt(First(Some(text(1))), "c30.text");
});
fn word() -> String {
    ["", "b", "q\"\\\n", "\u{e9}"][case(4)].to_string()
}
