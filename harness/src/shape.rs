//! One view of every container the library provides: what it carries besides its values
//! (errors or a log) and the values in order.  The reference results of C07..C11 are
//! written against this view, independently of the library.
#![allow(dead_code)]
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::identity::Identity;

/// (errors or log, values)
pub type Model<T> = (Vec<D>, Vec<T>);

/// How effects of several containers come together.
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// all values of all containers
    List,
    /// the leftmost failure
    First,
    /// all failures
    Accum,
    /// all logs
    Log,
}

pub trait Shape<T>: Sized {
    fn show(&self) -> Model<T>;
    fn build(m: Model<T>) -> Self;
}
impl<T: Clone> Shape<T> for Vec<T> {
    fn show(&self) -> Model<T> {
        (vec![], self.clone())
    }
    fn build(m: Model<T>) -> Self {
        m.1
    }
}
impl<T: Clone> Shape<T> for PersistentVector<T> {
    fn show(&self) -> Model<T> {
        (vec![], self.to_vec())
    }
    fn build(m: Model<T>) -> Self {
        PersistentVector::from_slice(&m.1)
    }
}
impl<T: Clone> Shape<T> for Choice<T> {
    fn show(&self) -> Model<T> {
        (vec![], self.iter().cloned().collect())
    }
    fn build(m: Model<T>) -> Self {
        m.1.into_iter().collect()
    }
}
impl<T: Clone> Shape<T> for Option<T> {
    fn show(&self) -> Model<T> {
        (vec![], self.iter().cloned().collect())
    }
    fn build(m: Model<T>) -> Self {
        m.1.into_iter().next()
    }
}
impl<T: Clone> Shape<T> for Maybe<T> {
    fn show(&self) -> Model<T> {
        match self {
            Maybe::Just(x) => (vec![], vec![x.clone()]),
            Maybe::Nothing => (vec![], vec![]),
        }
    }
    fn build(m: Model<T>) -> Self {
        match m.1.into_iter().next() {
            Some(x) => Maybe::Just(x),
            None => Maybe::Nothing,
        }
    }
}
impl<T: Clone> Shape<T> for Result<T, D> {
    fn show(&self) -> Model<T> {
        match self {
            Ok(x) => (vec![], vec![x.clone()]),
            Err(e) => (vec![*e], vec![]),
        }
    }
    fn build(m: Model<T>) -> Self {
        match m.1.into_iter().next() {
            Some(x) => Ok(x),
            None => Err(m.0[0]),
        }
    }
}
impl<T: Clone> Shape<T> for Either<D, T> {
    fn show(&self) -> Model<T> {
        match self {
            Either::Right(x) => (vec![], vec![x.clone()]),
            Either::Left(e) => (vec![*e], vec![]),
        }
    }
    fn build(m: Model<T>) -> Self {
        match m.1.into_iter().next() {
            Some(x) => Either::Right(x),
            None => Either::Left(m.0[0]),
        }
    }
}
impl<T: Clone> Shape<T> for Validated<D, T> {
    fn show(&self) -> Model<T> {
        match self {
            Validated::Valid(x) => (vec![], vec![x.clone()]),
            Validated::Invalid(e) => (e.iter().copied().collect(), vec![]),
        }
    }
    fn build(m: Model<T>) -> Self {
        match m.1.into_iter().next() {
            Some(x) => Validated::Valid(x),
            None => Validated::invalid_many(m.0),
        }
    }
}
impl<T: Clone> Shape<T> for Id<T> {
    fn show(&self) -> Model<T> {
        (vec![], vec![self.value().clone()])
    }
    fn build(m: Model<T>) -> Self {
        Id::new(m.1.into_iter().next().unwrap())
    }
}
impl<T: Clone> Shape<T> for Writer<Vec<D>, T> {
    fn show(&self) -> Model<T> {
        let (l, x) = self.clone().run();
        (l, vec![x])
    }
    fn build(m: Model<T>) -> Self {
        Writer::new(m.0, m.1.into_iter().next().unwrap())
    }
}

/// Symbolic models.
pub fn many<T>(n: usize, mk: impl Fn() -> T) -> Model<T> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(mk());
    }
    (vec![], v)
}
/// zero or one value, nothing else
pub fn maybe<T>(mk: impl Fn() -> T) -> Model<T> {
    many(case(2), mk)
}
/// a value or one error
pub fn or_err<T>(mk: impl Fn() -> T) -> Model<T> {
    if case(2) == 0 { (vec![d()], vec![]) } else { (vec![], vec![mk()]) }
}
/// a value or 1..=2 errors
pub fn or_errs<T>(mk: impl Fn() -> T) -> Model<T> {
    match case(3) {
        0 => (vec![], vec![mk()]),
        n => (ds(n), vec![]),
    }
}
/// a value and a log of 0..=2
pub fn logged<T>(mk: impl Fn() -> T) -> Model<T> {
    (ds(case(3)), vec![mk()])
}
/// exactly one value
pub fn single<T>(mk: impl Fn() -> T) -> Model<T> {
    (vec![], vec![mk()])
}

/// The reference combination of two models.
pub fn pair<A: Clone, B: Clone, C>(k: Kind, a: &Model<A>, b: &Model<B>, f: impl Fn(&A, &B) -> C) -> Model<C> {
    let mut vals = vec![];
    for x in &a.1 {
        for y in &b.1 {
            vals.push(f(x, y));
        }
    }
    let mut ctx = vec![];
    match k {
        Kind::List => {}
        Kind::First => {
            if a.1.is_empty() {
                ctx = a.0.clone();
            } else if b.1.is_empty() {
                ctx = b.0.clone();
            }
        }
        Kind::Accum | Kind::Log => {
            ctx.extend_from_slice(&a.0);
            ctx.extend_from_slice(&b.0);
        }
    }
    (ctx, vals)
}
/// The reference result of feeding every value to `f`.
pub fn chain<A, B: Clone>(a: &Model<A>, f: impl Fn(&A) -> Model<B>) -> Model<B> {
    let mut r = (a.0.clone(), vec![]);
    for x in &a.1 {
        let (c, v) = f(x);
        r.0.extend(c);
        r.1.extend(v);
    }
    r
}
pub fn mapped<A, B>(a: &Model<A>, f: impl Fn(&A) -> B) -> Model<B> {
    (a.0.clone(), a.1.iter().map(f).collect())
}
