//! C10: choosing between alternatives: the first success wins (Choice: all values in order),
//! empty is its identity, guard and many match the condition, and catching runs the handler
//! on failures only.
//! bound: alternatives Option, Maybe, Either, Validated (a value or 1..=2 errors), Vec and Choice (0..=3 values); MonadPlus of Option, Result, Maybe, Either, Validated, Choice; MonadError of Result and Option
//! bound: Vec and Choice of 8x1, 1x8, 9x2, 2x9, 0x9, 9x0, 4x5, 5x4, 9x9, 40x1, 1x40, 40x40 values, Validated of as many errors
//! bound: values and errors arbitrary in a four-value domain, handlers arbitrary tables
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::traits::alternative::Alternative;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;

#[derive(Clone, Copy, PartialEq)]
enum Both {
    /// keep the first failure
    First,
    /// report the second failure
    Second,
    /// report all of both
    All,
}

fn choose(all: bool, both: Both, a: &Model<D>, b: &Model<D>) -> Model<D> {
    if all {
        let mut v = a.1.clone();
        v.extend_from_slice(&b.1);
        return (vec![], v);
    }
    if !a.1.is_empty() {
        return a.clone();
    }
    if !b.1.is_empty() {
        return b.clone();
    }
    match both {
        Both::First => a.clone(),
        Both::Second => b.clone(),
        Both::All => {
            let mut e = a.0.clone();
            e.extend_from_slice(&b.0);
            (e, vec![])
        }
    }
}

macro_rules! alternative {
    ($name:ident, $mk:ident $(($n:expr))?, $all:expr, $fail:expr, $many:expr, $($decl:tt)*) => {
        harness!($name, {
            $($decl)*
            let (a, b, c): (Model<D>, Model<D>, Model<D>) = ($mk($($n,)? d), $mk($($n,)? d), $mk($($n,)? d));
            let bd = |m: &Model<D>| <M<D> as Shape<D>>::build(m.clone());
            let (x, y, z) = (bd(&a), bd(&b), bd(&c));
            let ab = choose($all, Both::Second, &a, &b);
            check(x.alt(&y).show() == ab, "c10.alt");
            let fail: Vec<D> = $fail;
            let zero: M<D> = <M<D>>::empty_alt::<D>();
            check(zero.show() == (fail.clone(), vec![]), "c10.empty_alt");
            check(zero.alt(&x).show() == a, "c10.alt_left_id");
            check(x.alt(&zero).show().1 == a.1, "c10.alt_right_id");
            check(x.alt(&y).alt(&z).show() == x.alt(&y.alt(&z)).show(), "c10.alt_assoc");
            let g = boolean();
            check(<M<D>>::guard(g).show() == if g { (vec![], vec![()]) } else { (fail.clone(), vec![]) }, "c10.guard");
            let many: fn(&Vec<D>) -> Vec<D> = $many;
            let e = if a.1.is_empty() { (fail.clone(), vec![]) } else { (vec![], vec![many(&a.1)]) };
            check(x.many().show() == e, "c10.many");
            check(x.show() == a && y.show() == b, "c10.original");
        });
    };
}
alternative!(h_c10_option, maybe, false, vec![], |v| v.clone(), type M<T> = Option<T>;);
alternative!(h_c10_maybe, maybe, false, vec![], |v| v.clone(), type M<T> = Maybe<T>;);
alternative!(h_c10_either, or_err, false, vec![D::default()], |v| v.clone(), type M<T> = Either<D, T>;);
alternative!(h_c10_validated, or_errs, false, vec![D::default()], |v| v.clone(), type M<T> = Validated<D, T>;);
alternative!(h_c10_vec__4, many(case(4)), false, vec![], |v| v.clone(), type M<T> = Vec<T>;);
alternative!(h_c10_choice__4, many(case(4)), true, vec![], |v| vec![v[0]], type M<T> = Choice<T>;);

macro_rules! monad_plus {
    ($name:ident, $mk:ident $(($n:expr))?, $all:expr, $both:expr, $fail:expr, $lid:expr, $rid:expr, $($decl:tt)*) => {
        harness!($name, {
            $($decl)*
            let (a, b, c): (Model<D>, Model<D>, Model<D>) = ($mk($($n,)? d), $mk($($n,)? d), $mk($($n,)? d));
            let bd = |m: &Model<D>| <M<D> as Shape<D>>::build(m.clone());
            let (x, y, z) = (bd(&a), bd(&b), bd(&c));
            let ab = choose($all, $both, &a, &b);
            check(x.mplus(&y).show() == ab, "c10.mplus");
            check(x.clone().mplus_owned(y.clone()).show() == ab, "c10.mplus_owned");
            check(x.mplus(&y).mplus(&z).show() == x.mplus(&y.mplus(&z)).show(), "c10.mplus_assoc");
            let zero: M<D> = <M<D>>::mzero::<D>();
            let fail: Vec<D> = $fail;
            check(zero.show() == (fail.clone(), vec![]), "c10.mzero");
            // an identity; for Either and Result up to the error reported when both fail
            let l = zero.mplus(&x).show();
            check(if $lid { l == a } else { l.1 == a.1 }, "c10.mplus_left_id");
            let r = x.mplus(&zero).show();
            check(if $rid { r == a } else { r.1 == a.1 }, "c10.mplus_right_id");
            let f = Fun::any();
            let k = |x: &D| -> M<D> { Shape::build((vec![], vec![f.at(*x)])) };
            let zb: M<D> = zero.bind(k);
            check(zb.show() == (fail, vec![]), "c10.mzero_bind");
        });
    };
}
monad_plus!(h_c10_option_plus, maybe, false, Both::Second, vec![], true, true, type M<T> = Option<T>;);
monad_plus!(h_c10_maybe_plus, maybe, false, Both::Second, vec![], true, true, type M<T> = Maybe<T>;);
monad_plus!(h_c10_either_plus, or_err, false, Both::First, vec![D::default()], false, true, type M<T> = Either<D, T>;);
monad_plus!(h_c10_result_plus, or_err, false, Both::Second, vec![D::default()], true, false, type M<T> = Result<T, D>;);
monad_plus!(h_c10_validated_plus, or_errs, false, Both::All, vec![], true, true, type M<T> = Validated<D, T>;);
monad_plus!(h_c10_choice_plus__4, many(case(4)), true, Both::All, vec![], true, true, type M<T> = Choice<T>;);

harness!(h_c10_catch_result, {
    let m: Model<D> = or_err(d);
    let c: Result<D, D> = Shape::build(m.clone());
    let (ok, f) = (Pred::any(), Fun::any());
    let h = |e: &D| -> Result<D, D> { if ok.at(*e) { Ok(f.at(*e)) } else { Err(f.at(*e)) } };
    let e = match &c {
        Ok(x) => Ok(*x),
        Err(e) => h(e),
    };
    check(MonadError::<D>::catch(&c, h) == e, "c10.catch");
    check(MonadError::<D>::catch_owned(c.clone(), |e| h(&e)) == e, "c10.catch_owned");
    // the handler runs once on a failure and not on a success
    let s = Trace::default();
    let _ = MonadError::<D>::catch(&c, |e: &D| h(&s.see(*e)));
    let _ = MonadError::<D>::catch_owned(c.clone(), |e| h(&s.see(e)));
    let _ = ErrorMapper::<D>::map_error_to(&c, |e| s.see(*e));
    let _ = ErrorMapper::<D>::map_error_to_owned(c.clone(), |e| s.see(e));
    check(s.take() == m.0.iter().flat_map(|e| [*e; 4]).collect::<Vec<D>>(), "c10.handler_once");
    let x = d();
    let t: Result<D, D> = <Result<D, D> as MonadError<D>>::throw::<D>(x);
    check(t == Err(x), "c10.throw");
    // throw then catch hands the thrown error to the handler; a handler is not run twice
    check(MonadError::<D>::catch(&t, h) == h(&x), "c10.throw_catch");
    let g = Fun::any();
    let me = c.clone().map_err(|e| g.at(e));
    check(ErrorMapper::<D>::map_error_to(&c, |e| g.at(*e)) == me, "c10.map_error_to");
    check(ErrorMapper::<D>::map_error_to_owned(c, |e| g.at(e)) == me, "c10.map_error_to");
});
harness!(h_c10_catch_option, {
    let c: Option<D> = opt_d();
    let h: Option<D> = opt_d();
    let e = if c.is_some() { c } else { h };
    check(MonadError::<()>::catch(&c, |_| h) == e, "c10.catch");
    check(MonadError::<()>::catch_owned(c, |_| h) == e, "c10.catch_owned");
    let s = Trace::default();
    let _ = MonadError::<()>::catch(&c, |_| { s.see(0); h });
    let _ = MonadError::<()>::catch_owned(c, |_| { s.see(0); h });
    check(s.take().len() == if c.is_some() { 0 } else { 2 }, "c10.handler_once");
    check(<Option<D> as MonadError<()>>::throw::<D>(()).is_none(), "c10.throw");
    let k = d();
    check(ErrorMapper::<()>::map_error_to(&c, |_| k) == c.ok_or(k), "c10.map_error_to");
    check(ErrorMapper::<()>::map_error_to_owned(c, |_| k) == c.ok_or(k), "c10.map_error_to");
});

// operands around the inline capacity (8) of choices and error lists
harness!(h_c10_big__12, {
    let (n, k) = [(8, 1), (1, 8), (9, 2), (2, 9), (0, 9), (9, 0), (4, 5), (5, 4), (9, 9), (40, 1), (1, 40), (40, 40)][case(12)];
    let (a, b) = (ds(n), ds(k));
    let mut e = a.clone();
    e.extend_from_slice(&b);
    let (x, y): (Choice<D>, Choice<D>) = (Shape::build((vec![], a.clone())), Shape::build((vec![], b.clone())));
    check(x.alt(&y).show() == (vec![], e.clone()), "c10.alt");
    check(x.mplus(&y).show() == (vec![], e.clone()), "c10.mplus");
    let zero: Choice<D> = <Choice<D>>::mzero::<D>();
    check(zero.mplus(&x).show().1 == a && x.mplus(&zero).show().1 == a, "c10.mplus_identity");
    check(zero.alt(&x).show().1 == a && x.alt(&zero).show().1 == a, "c10.alt_identity");
    check(x.mplus_owned(y).show() == (vec![], e.clone()), "c10.mplus_owned");
    let (x, y): (Vec<D>, Vec<D>) = (a.clone(), b.clone());
    check(x.alt(&y) == if n > 0 { &a } else { &b }.clone(), "c10.alt");
    if n > 0 && k > 0 {
        let (x, y): (Validated<D, D>, Validated<D, D>) = (Shape::build((a.clone(), vec![])), Shape::build((b.clone(), vec![])));
        check(x.alt(&y).show() == (b.clone(), vec![]), "c10.alt");
        check(x.mplus(&y).show() == (e.clone(), vec![]), "c10.mplus");
        let zero: Validated<D, D> = <Validated<D, D>>::mzero::<D>();
        check(zero.mplus(&x).show().0 == a && x.mplus(&zero).show().0 == a, "c10.mplus_identity");
        check(x.mplus_owned(y).show() == (e, vec![]), "c10.mplus_owned");
    }
});
