//! C27: converting between result, either, validated, boxed and context-carrying errors keeps the
//! value or the errors exactly; sequencing and traversing give all values in order or the first
//! failure (all failures in order for validated); handlers and two-sided maps act on the side held.
//! bound: collections of 0..=6 (thorough 8) results (validated traversals 0..=4, 7..=10 inputs of which any two may succeed, and 12, 17 or 40 failing ones); validated with a value or 1..=3 errors, and 8, 9 or 40; values and errors in a four-value domain, functions arbitrary (partial) tables
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
//! assume: turning a validated value with several errors into a result keeps the first error (documented); an invalid value without errors is not converted
#![allow(deprecated)]
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::error::*;
use rustica::utils::error_utils as eu;
use rustica::utils::error_utils::{AppError, ResultExt, WithError};

type R = Result<D, D>;
type E = Either<D, D>;
type V = Validated<D, D>;

#[derive(Clone, Copy)]
struct Part(Fun, Pred);
impl Part {
    fn any() -> Part {
        Part(Fun::any(), Pred::any())
    }
    fn at(&self, x: D) -> R {
        if self.1.at(x) { Ok(self.0.at(x)) } else { Err(self.0.at(x)) }
    }
}
fn results(n: usize) -> Vec<R> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(res_d());
    }
    v
}
/// all values in order, or the first error
fn seq(v: &[R]) -> Result<Vec<D>, D> {
    let mut o = vec![];
    for r in v {
        match r {
            Ok(x) => o.push(*x),
            Err(e) => return Err(*e),
        }
    }
    Ok(o)
}
/// errors in order, values in order
fn sides(v: &[R]) -> (Vec<D>, Vec<D>) {
    let (mut e, mut o) = (vec![], vec![]);
    for r in v {
        match r {
            Ok(x) => o.push(*x),
            Err(x) => e.push(*x),
        }
    }
    (e, o)
}
fn either(r: R) -> E {
    match r {
        Ok(x) => Either::Right(x),
        Err(e) => Either::Left(e),
    }
}
fn valid(m: &Model<D>) -> V {
    Shape::build(m.clone())
}
/// a value or some errors, around the inline capacity
fn any_valid() -> Model<D> {
    match case(7) {
        0 => (vec![], vec![d()]),
        n => (ds([1, 2, 3, 8, 9, 40][n - 1]), vec![]),
    }
}
/// the first error or the value
fn first(m: &Model<D>) -> R {
    match m.1.first() {
        Some(x) => Ok(*x),
        None => Err(m.0[0]),
    }
}

harness!(h_c27_convert, {
    let r = res_d();
    let e = either(r);
    check(result_to_either(r) == e && eu::result_to_either(r) == e && r.to_either() == e, "c27.result_to_either");
    check(either_to_result(e.clone()) == r && eu::either_to_result(e.clone()) == r, "c27.either_to_result");
    let one: Model<D> = match r {
        Ok(x) => (vec![], vec![x]),
        Err(x) => (vec![x], vec![]),
    };
    check(result_to_validated(r).show() == one && r.to_validated().show() == one, "c27.result_to_validated");
    check(either_to_validated(e.clone()).show() == one, "c27.either_to_validated");
    check(ResultExt::unwrap_or_default(r) == r.unwrap_or(0), "c27.unwrap_or_default");
    let (f, g) = (Fun::any(), Fun::any());
    check(ResultExt::bimap(r, |x| (0, f.at(x)), |x| (1, g.at(x))) == r.map(|x| (0, f.at(x))).map_err(|x| (1, g.at(x))), "c27.bimap");
});

harness!(h_c27_validated__6, {
    let m = any_valid();
    let v = valid(&m);
    check(validated_to_result(v.clone()) == first(&m), "c27.validated_to_result");
    check(validated_to_either(v.clone()) == either(first(&m)), "c27.validated_to_either");
    check(v.clone().to_result() == first(&m), "c27.to_result");
    let s = split_validated_errors(v.clone());
    let want: Vec<R> = match m.1.first() {
        Some(x) => vec![Ok(*x)],
        None => m.0.iter().map(|e| Err(*e)).collect(),
    };
    check(s == want, "c27.split_validated_errors");
    let f = Fun::any();
    let me: Model<D> = (m.0.iter().map(|x| f.at(*x)).collect(), m.1.clone());
    check(WithError::fmap_error(v.clone(), |x| f.at(x)).show() == me, "c27.fmap_error_validated");
    // collecting gives the errors back
    let c = collect_errors(m.0.clone());
    match c {
        Validated::Valid(()) => check(m.0.is_empty(), "c27.collect_errors"),
        Validated::Invalid(e) => check(!m.0.is_empty() && e.to_vec() == m.0, "c27.collect_errors"),
    }
});

harness!(h_c27_composable, {
    let r = res_d();
    let w = wrap_in_composable_result(r);
    match (&w, r) {
        (Ok(x), Ok(y)) => check(*x == y, "c27.wrap"),
        (Err(e), Err(y)) => check(*e.core_error() == y && e.context().is_empty() && e.error_code().is_none(), "c27.wrap"),
        _ => check(false, "c27.wrap"),
    }
    check(flatten_composable_result(w) == r, "c27.flatten");
    let b = wrap_in_composable_result_boxed(r);
    match (&b, r) {
        (Ok(x), Ok(y)) => check(*x == y, "c27.wrap_boxed"),
        (Err(e), Err(y)) => check(*e.core_error() == y && e.context().is_empty() && e.error_code().is_none(), "c27.wrap_boxed"),
        _ => check(false, "c27.wrap_boxed"),
    }
    let x = d();
    let c: ComposableError<D> = core_to_composable(x);
    check(*c.core_error() == x && c.context().is_empty(), "c27.core_to_composable");
    check(composable_to_core(c.with_context("a").set_code(3)) == x, "c27.composable_to_core");
    let rr: Result<D, ComposableError<D>> = r.map_err(|e| ComposableError::new(e).with_context("b"));
    check(flatten_composable_result(rr) == r, "c27.flatten");
});

harness!(h_c27_ops, {
    let r = res_d();
    let e = either(r);
    let g = Part::any();
    let want = r.or_else(|x| g.at(x));
    check(ErrorOps::recover(r, |x| g.at(x)) == want, "c27.recover");
    let s = Trace::default();
    let _ = ErrorOps::recover(r, |x| g.at(s.see(x)));
    let _ = ErrorOps::recover(e.clone(), |x| either(g.at(s.see(x))));
    check(s.take() == r.err().map_or(vec![], |x| vec![x, x]), "c27.recover_once");
    check(ErrorOps::recover(e.clone(), |x| either(g.at(x))) == either(want), "c27.recover_either");
    let (f, h) = (Fun::any(), Fun::any());
    let both = r.map(|x| (0, f.at(x))).map_err(|x| (1, h.at(x)));
    check(r.bimap_result(|x| (0, f.at(x)), |x| (1, h.at(x))) == both, "c27.bimap_result");
    check(e.clone().bimap_result(|x| (0, f.at(x)), |x| (1, h.at(x))) == both, "c27.bimap_result_either");
    check(WithError::fmap_error(r, |x| (h.at(x), x)) == r.map_err(|x| (h.at(x), x)), "c27.fmap_error");
    check(WithError::fmap_error(e.clone(), |x| h.at(x)) == either(r.map_err(|x| h.at(x))), "c27.fmap_error_either");
    check(WithError::to_result(r) == r && WithError::to_result(e) == r, "c27.to_result");
    let x = d();
    check(<Result<(), D> as ErrorCategory<D>>::lift(x) == Ok(x), "c27.lift");
    check(<Result<(), D> as ErrorCategory<D>>::handle_error::<D>(x) == Err(x), "c27.handle_error");
    check(<E2 as ErrorCategory<D>>::lift(x) == Either::Right(x), "c27.lift");
    check(<E2 as ErrorCategory<D>>::handle_error::<D>(x) == Either::Left(x), "c27.handle_error");
    check(<V2 as ErrorCategory<D>>::lift(x).show() == (vec![], vec![x]), "c27.lift");
    check(<V2 as ErrorCategory<D>>::handle_error::<D>(x).show() == (vec![x], vec![]), "c27.handle_error");
});
type E2 = Either<D, ()>;
type V2 = Validated<D, ()>;

fn traversals(n: usize) {
    let v = results(n);
    check(eu::sequence(v.clone()) == seq(&v), "c27.sequence");
    check(eu::sequence_with_error::<R, D, D>(v.clone()) == seq(&v), "c27.sequence_with_error");
    let es: Vec<E> = v.iter().map(|r| either(*r)).collect();
    check(eu::sequence_with_error::<E, D, D>(es) == seq(&v), "c27.sequence_with_error");
    let vs: Vec<V> = v.iter().map(|r| result_to_validated(*r)).collect();
    check(eu::sequence_with_error::<V, D, D>(vs) == seq(&v), "c27.sequence_with_error");
    // a traversal stops at the first failure
    let xs = ds(n);
    let g = Part::any();
    let img: Vec<R> = xs.iter().map(|x| g.at(*x)).collect();
    let mut seen = vec![];
    let t = eu::traverse(xs.clone(), |x| {
        seen.push(x);
        g.at(x)
    });
    check(t == seq(&img), "c27.traverse");
    let stop = img.iter().position(|r| r.is_err()).map_or(n, |i| i + 1);
    check(seen[..] == xs[..stop], "c27.traverse_order");
    let s = Trace::default();
    let t = eu::traverse(xs.iter().map(|x| s.see(*x)), |x| g.at(x));
    check(t == seq(&img) && s.take() == xs[..stop], "c27.traverse_pulls");
    let mut seen = vec![];
    let t = eu::traverse_validated(xs.clone(), |x| {
        seen.push(x);
        g.at(x)
    });
    check(seen == xs, "c27.traverse_validated_order");
    let (e, o) = sides(&img);
    match t {
        Validated::Valid(y) => check(e.is_empty() && y == o, "c27.traverse_validated"),
        Validated::Invalid(y) => check(!e.is_empty() && y.to_vec() == e, "c27.traverse_validated"),
    }
}
harness!(h_c27_traverse__7, {
    traversals(case(7));
});
harness!(ht_c27_traverse8__2, {
    traversals(7 + case(2));
});
harness!(h_c27_traverse_many__7, {
    // as many errors as are kept inline, and more; any two inputs may succeed, or none
    let n = [7, 8, 9, 10, 12, 17, 40][case(7)];
    let xs = ds(n);
    let hint = case(5);
    let (i, j) = if n > 10 { (n, n) } else { (case(n + 1), case(n)) };
    let v: Vec<R> = xs.iter().enumerate().map(|(k, x)| if k == i || k == j { Ok(*x) } else { Err(*x) }).collect();
    let (e, _) = sides(&v);
    match eu::traverse_validated(hinted(v.clone(), hint), |r| r) {
        Validated::Valid(_) => check(false, "c27.traverse_validated_many"),
        Validated::Invalid(y) => check(y.to_vec() == e, "c27.traverse_validated_many"),
    }
    match collect_errors(hinted(xs.clone(), hint)) {
        Validated::Valid(_) => check(false, "c27.collect_many"),
        Validated::Invalid(y) => check(y.to_vec() == xs, "c27.collect_many"),
    }
});

harness!(h_c27_app_error, {
    let (x, y) = (d(), d());
    let a: AppError<D, D> = AppError::new(x);
    let b = AppError::with_context(x, y);
    check(*a.message() == x && a.context().is_none(), "c27.app_error");
    check(*b.message() == x && b.context() == Some(&y), "c27.app_error");
    check(eu::error(x) == AppError::<D, ()>::new(x), "c27.app_error");
    check(eu::error_with_context(x, y) == b, "c27.app_error");
    let f = Fun::any();
    let p = Pred::any();
    let m = b.clone().map(|x| f.at(x));
    check(*m.message() == f.at(x) && m.context() == Some(&y), "c27.app_error_map");
    let h = |c: Option<D>| match c {
        Some(c) if p.at(c) => Some(f.at(c)),
        Some(_) => None,
        None => Some(3),
    };
    let m = b.clone().map_context(h);
    check(*m.message() == x && m.context().copied() == h(Some(y)), "c27.app_error_map_context");
    let m = a.clone().map_context(h);
    check(*m.message() == x && m.context().copied() == h(None), "c27.app_error_map_context");
    let (x2, y2) = (d(), d());
    check((b == AppError::with_context(x2, y2)) == (x == x2 && y == y2), "c27.app_error_eq");
    check(!(a == b), "c27.app_error_eq");
    let mut s = digit(x);
    check(format!("{}", a) == s, "c27.app_error_display");
    s.push_str(" (Context: ");
    s.push_str(&digit(y));
    s.push(')');
    check(format!("{}", b) == s, "c27.app_error_display");
});
fn digit(x: D) -> String {
    ((b'0' + x) as char).to_string()
}
