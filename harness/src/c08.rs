//! C08: applicative combination of any container applies the function to every combination of
//! values in the documented order and puts failures and logs together from left to right;
//! all entry points (apply, lift2, lift3, sequencing, owned forms) agree, and the applicative
//! laws hold.
//! bound: containers Vec (0..=2 values per operand), Option, Result, Maybe, Either, Id, Validated (a value or 1..=2 errors), Choice (0..=2 values per operand), Writer (log of 0..=2)
//! bound: Choice operands of 9x1, 1x9, 3x3, 8x2, 40x1, 1x40 values and Validated operands of as many errors for lift2; 9x1, 1x9, 3x3, 5x4, 40x1, 1x40 for apply and sequencing; 9x1x1, 1x9x1, 1x1x9, 3x3x1, 1x3x3, 2x2x3 for lift3; Vec operands and Writer logs of 9x1, 1x9, 3x3, 4x5, 40x1, 1x40
//! bound: values, errors and log entries arbitrary in a four-value domain, functions arbitrary tables over it
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
use rustica::traits::pure::Pure;

macro_rules! applicative {
    ($two:ident, $three:ident, $app:ident, $laws:ident, $kind:expr, $mk:ident $(($n:expr))?, $vm:expr, $($decl:tt)*) => {
        harness!($two, {
            $($decl)*
            let k = $kind;
            let (a, b): (Model<D>, Model<D>) = ($mk($($n,)? d), $mk($($n,)? d));
            let (ca, cb) = (<M<D> as Shape<D>>::build(a.clone()), <M<D> as Shape<D>>::build(b.clone()));
            let f = Fun2::any();
            let e = pair(k, &a, &b, |x, y| f.at(*x, *y));
            check(<M<D>>::lift2(|x: &D, y: &D| f.at(*x, *y), &ca, &cb).show() == e, "c08.lift2");
            check(<M<D>>::ap2(|x: &D, y: &D| f.at(*x, *y), &ca, &cb).show() == e, "c08.ap2");
            check(<M<D>>::lift2_owned(|x: D, y: D| f.at(x, y), ca.clone(), cb.clone()).show() == e, "c08.lift2_owned");
            let (r, l) = (pair(k, &a, &b, |_, y| *y), pair(k, &a, &b, |x, _| *x));
            check(<M<D>>::sequence_right::<D, D>(&ca, &cb).show() == r, "c08.sequence_right");
            check(<M<D>>::sequence_right_owned::<D, D>(ca.clone(), cb.clone()).show() == r, "c08.sequence_right");
            check(<M<D>>::sequence_left::<D, D>(&ca, &cb).show() == l, "c08.sequence_left");
            check(<M<D>>::sequence_left_owned::<D, D>(ca.clone(), cb.clone()).show() == l, "c08.sequence_left");
            // once for each combination
            let s = Trace::default();
            let _ = <M<D>>::lift2(|x: &D, _: &D| s.see(*x), &ca, &cb);
            check(s.take().len() == e.1.len(), "c08.lift2_once");
            let _ = <M<D>>::lift2_owned(|x: D, _: D| s.see(x), ca.clone(), cb.clone());
            check(s.take().len() == e.1.len(), "c08.lift2_owned_once");
            check(ca.show() == a && cb.show() == b, "c08.original");
        });
        harness!($three, {
            $($decl)*
            let k = $kind;
            let (a, b, c): (Model<D>, Model<D>, Model<D>) = ($mk($($n,)? d), $mk($($n,)? d), $mk($($n,)? d));
            let (ca, cb, cc) =
                (<M<D> as Shape<D>>::build(a.clone()), <M<D> as Shape<D>>::build(b.clone()), <M<D> as Shape<D>>::build(c.clone()));
            let e = pair(k, &pair(k, &a, &b, |x, y| (*x, *y)), &c, |p, z| (p.0, p.1, *z));
            check(<M<D>>::lift3(|x: &D, y: &D, z: &D| (*x, *y, *z), &ca, &cb, &cc).show() == e, "c08.lift3");
            let s = Trace::default();
            let _ = <M<D>>::lift3(|x: &D, _: &D, _: &D| s.see(*x), &ca, &cb, &cc);
            check(s.take().len() == e.1.len(), "c08.lift3_once");
            let _ = <M<D>>::lift3_owned(|x: D, _: D, _: D| s.see(x), ca.clone(), cb.clone(), cc.clone());
            check(s.take().len() == e.1.len(), "c08.lift3_owned_once");
            check(<M<D>>::lift3_owned(|x: D, y: D, z: D| (x, y, z), ca, cb, cc).show() == e, "c08.lift3_owned");
        });
        harness!($app, {
            $($decl)*
            let k = $kind;
            let fs: Model<Fun> = $mk($($n,)? Fun::any);
            let b: Model<D> = $mk($($n,)? d);
            let cb = <M<D> as Shape<D>>::build(b.clone());
            let e = if $vm {
                let mut v = vec![];
                for y in &b.1 {
                    for f in &fs.1 {
                        v.push(f.at(*y));
                    }
                }
                (vec![], v)
            } else {
                pair(k, &fs, &b, |f, y| f.at(*y))
            };
            fn by_ref(t: Fun) -> impl Fn(&D) -> D + Clone {
                move |x: &D| t.at(*x)
            }
            fn by_val(t: Fun) -> impl Fn(D) -> D + Clone {
                move |x: D| t.at(x)
            }
            fn build<T: Clone, C: Shape<T>>(m: Model<T>, _: impl Fn(&T)) -> C {
                C::build(m)
            }
            let mr = (fs.0.clone(), fs.1.iter().map(|t| by_ref(*t)).collect::<Vec<_>>());
            let mo = (fs.0.clone(), fs.1.iter().map(|t| by_val(*t)).collect::<Vec<_>>());
            let cf: M<_> = build(mr, |_| ());
            check(cf.apply(&cb).show() == e, "c08.apply");
            let co: M<_> = build(mo, |_| ());
            check(co.apply_owned(cb.clone()).show() == e, "c08.apply_owned");
        });
        harness!($laws, {
            $($decl)*
            // identity, homomorphism and interchange
            let a: Model<D> = $mk($($n,)? d);
            let ca = <M<D> as Shape<D>>::build(a.clone());
            let id = |x: &D| *x;
            let pid: M<_> = <M<D> as Pure>::pure(&id);
            check(pid.apply(&ca).show() == a, "c08.identity");
            let t = Fun::any();
            let f = move |x: &D| t.at(*x);
            let x = d();
            let pf: M<_> = <M<D> as Pure>::pure(&f);
            let px: M<D> = <M<D> as Pure>::pure(&x);
            check(px.show() == (vec![], vec![x]), "c08.pure");
            check(<M<D> as Pure>::pure_owned(x).show() == (vec![], vec![x]), "c08.pure");
            let fx: M<D> = pf.apply(&px);
            check(fx.show() == (vec![], vec![t.at(x)]), "c08.homomorphism");
            let fs: Model<Fun> = $mk($($n,)? Fun::any);
            let mr = (fs.0.clone(), fs.1.iter().map(|t| { let t = *t; move |x: &D| t.at(*x) }).collect::<Vec<_>>());
            let cf: M<_> = Shape::build(mr);
            let g: M<D> = cf.apply(&px);
            check(g.show() == mapped(&fs, |t| t.at(x)), "c08.interchange");
        });
    };
}
applicative!(h_c08_vec__3, h_c08_vec3__3, h_c08_vec_apply__3, h_c08_vec_laws__3, Kind::List, many(case(3)), false, type M<T> = Vec<T>;);
applicative!(h_c08_choice__3, h_c08_choice3__3, h_c08_choice_apply__3, h_c08_choice_laws__3, Kind::List, many(case(3)), true, type M<T> = Choice<T>;);
applicative!(h_c08_option, h_c08_option3, h_c08_option_apply, h_c08_option_laws, Kind::First, maybe, false, type M<T> = Option<T>;);
applicative!(h_c08_maybe, h_c08_maybe3, h_c08_maybe_apply, h_c08_maybe_laws, Kind::First, maybe, false, type M<T> = Maybe<T>;);
applicative!(h_c08_result, h_c08_result3, h_c08_result_apply, h_c08_result_laws, Kind::First, or_err, false, type M<T> = Result<T, D>;);
applicative!(h_c08_either, h_c08_either3, h_c08_either_apply, h_c08_either_laws, Kind::First, or_err, false, type M<T> = Either<D, T>;);
applicative!(h_c08_validated, h_c08_validated3, h_c08_validated_apply, h_c08_validated_laws, Kind::Accum, or_errs, false, type M<T> = Validated<D, T>;);
applicative!(h_c08_id, h_c08_id3, h_c08_id_apply, h_c08_id_laws, Kind::First, single, false, type M<T> = Id<T>;);
applicative!(h_c08_writer, h_c08_writer3, h_c08_writer_apply, h_c08_writer_laws, Kind::Log, logged, false, type M<T> = Writer<Vec<D>, T>;);

// operands around the inline capacity (8) of choices and error lists
harness!(h_c08_big__6, {
    let (n, k) = [(9, 1), (1, 9), (3, 3), (8, 2), (40, 1), (1, 40)][case(6)];
    let (a, b) = (many(n, d), many(k, d));
    let (ca, cb): (Choice<D>, Choice<D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let e = pair(Kind::List, &a, &b, |x, y| (*x, *y));
    check(<Choice<D>>::lift2(|x: &D, y: &D| (*x, *y), &ca, &cb).show() == e, "c08.lift2");
    check(<Choice<D>>::lift2_owned(|x: D, y: D| (x, y), ca, cb).show() == e, "c08.lift2_owned");
    let (a, b): (Model<D>, Model<D>) = ((ds(n), vec![]), (ds(k), vec![]));
    let (ca, cb): (Validated<D, D>, Validated<D, D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let e = pair(Kind::Accum, &a, &b, |x, y| (*x, *y));
    check(<Validated<D, D>>::lift2(|x: &D, y: &D| (*x, *y), &ca, &cb).show() == e, "c08.lift2");
    check(<Validated<D, D>>::lift2_owned(|x: D, y: D| (x, y), ca, cb).show() == e, "c08.lift2_owned");
});
harness!(h_c08_big3__6, {
    let (n, k, l) = [(9, 1, 1), (1, 9, 1), (1, 1, 9), (3, 3, 1), (1, 3, 3), (2, 2, 3)][case(6)];
    let (a, b, c) = (many(n, d), many(k, d), many(l, d));
    let (ca, cb, cc): (Choice<D>, Choice<D>, Choice<D>) = (Shape::build(a.clone()), Shape::build(b.clone()), Shape::build(c.clone()));
    let e = pair(Kind::List, &pair(Kind::List, &a, &b, |x, y| (*x, *y)), &c, |p, z| (p.0, p.1, *z));
    check(<Choice<D>>::lift3(|x: &D, y: &D, z: &D| (*x, *y, *z), &ca, &cb, &cc).show() == e, "c08.lift3");
    check(<Choice<D>>::lift3_owned(|x: D, y: D, z: D| (x, y, z), ca, cb, cc).show() == e, "c08.lift3_owned");
    let (a, b, c): (Model<D>, Model<D>, Model<D>) = ((ds(n), vec![]), (ds(k), vec![]), (ds(l), vec![]));
    let (ca, cb, cc): (Validated<D, D>, Validated<D, D>, Validated<D, D>) =
        (Shape::build(a.clone()), Shape::build(b.clone()), Shape::build(c.clone()));
    let e = pair(Kind::Accum, &pair(Kind::Accum, &a, &b, |x, y| (*x, *y)), &c, |p, z| (p.0, p.1, *z));
    check(<Validated<D, D>>::lift3(|x: &D, y: &D, z: &D| (*x, *y, *z), &ca, &cb, &cc).show() == e, "c08.lift3");
    check(<Validated<D, D>>::lift3_owned(|x: D, y: D, z: D| (x, y, z), ca, cb, cc).show() == e, "c08.lift3_owned");
});
harness!(h_c08_big_seq__6, {
    let (n, k) = [(9, 1), (1, 9), (3, 3), (5, 4), (40, 1), (1, 40)][case(6)];
    let (a, b) = (many(n, d), many(k, d));
    let (ca, cb): (Choice<D>, Choice<D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let (r, l) = (pair(Kind::List, &a, &b, |_, y| *y), pair(Kind::List, &a, &b, |x, _| *x));
    check(<Choice<D>>::ap2(|x: &D, y: &D| (*x, *y), &ca, &cb).show() == pair(Kind::List, &a, &b, |x, y| (*x, *y)), "c08.ap2");
    check(<Choice<D>>::sequence_right::<D, D>(&ca, &cb).show() == r, "c08.sequence_right");
    check(<Choice<D>>::sequence_right_owned::<D, D>(ca.clone(), cb.clone()).show() == r, "c08.sequence_right");
    check(<Choice<D>>::sequence_left::<D, D>(&ca, &cb).show() == l, "c08.sequence_left");
    check(<Choice<D>>::sequence_left_owned::<D, D>(ca, cb).show() == l, "c08.sequence_left");
    let (a, b): (Model<D>, Model<D>) = ((ds(n), vec![]), (ds(k), vec![]));
    let (ca, cb): (Validated<D, D>, Validated<D, D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let e = pair(Kind::Accum, &a, &b, |_, y| *y);
    check(<Validated<D, D>>::sequence_right::<D, D>(&ca, &cb).show() == e, "c08.sequence_right");
    check(<Validated<D, D>>::sequence_right_owned::<D, D>(ca.clone(), cb.clone()).show() == e, "c08.sequence_right");
    check(<Validated<D, D>>::sequence_left::<D, D>(&ca, &cb).show() == e, "c08.sequence_left");
    check(<Validated<D, D>>::sequence_left_owned::<D, D>(ca, cb).show() == e, "c08.sequence_left");
});
harness!(h_c08_big_apply__6, {
    let (n, k) = [(9, 1), (1, 9), (3, 3), (5, 4), (40, 1), (1, 40)][case(6)];
    fn by(t: D) -> impl Fn(&D) -> (D, D) + Clone {
        move |x: &D| (t, *x)
    }
    fn owned(t: D) -> impl Fn(D) -> (D, D) + Clone {
        move |x: D| (t, x)
    }
    fn build<T: Clone, C: Shape<T>>(m: Model<T>) -> C {
        C::build(m)
    }
    let (a, b) = (many(n, d), many(k, d));
    let mut e = vec![];
    for y in &b.1 {
        for t in &a.1 {
            e.push((*t, *y));
        }
    }
    let cb: Choice<D> = Shape::build(b.clone());
    let cf: Choice<_> = build((vec![], a.1.iter().map(|t| by(*t)).collect::<Vec<_>>()));
    check(cf.apply(&cb).show() == (vec![], e.clone()), "c08.apply");
    let cf: Choice<_> = build((vec![], a.1.iter().map(|t| owned(*t)).collect::<Vec<_>>()));
    check(cf.apply_owned(cb).show() == (vec![], e), "c08.apply_owned");
    let (a, b): (Model<D>, Model<D>) = ((ds(n), vec![]), (ds(k), vec![]));
    let cb: Validated<D, D> = Shape::build(b.clone());
    fn none<F>(m: &Model<D>, _: F) -> Model<F> {
        (m.0.clone(), vec![])
    }
    let e: Model<(D, D)> = pair(Kind::Accum, &a, &b, |x, y| (*x, *y));
    let cf: Validated<D, _> = build(none(&a, by(0)));
    check(cf.apply(&cb).show() == e, "c08.apply");
    let cf: Validated<D, _> = build(none(&a, owned(0)));
    check(cf.apply_owned(cb).show() == e, "c08.apply_owned");
});
harness!(h_c08_long__6, {
    let (n, k) = [(9, 1), (1, 9), (3, 3), (4, 5), (40, 1), (1, 40)][case(6)];
    let (a, b) = (many(n, d), many(k, d));
    let (ca, cb): (Vec<D>, Vec<D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let e = pair(Kind::List, &a, &b, |x, y| (*x, *y));
    check(<Vec<D>>::lift2(|x: &D, y: &D| (*x, *y), &ca, &cb).show() == e, "c08.lift2");
    check(<Vec<D>>::lift2_owned(|x: D, y: D| (x, y), ca, cb).show() == e, "c08.lift2_owned");
    let (a, b): (Model<D>, Model<D>) = ((ds(n), vec![d()]), (ds(k), vec![d()]));
    let (ca, cb): (Writer<Vec<D>, D>, Writer<Vec<D>, D>) = (Shape::build(a.clone()), Shape::build(b.clone()));
    let e = pair(Kind::Log, &a, &b, |x, y| (*x, *y));
    check(<Writer<Vec<D>, D>>::lift2(|x: &D, y: &D| (*x, *y), &ca, &cb).show() == e, "c08.lift2");
    check(<Writer<Vec<D>, D>>::lift2_owned(|x: D, y: D| (x, y), ca, cb).show() == e, "c08.lift2_owned");
});
