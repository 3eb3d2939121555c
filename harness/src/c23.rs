//! C23: isomorphisms convert there and back: composition, inversion, lifting of functions and
//! modification are those of the underlying pair of functions, the law check answers exactly
//! whether both round trips hold at the given points, and the provided conversions between
//! result, either and validated lose nothing on single-error values.
//! bound: arbitrary pairs of tables over four-value types, compositions of two and three (the third to a pair with a list), inverses of and in them; results with values and errors in a four-value domain
//! assume: converting a validated value with several errors to a result keeps the first (to_result's documented meaning)
use crate::harness;
use crate::sx::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::traits::iso::{Iso, IsoExt, ResultEitherIso, ResultValidatedIso};

#[derive(Clone)]
struct T(Fun, Fun);
impl T {
    fn any() -> T {
        T(Fun::any(), Fun::any())
    }
}
impl Iso<D, D> for T {
    type From = D;
    type To = D;
    fn forward(&self, x: &D) -> D {
        self.0.at(*x)
    }
    fn backward(&self, x: &D) -> D {
        self.1.at(*x)
    }
}
harness!(h_c23_tables, {
    let (t, u) = (T::any(), T::any());
    let (x, y) = (d(), d());
    let f = Fun::any();
    check(t.convert_forward(&x) == t.0.at(x) && t.convert_backward(&y) == t.1.at(y), "c23.convert");
    check(t.map_from_target(|z| f.at(*z))(&x) == f.at(t.0.at(x)), "c23.map_from_target");
    check(t.map_from_source(|z| f.at(*z))(&y) == f.at(t.1.at(y)), "c23.map_from_source");
    let c = t.iso_compose::<D, T>(u.clone());
    check(c.forward(&x) == u.0.at(t.0.at(x)), "c23.compose_forward");
    check(c.backward(&y) == t.1.at(u.1.at(y)), "c23.compose_backward");
    let i = t.inverse();
    check(i.forward(&y) == t.1.at(y) && i.backward(&x) == t.0.at(x), "c23.inverse");
    check(t.modify(&x, |z| f.at(z)) == t.1.at(f.at(t.0.at(x))), "c23.modify");
    check(i.modify(&y, |z| f.at(z)) == t.0.at(f.at(t.1.at(y))), "c23.inverse_modify");
    let lawful = t.1.at(t.0.at(x)) == x && t.0.at(t.1.at(y)) == y;
    check(t.verify_laws(&x, &y) == lawful, "c23.verify_laws");
    check(c.verify_laws(&x, &y) == (t.1.at(u.1.at(u.0.at(t.0.at(x)))) == x && u.0.at(t.0.at(t.1.at(u.1.at(y)))) == y), "c23.verify_laws");
});
harness!(h_c23_provided__2, {
    let x = d();
    let ok = case(2) == 1;
    let r: Result<D, D> = if ok { Ok(x) } else { Err(x) };
    let e: Either<D, D> = if ok { Either::Right(x) } else { Either::Left(x) };
    let v: Validated<D, D> = if ok { Validated::valid(x) } else { Validated::invalid(x) };
    check(ResultEitherIso.forward(&r) == e && Iso::<Result<D, D>, Either<D, D>>::backward(&ResultEitherIso, &e) == r, "c23.either");
    check(ResultValidatedIso.forward(&r) == v && Iso::<Result<D, D>, Validated<D, D>>::backward(&ResultValidatedIso, &v) == r, "c23.validated");
    check(IsoExt::<Result<D, D>, Either<D, D>>::verify_laws(&ResultEitherIso, &r, &e), "c23.either_laws");
    check(IsoExt::<Result<D, D>, Validated<D, D>>::verify_laws(&ResultValidatedIso, &r, &v), "c23.validated_laws");
});
/// between a value and a pair
#[derive(Clone)]
struct Split(Fun, Fun, Fun2);
impl Iso<D, (D, Vec<D>)> for Split {
    type From = D;
    type To = (D, Vec<D>);
    fn forward(&self, x: &D) -> (D, Vec<D>) {
        (self.0.at(*x), vec![self.1.at(*x), *x])
    }
    fn backward(&self, t: &(D, Vec<D>)) -> D {
        self.2.at(t.0, t.1[0])
    }
}
harness!(h_c23_three, {
    let (t, u) = (T::any(), T::any());
    let s = Split(Fun::any(), Fun::any(), Fun2::any());
    let (x, y, z) = (d(), d(), d());
    let f = Fun::any();
    let there = |x: D| {
        let m = u.0.at(t.0.at(x));
        (s.0.at(m), vec![s.1.at(m), m])
    };
    let back = |y: D, z: D| t.1.at(u.1.at(s.2.at(y, z)));
    let l = t.iso_compose::<(D, Vec<D>), _>(u.iso_compose::<(D, Vec<D>), Split>(s.clone()));
    check(l.forward(&x) == there(x), "c23.three_forward");
    check(l.backward(&(y, vec![z])) == back(y, z), "c23.three_backward");
    // compositions with inverses
    let iu = u.iso_compose::<D, _>(t.inverse());
    check(iu.forward(&x) == t.1.at(u.0.at(x)) && iu.backward(&x) == u.1.at(t.0.at(x)), "c23.inverse_compose");
    let m = l.modify(&x, |(a, b)| (f.at(a), [&[y], &b[..]].concat()));
    check(m == back(f.at(there(x).0), y), "c23.three_modify");
    // used again with other values
    check(l.forward(&y) == there(y) && l.forward(&z) == there(z) && l.backward(&(x, vec![x])) == back(x, x), "c23.three_again");
    check(l.map_from_target(|w: &(D, Vec<D>)| f.at(w.1[1]))(&x) == f.at(u.0.at(t.0.at(x))), "c23.three_map");
    check(l.map_from_source(|w: &D| f.at(*w))(&(y, vec![z])) == f.at(back(y, z)), "c23.three_map");
});
harness!(h_c23_provided_modify__2, {
    let x = d();
    let ok = case(2) == 1;
    let r: Result<D, D> = if ok { Ok(x) } else { Err(x) };
    let f = Fun::any();
    let m = IsoExt::<Result<D, D>, Validated<D, D>>::modify(&ResultValidatedIso, &r, |v| match v {
        Validated::Valid(x) => Validated::Valid(f.at(x)),
        Validated::Invalid(es) => Validated::invalid(f.at(es[0])),
    });
    check(m == if ok { Ok(f.at(x)) } else { Err(f.at(x)) }, "c23.validated_modify");
    let m = IsoExt::<Result<D, D>, Either<D, D>>::modify(&ResultEitherIso, &r, |e| match e {
        Either::Right(x) => Either::Left(f.at(x)),
        Either::Left(x) => Either::Left(x),
    });
    check(m == if ok { Err(f.at(x)) } else { Err(x) }, "c23.either_modify");
});
