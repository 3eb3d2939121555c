//! C04: combining is associative, the empty value is an identity, and the by-reference,
//! by-value and n-ary forms of combining all agree, for every carrier.
//! bound: carriers Vec<u8>, String, Option, pairs, triples, quadruples, BTreeMap, BTreeSet, HashMap, HashSet, Sum, Product, Min, Max, First, Last, Id, Choice, Validated, Writer, PersistentVector; sequences of 0..=2 symbolic elements (String 0..=2 letters of 4), maps and sets of 0..=2 entries over keys 0..=3
//! bound: lists, persistent vectors, choices and validated of 9x1x1, 1x9x1, 1x1x9, 3x4x5, 8x8x2, 0x9x9, 9x0x9, 2x40x3, 40x2x40 elements; maps and sets of 9 and 2, 2 and 9, 1 and 2, 9 and 9 entries; n-ary combining over 0..=4, 8, 9 and 17 values, repetition counts 0..=5, 7, 8, 9, 16, 21
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
//! assume: numbers are 8-bit and combined with wrapping arithmetic (std::num::Wrapping), so that overflow is outside the claim
//! assume: hash-based maps and sets use fixed SipHash keys during the check; their results are compared by content
use crate::harness;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::Wrapping;

type W = Wrapping<u8>;
fn w() -> W {
    Wrapping(byte())
}
fn v(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(byte());
    }
    v
}

/// Semigroup laws and the agreement of every combining entry point.
fn semi<T: Semigroup + Clone + PartialEq>(a: T, b: T, c: T) {
    let ab = a.combine(&b);
    let bc = b.combine(&c);
    let abc = ab.combine(&c);
    check(abc == a.combine(&bc), "c04.assoc");
    let ab2 = a.clone().combine_owned(b.clone());
    check(ab == ab2, "c04.owned");
    check(abc == ab2.combine_owned(c.clone()), "c04.owned");
    check(abc == a.clone().combine_owned(b.clone().combine_owned(c.clone())), "c04.assoc_owned");
    check(a.clone().combine_all(vec![b.clone(), c.clone()]) == abc, "c04.combine_all");
    check(a.clone().combine_all(Vec::new()) == a, "c04.combine_all");
    check(T::combine_all_owned(vec![a.clone(), b.clone(), c.clone()]) == abc, "c04.combine_all_owned");
    check(semigroup::combine_all_values(vec![a.clone(), b.clone(), c.clone()]) == Some(abc.clone()), "c04.combine_all_values");
    check(semigroup::combine_values(a.clone(), vec![b.clone(), c.clone()]) == abc, "c04.combine_values");
    check(semigroup::combine_all_values(Vec::<T>::new()).is_none(), "c04.combine_all_values");
}
fn times<T: Semigroup + Clone + PartialEq>(a: T, n: usize) {
    let mut e = a.clone();
    for _ in 1..n {
        e = e.combine(&a);
    }
    check(a.combine_n(&n) == e, "c04.combine_n");
    check(a.clone().combine_n_owned(n) == e, "c04.combine_n_owned");
}
fn mono<T: Monoid + Clone + PartialEq>(a: T, b: T, c: T) {
    let z = T::empty();
    check(z.combine(&a) == a, "c04.left_id");
    check(a.combine(&z) == a, "c04.right_id");
    check(T::empty().combine_owned(a.clone()) == a, "c04.left_id_owned");
    check(a.clone().combine_owned(T::empty()) == a, "c04.right_id_owned");
    check(z.is_empty_monoid(), "c04.is_empty_monoid");
    check(a.is_empty_monoid() == (a == z), "c04.is_empty_monoid");
    let abc = a.combine(&b).combine(&c);
    check(monoid::mconcat(&[a.clone(), b.clone(), c.clone()]) == abc, "c04.mconcat");
    check(monoid::combine_all(vec![a.clone(), b.clone(), c.clone()]) == abc, "c04.monoid_combine_all");
    check(monoid::mconcat::<T>(&[]) == z, "c04.mconcat_empty");
    check(monoid::combine_all(Vec::<T>::new()) == z, "c04.monoid_combine_all");
    check(monoid::mconcat(&[a.clone()]) == a && monoid::combine_all(vec![a.clone()]) == a, "c04.mconcat_one");
    semi(a, b, c);
}
fn repeated<T: Monoid + Clone + PartialEq>(a: T, n: usize) {
    let mut e = T::empty();
    for _ in 0..n {
        e = e.combine(&a);
    }
    check(monoid::repeat(a.clone(), n) == e, "c04.repeat");
    check(monoid::power(a.clone(), n) == e, "c04.power");
    if n > 0 {
        times(a, n);
    }
}

harness!(h_c04_vec__3, {
    let (a, b, c) = (v(case(3)), v(case(3)), v(case(3)));
    let mut e = a.clone();
    e.extend_from_slice(&b);
    check(a.combine(&b) == e, "c04.vec");
    mono(a, b, c);
});
harness!(h_c04_string__3, {
    let (a, b, c) = (text(case(3)), text(case(3)), text(case(3)));
    let mut e = a.clone();
    e.push_str(&b);
    check(a.combine(&b) == e, "c04.string");
    mono(a, b, c);
});
harness!(h_c04_pvec__3, {
    let (a, b, c) = (v(case(3)), v(case(3)), v(case(3)));
    let p = |x: &Vec<u8>| PersistentVector::from_slice(x);
    mono(p(&a), p(&b), p(&c));
    repeated(p(&a), case(6));
});
harness!(h_c04_option, {
    let o = || if boolean() { Some(v(1)) } else { None };
    let (a, b, c) = (o(), o(), o());
    let e = match (&a, &b) {
        (Some(x), Some(y)) => Some(vec![x[0], y[0]]),
        (Some(x), None) => Some(x.clone()),
        (None, y) => y.clone(),
    };
    check(a.combine(&b) == e, "c04.option");
    check(None.combine(&a) == a && a.combine(&None) == a, "c04.option_id");
    semi(a, b, c);
});
harness!(h_c04_tuples, {
    let p2 = || (Sum(w()), v(1));
    let (a, b, c) = (p2(), p2(), p2());
    check(a.combine(&b) == (Sum(a.0.0 + b.0.0), vec![a.1[0], b.1[0]]), "c04.pair");
    semi(a, b, c);
    let p3 = || (Sum(w()), v(1), Max(byte()));
    let (a, b, c) = (p3(), p3(), p3());
    check(a.combine(&b) == (Sum(a.0.0 + b.0.0), vec![a.1[0], b.1[0]], Max(a.2.0.max(b.2.0))), "c04.triple");
    semi(a, b, c);
    let p4 = || (Sum(w()), v(1), Max(byte()), Min(byte()));
    let (a, b, c) = (p4(), p4(), p4());
    check(
        a.combine(&b) == (Sum(a.0.0 + b.0.0), vec![a.1[0], b.1[0]], Max(a.2.0.max(b.2.0)), Min(a.3.0.min(b.3.0))),
        "c04.quad",
    );
    semi(a, b, c);
});
harness!(h_c04_numeric, {
    let (a, b, c) = (w(), w(), w());
    check(Sum(a).combine(&Sum(b)) == Sum(a + b), "c04.sum");
    check(Product(a).combine(&Product(b)) == Product(a * b), "c04.product");
    mono(Sum(a), Sum(b), Sum(c));
    semi(Min(a.0), Min(b.0), Min(c.0));
    mono(Max(a.0), Max(b.0), Max(c.0));
    check(Max(a.0).combine(&Max(b.0)) == Max(a.0.max(b.0)), "c04.max");
    check(Min(a.0).combine(&Min(b.0)) == Min(a.0.min(b.0)), "c04.min");
    let (x, y, z) = (byte() as i8, byte() as i8, byte() as i8);
    semi(Max(x), Max(y), Max(z));
    semi(Min(x), Min(y), Min(z));
    // values that compare equal without being the same
    let (p, q, r) = (Keyed(d() & 1, d()), Keyed(d() & 1, d()), Keyed(d() & 1, d()));
    let is = |k: Keyed, l: Keyed| (k.0 == l.0) & (k.1 == l.1);
    let (x1, y1, z1) = (Max(p), Max(q), Max(r));
    let e = x1.combine(&y1).combine(&z1).0;
    check(is(x1.combine(&y1.combine(&z1)).0, e), "c04.max_tie");
    check(is(x1.combine_owned(y1).combine_owned(z1).0, e) && is(x1.combine_owned(y1.combine_owned(z1)).0, e), "c04.max_tie");
    check(is(x1.combine_all(vec![y1, z1]).0, e) && is(Max::combine_all_owned(vec![x1, y1, z1]).0, e), "c04.max_tie");
    let (x1, y1, z1) = (Min(p), Min(q), Min(r));
    let e = x1.combine(&y1).combine(&z1).0;
    check(is(x1.combine(&y1.combine(&z1)).0, e), "c04.min_tie");
    check(is(x1.combine_owned(y1).combine_owned(z1).0, e) && is(x1.combine_owned(y1.combine_owned(z1)).0, e), "c04.min_tie");
    check(is(x1.combine_all(vec![y1, z1]).0, e) && is(Min::combine_all_owned(vec![x1, y1, z1]).0, e), "c04.min_tie");
    check(Min(x).combine(&Min(i8::MAX)) == Min(x) && Max(i8::MIN).combine(&Max(x)) == Max(x), "c04.extreme");
});
harness!(h_c04_product, {
    // the product's identity needs From<u8>; values small enough not to overflow 32 bits
    let (a, b, c) = (bits(4) as u32, bits(4) as u32, bits(4) as u32);
    mono(Product(a), Product(b), Product(c));
    repeated(Product(bits(3) as u32), case(4));
});
harness!(h_c04_first_last, {
    let (a, b, c) = (opt_d(), opt_d(), opt_d());
    mono(First(a), First(b), First(c));
    mono(Last(a), Last(b), Last(c));
    check(First(a).combine(&First(b)) == First(a.or(b)), "c04.first");
    check(Last(a).combine(&Last(b)) == Last(b.or(a)), "c04.last");
});
harness!(h_c04_repeat__6, {
    let n = case(6);
    repeated(v(1), n);
    repeated(text(1), n);
    repeated(Sum(w()), n);
    repeated(Max(byte()), n);
    repeated(First(opt_d()), n);
    let s = Sum(w());
    let mut t = s.0;
    for _ in 1..n {
        t += s.0;
    }
    check(s.clone().combine_n_owned(n) == Sum(t) && s.combine_n(&n) == Sum(t), "c04.sum_n");
});
harness!(h_c04_btreemap__3, {
    let m = |n: usize| {
        let mut m = BTreeMap::new();
        for _ in 0..n {
            m.insert(d(), v(1));
        }
        m
    };
    let (a, b, c) = (m(case(3)), m(case(3)), m(case(2)));
    let ab = a.combine(&b);
    let mut ok = true;
    for k in 0..4 {
        let e = match (a.get(&k), b.get(&k)) {
            (Some(x), Some(y)) => Some(vec![x[0], y[0]]),
            (x, y) => x.or(y).cloned(),
        };
        ok &= ab.get(&k) == e.as_ref();
    }
    check(ok, "c04.btreemap");
    semi(a, b, c);
});
harness!(h_c04_hashmap__4, {
    let k0 = case(4) as u8;
    let m = |n: usize, k: u8| {
        let mut m = HashMap::new();
        for i in 0..n {
            m.insert((k + i as u8) % 4, v(1));
        }
        m
    };
    let (a, b, c) = (m(2, 0), m(case(3), k0), m(1, case(2) as u8));
    let ab = a.combine(&b);
    let mut ok = true;
    for k in 0..4 {
        let e = match (a.get(&k), b.get(&k)) {
            (Some(x), Some(y)) => Some(vec![x[0], y[0]]),
            (x, y) => x.or(y).cloned(),
        };
        ok &= ab.get(&k) == e.as_ref();
    }
    check(ok, "c04.hashmap");
    semi(a, b, c);
});
harness!(h_c04_sets__4, {
    let k0 = case(4) as u8;
    let a: HashSet<u8> = [0, 1].into_iter().collect();
    let b: HashSet<u8> = [k0, 2].into_iter().collect();
    let c: HashSet<u8> = [3].into_iter().take(case(2)).collect();
    let u = a.combine(&b);
    check((0..4).all(|x| u.contains(&x) == (a.contains(&x) || b.contains(&x))), "c04.hashset");
    semi(a, b, c);
    let (a, b, c): (BTreeSet<u8>, BTreeSet<u8>, BTreeSet<u8>) =
        (ds(case(3)).into_iter().collect(), ds(case(3)).into_iter().collect(), ds(1).into_iter().collect());
    let u = a.combine(&b);
    check((0..4).all(|x| u.contains(&x) == (a.contains(&x) || b.contains(&x))), "c04.btreeset");
    semi(a, b, c);
});
harness!(h_c04_id, {
    let i = || Id::new(v(1));
    let (a, b, c) = (i(), i(), i());
    check(a.combine(&b) == Id::new(a.as_ref().combine(b.as_ref())), "c04.id");
    mono(a, b, c);
});
fn choice(n: usize) -> Choice<u8> {
    match n {
        0 => Choice::new_empty(),
        1 => Choice::new(byte(), Vec::new()),
        _ => Choice::new(byte(), v(1)),
    }
}
harness!(h_c04_choice__3, {
    let (a, b, c) = (choice(case(3)), choice(case(3)), choice(case(3)));
    mono(a, b, c);
});
fn validated() -> Validated<u8, u8> {
    match case(3) {
        0 => Validated::valid(byte()),
        1 => Validated::invalid(byte()),
        _ => Validated::invalid_many(v(2)),
    }
}
harness!(h_c04_validated, {
    let (a, b, c) = (validated(), validated(), validated());
    semi(a, b, c);
});
harness!(h_c04_writer, {
    let r = || Writer::new(text(1), v(1));
    let (a, b, c) = (r(), r(), r());
    let run = |x: Writer<String, Vec<u8>>| x.run();
    let (ea, eb, ec) = (run(a.clone()), run(b.clone()), run(c.clone()));
    let ab = (ea.0.combine(&eb.0), ea.1.combine(&eb.1));
    check(run(a.combine(&b)) == ab, "c04.writer");
    check(run(a.clone().combine_owned(b.clone())) == ab, "c04.writer_owned");
    check(run(a.combine(&b).combine(&c)) == run(a.combine(&b.combine(&c))), "c04.writer_assoc");
    let z = Writer::<String, Vec<u8>>::empty();
    check(run(z.combine(&a)) == ea && run(c.combine(&z)) == ec, "c04.writer_id");
});

// larger operands, the second possibly larger than the first
fn sizes() -> (usize, usize, usize) {
    [(9, 1, 1), (1, 9, 1), (1, 1, 9), (3, 4, 5), (8, 8, 2), (0, 9, 9), (9, 0, 9), (2, 40, 3), (40, 2, 40)][case(9)]
}
harness!(h_c04_large__9, {
    let (n, k, l) = sizes();
    let (a, b, c) = (v(n), v(k), v(l));
    let mut e = a.clone();
    e.extend_from_slice(&b);
    check(a.combine(&b) == e, "c04.vec");
    check(a.clone().combine_owned(b.clone()) == e, "c04.vec");
    let p = |x: &Vec<u8>| PersistentVector::from_slice(x);
    check(p(&a).combine(&p(&b)).to_vec() == e, "c04.pvec");
    let ch = |x: &Vec<u8>| Choice::of_many(x.clone());
    check(ch(&a).combine(&ch(&b)).iter().copied().collect::<Vec<_>>() == e, "c04.choice");
    check(ch(&a).combine_owned(ch(&b)).iter().copied().collect::<Vec<_>>() == e, "c04.choice_owned");
    mono(p(&a), p(&b), p(&c));
    mono(ch(&a), ch(&b), ch(&c));
    let er = |x: &Vec<u8>| if x.is_empty() { Validated::valid(7) } else { Validated::<u8, u8>::invalid_many(x.clone()) };
    if n > 0 && k > 0 {
        check(er(&a).combine(&er(&b)).errors() == e, "c04.validated");
        check(er(&a).combine_owned(er(&b)).errors() == e, "c04.validated_owned");
    }
    semi(er(&a), er(&b), er(&c));
    mono(a, b, c);
});
harness!(h_c04_many__4, {
    // n-ary combining of many values
    let n = [4, 8, 9, 17][case(4)];
    let k = case(5);
    fn all<T: Semigroup + Clone + PartialEq + Monoid>(xs: Vec<T>, k: usize) {
        let mut e = xs[0].clone();
        for x in &xs[1..] {
            e = e.combine(x);
        }
        check(xs[0].clone().combine_all(hinted(xs[1..].to_vec(), k)) == e, "c04.combine_all");
        check(T::combine_all_owned(hinted(xs.clone(), k)) == e, "c04.combine_all_owned");
        check(semigroup::combine_all_values(hinted(xs.clone(), k)) == Some(e.clone()), "c04.combine_all_values");
        check(semigroup::combine_values(xs[0].clone(), hinted(xs[1..].to_vec(), k)) == e, "c04.combine_values");
        check(monoid::mconcat(&xs) == e, "c04.mconcat");
        check(monoid::combine_all(hinted(xs, k)) == e, "c04.monoid_combine_all");
    }
    let xs = v(n);
    all(xs.iter().map(|x| vec![*x]).collect(), k);
    all(xs.iter().map(|x| Sum(Wrapping(*x))).collect(), k);
    all(xs.iter().map(|x| Choice::new(*x, [])).collect(), k);
    all(xs.iter().map(|x| PersistentVector::unit(*x)).collect(), k);
    all(xs.iter().map(|x| First(Some(*x))).collect(), k);
    all(xs.iter().map(|x| Last(Some(*x))).collect(), k);
    let es: Vec<Validated<u8, u8>> = xs.iter().map(|x| Validated::invalid(*x)).collect();
    check(semigroup::combine_all_values(hinted(es, k)).map(|e| e.errors().to_vec()) == Some(xs), "c04.validated_many");
});
harness!(h_c04_repeat_many__5, {
    let n = [7, 8, 9, 16, 21][case(5)];
    repeated(v(1), n);
    repeated(v(2), n);
    repeated(text(1), n);
    repeated(Sum(w()), n);
    repeated(Choice::new(byte(), []), n);
    repeated(First(opt_d()), n);
});
harness!(h_c04_maps_large__4, {
    let (n, k) = [(9, 2), (2, 9), (1, 2), (9, 9)][case(4)];
    let at = [0u8, 1, 8, 20][case(4)];
    let a: Vec<(u8, Vec<u8>)> = (0..n as u8).map(|i| (i, v(1))).collect();
    let b: Vec<(u8, Vec<u8>)> = (0..k as u8).map(|i| (at + i, v(1))).collect();
    let want = |key: u8| {
        let f = |m: &Vec<(u8, Vec<u8>)>| m.iter().filter(|p| p.0 == key).flat_map(|p| p.1.clone()).collect::<Vec<u8>>();
        let mut e = f(&a);
        e.extend(f(&b));
        if e.is_empty() { None } else { Some(e) }
    };
    let (ba, bb): (BTreeMap<_, _>, BTreeMap<_, _>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let (ha, hb): (HashMap<_, _>, HashMap<_, _>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let (r, o) = (ba.combine(&bb), ba.combine_owned(bb));
    let (hr, ho) = (ha.combine(&hb), ha.combine_owned(hb));
    for key in 0..30 {
        let e = want(key);
        check(r.get(&key) == e.as_ref() && o.get(&key) == e.as_ref(), "c04.btreemap");
        check(hr.get(&key) == e.as_ref() && ho.get(&key) == e.as_ref(), "c04.hashmap");
    }
    let (sa, sb): (BTreeSet<u8>, BTreeSet<u8>) = (a.iter().map(|p| p.0).collect(), b.iter().map(|p| p.0).collect());
    let (ta, tb): (HashSet<u8>, HashSet<u8>) = (a.iter().map(|p| p.0).collect(), b.iter().map(|p| p.0).collect());
    let (r, o) = (sa.combine(&sb), sa.combine_owned(sb));
    let (hr, ho) = (ta.combine(&tb), ta.combine_owned(tb));
    for key in 0..30 {
        let e = want(key).is_some();
        check(r.contains(&key) == e && o.contains(&key) == e, "c04.btreeset");
        check(hr.contains(&key) == e && ho.contains(&key) == e, "c04.hashset");
    }
});
