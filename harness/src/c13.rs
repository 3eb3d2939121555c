//! C13: a choice is a non-empty-or-empty sequence: a first value and its alternatives in
//! order; constructors, filters, deduplication, removal, swapping, flattening and conversions
//! act on that sequence.
//! bound: 0..=4 values, and 8..=11, 17 and 40 (there some operations with fixed values in between), arbitrary in a four-value domain; every index 0..=4 and those around 8 and at the ends; functions and predicates arbitrary tables
//! bound: deduplication and keyed maps over 0..=3 values and arbitrary keys of two bits (enumerated, since hashing needs concrete values)
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
//! bound: dedup and flatten_sorted also on 1..=40 values that compare by a fixed key only and differ in a symbolic byte
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;

type C = Choice<D>;
fn vals(c: &C) -> Vec<D> {
    c.iter().copied().collect()
}
fn list() -> Vec<D> {
    ds([0, 1, 2, 3, 4, 8, 9][case(7)])
}
fn mk(v: &[D]) -> C {
    C::of_many(v.to_vec())
}
/// every way of asking for the values agrees
fn is(c: &C, v: &[D], id: &'static str) {
    check(vals(c) == v, id);
    check(c.len() == v.len() && c.is_empty() == v.is_empty(), id);
    check(c.first() == v.first(), id);
    check(c.alternatives() == if v.len() > 1 { &v[1..] } else { &[] }, id);
}

harness!(h_c13_build__7, {
    let v = list();
    is(&mk(&v), &v, "c13.of_many");
    is(&v.iter().copied().collect(), &v, "c13.collect");
    is(&C::from(v.clone()), &v, "c13.from_vec");
    is(&C::from(&v[..]), &v, "c13.from_slice");
    if !v.is_empty() {
        is(&C::new(v[0], v[1..].to_vec()), &v, "c13.new");
        let p = Pred::any();
        let w = &v[..v.len().min(5)];
        let mut e = vec![v[0]];
        e.extend(w[1..].iter().copied().filter(|x| p.at(*x)));
        is(&C::new(v[0], w[1..].to_vec().into_iter().filter(|x| p.at(*x))), &e, "c13.new_inexact");
    }
    is(&C::new_empty(), &[], "c13.new_empty");
    let c = mk(&v);
    check(Vec::from(c.clone()) == v, "c13.into_vec");
    check(c.to_vec() == v, "c13.to_vec");
    check(c.has_alternatives() == (v.len() > 1), "c13.has_alternatives");
    check(c.iter_alternatives().copied().collect::<Vec<_>>() == v.iter().skip(1).copied().collect::<Vec<_>>(), "c13.iter_alternatives");
    check((&c).into_iter().copied().collect::<Vec<_>>() == v, "c13.into_iter_ref");
    check(c.clone().into_iter().collect::<Vec<_>>() == v, "c13.into_iter");
    check(Identity::try_value(&c) == v.first() && Identity::try_into_value(c.clone()) == v.first().copied(), "c13.try_value");
    if !v.is_empty() {
        check(*Identity::value(&c) == v[0] && Identity::into_value(c) == v[0], "c13.value");
    }
    is(&C::default(), &[], "c13.default");
});
harness!(h_c13_many__4, {
    let (a, b, c) = (ds(case(4)), ds(case(3)), ds(case(3)));
    let mut e = a.clone();
    e.extend_from_slice(&b);
    e.extend_from_slice(&c);
    let cs = vec![mk(&a), mk(&b), mk(&c)];
    let j: C = cs.clone().into_iter().collect();
    is(&j, &e, "c13.collect_choices");
    let s: C = cs.into_iter().sum();
    is(&s, &e, "c13.sum");
    is(&mk(&a).add_alternatives(b.clone()), &e[..a.len() + b.len()], "c13.add_alternatives");
});
harness!(h_c13_filter__5, {
    let v = ds(case(5));
    let c = mk(&v);
    let p = Pred::any();
    is(&c.filter_values(|x| p.at(*x)), &v.iter().copied().filter(|x| p.at(*x)).collect::<Vec<_>>(), "c13.filter_values");
    let s = Trace::default();
    let _ = c.filter_values(|x| p.at(s.see(*x)));
    check(s.take() == v, "c13.filter_values_once");
    let _ = c.filter(|x| p.at(s.see(*x)));
    check(s.take() == if v.is_empty() { &[] } else { &v[1..] }, "c13.filter_once");
    let _ = c.fmap_alternatives(|x| s.see(*x));
    check(s.take() == if v.is_empty() { &[] } else { &v[1..] }, "c13.fmap_alternatives_once");
    let mut e: Vec<D> = v.iter().copied().take(1).collect();
    e.extend(v.iter().copied().skip(1).filter(|x| p.at(*x)));
    is(&c.filter(|x| p.at(*x)), &e, "c13.filter");
    check(c.find_first(|x| p.at(**x)).copied() == v.iter().copied().find(|x| p.at(*x)), "c13.find_first");
});
harness!(h_c13_map__5, {
    let v = ds(case(5));
    let c = mk(&v);
    let f = Fun::any();
    let mut e: Vec<D> = v.iter().copied().take(1).collect();
    e.extend(v.iter().skip(1).map(|x| f.at(*x)));
    is(&c.fmap_alternatives(|x| f.at(*x)), &e, "c13.fmap_alternatives");
    let z = d();
    let r = v.iter().fold(vec![z], |mut a, x| {
        a.push(*x);
        a
    });
    check(
        c.fold(vec![z], |mut a: Vec<D>, x| {
            a.push(*x);
            a
        }) == r,
        "c13.fold",
    );
    // lazily bound values are those of bind
    let g = |x: &D| mk(&[f.at(*x), *x][..(*x as usize & 1) + 1]);
    check(c.bind_lazy(g).collect::<Vec<_>>() == vals(&c.bind(g)), "c13.bind_lazy");
    is(&c, &v, "c13.original");
});
harness!(h_c13_index__5, {
    let v = ds(case(5));
    let i = case(5);
    let c = mk(&v);
    let ok = i + 1 < v.len();
    if ok {
        let mut e = v.clone();
        e.remove(i + 1);
        is(&c.clone().remove_alternative(i), &e, "c13.remove_alternative");
        is(&c.clone().try_remove_alternative(i).unwrap(), &e, "c13.try_remove_alternative");
        let mut e = v.clone();
        e.swap(0, i + 1);
        is(&c.clone().swap_with_alternative(i), &e, "c13.swap_with_alternative");
        is(&c.clone().try_swap_with_alternative(i).unwrap(), &e, "c13.try_swap_with_alternative");
    } else {
        check(c.clone().try_remove_alternative(i).is_err(), "c13.try_remove_alternative");
        check(c.clone().try_swap_with_alternative(i).is_err(), "c13.try_swap_with_alternative");
        check(panics(|| drop(c.clone().remove_alternative(i))), "c13.remove_alternative");
        check(panics(|| drop(c.clone().swap_with_alternative(i))), "c13.swap_with_alternative");
    }
});
harness!(h_c13_flatten__4, {
    let n = case(4);
    let parts: Vec<Vec<D>> = (0..n).map(|_| ds(case(3))).collect();
    let c = Choice::of_many(parts.clone());
    let flat: Vec<D> = parts.iter().flatten().copied().collect();
    if n == 0 || !parts[0].is_empty() {
        is(&c.flatten(), &flat, "c13.flatten");
        is(&c.try_flatten().unwrap(), &flat, "c13.try_flatten");
    } else {
        check(c.try_flatten().is_err(), "c13.try_flatten");
        check(panics(|| drop(c.flatten())), "c13.flatten");
        check(panics(|| drop(c.flatten_sorted())), "c13.flatten_sorted");
    }
});
harness!(h_c13_flatten_sorted__3, {
    let n = case(3);
    let parts: Vec<Vec<D>> = (0..n).map(|_| ds(1 + case(2))).collect();
    let c = Choice::of_many(parts.clone());
    let mut flat: Vec<D> = parts.iter().flatten().copied().collect();
    // the first value stays first, the rest is sorted
    if n > 0 {
        let s = &mut flat[1..];
        for i in 1..s.len() {
            let mut j = i;
            while j > 0 && s[j - 1] > s[j] {
                s.swap(j - 1, j);
                j -= 1;
            }
        }
    }
    is(&c.flatten_sorted(), &flat, "c13.flatten_sorted");
});
harness!(h_c13_sequence__4, {
    let n = case(4);
    let v: Vec<Option<D>> = (0..n).map(|_| opt_d()).collect();
    let e: Option<Vec<D>> = v.iter().copied().collect();
    check(Choice::of_many(v).sequence().map(|c| vals(&c)) == e, "c13.sequence");
});
harness!(h_c13_dedup__4, {
    let n = case(4);
    let v: Vec<D> = (0..n).map(|_| case(4) as u8).collect();
    let mut e: Vec<D> = vec![];
    for x in &v {
        if !e.contains(x) {
            e.push(*x);
        }
    }
    let c = mk(&v);
    is(&c.dedup(), &e, "c13.dedup");
});
harness!(h_c13_keys__4, {
    let n = case(4);
    let v: Vec<(D, D)> = (0..n).map(|_| (case(3) as u8, d())).collect();
    // the first value of each key
    let mut e: Vec<(D, D)> = vec![];
    for x in &v {
        if !e.iter().any(|y| y.0 == x.0) {
            e.push(*x);
        }
    }
    let c = Choice::of_many(v);
    let k: Vec<(D, D)> = c.dedup_by_key(|x| x.0).iter().copied().collect();
    check(k == e, "c13.dedup_by_key");
    let m = c.to_map_with_key(|x| x.0);
    check(m.len() == e.len() && e.iter().all(|x| m.get(&x.0) == Some(x)), "c13.to_map_with_key");
});

// around the inline capacity (8); where an operation asks a predicate or compares, the
// values in the middle are fixed
fn long(n: usize) -> Vec<D> {
    let mut v: Vec<D> = (0..n as u8).map(|i| (i + i / 4) & 3).collect();
    v[0] = d();
    v[n - 1] = d();
    v
}
harness!(h_c13_filter_long__4, {
    let v = long([8, 9, 11, 40][case(4)]);
    let c = mk(&v);
    let p = Pred::any();
    is(&c.filter_values(|x| p.at(*x)), &v.iter().copied().filter(|x| p.at(*x)).collect::<Vec<_>>(), "c13.filter_values");
    let s = Trace::default();
    let _ = c.filter_values(|x| p.at(s.see(*x)));
    check(s.take() == v, "c13.filter_values_once");
    let _ = c.filter(|x| p.at(s.see(*x)));
    check(s.take() == if v.is_empty() { &[] } else { &v[1..] }, "c13.filter_once");
    let _ = c.fmap_alternatives(|x| s.see(*x));
    check(s.take() == if v.is_empty() { &[] } else { &v[1..] }, "c13.fmap_alternatives_once");
    let mut e: Vec<D> = vec![v[0]];
    e.extend(v.iter().copied().skip(1).filter(|x| p.at(*x)));
    is(&c.filter(|x| p.at(*x)), &e, "c13.filter");
    check(c.find_first(|x| p.at(**x)).copied() == v.iter().copied().find(|x| p.at(*x)), "c13.find_first");
    is(&C::new(v[0], v[1..].to_vec().into_iter().filter(|x| p.at(*x))), &e, "c13.new_inexact");
});
harness!(h_c13_map_long__4, {
    let v = ds([8, 9, 11, 40][case(4)]);
    let c = mk(&v);
    let f = Fun::any();
    let mut e = vec![v[0]];
    e.extend(v.iter().skip(1).map(|x| f.at(*x)));
    is(&c.fmap_alternatives(|x| f.at(*x)), &e, "c13.fmap_alternatives");
    let r = c.fold(vec![], |mut a: Vec<D>, x| {
        a.push(*x);
        a
    });
    check(r == v, "c13.fold");
    let g = |x: &D| mk(&[f.at(*x), *x]);
    check(c.bind_lazy(g).collect::<Vec<_>>() == v.iter().flat_map(|x| [f.at(*x), *x]).collect::<Vec<_>>(), "c13.bind_lazy");
});
harness!(h_c13_index_long__4, {
    let n = [8, 9, 11, 40][case(4)];
    let v = ds(n);
    let c = mk(&v);
    for i in [0, 1, 6, 7, 8, 9, 31, 32, 38, 39] {
        if i + 1 < n {
            let mut e = v.clone();
            e.remove(i + 1);
            is(&c.clone().remove_alternative(i), &e, "c13.remove_alternative");
            is(&c.clone().try_remove_alternative(i).unwrap(), &e, "c13.try_remove_alternative");
            let mut e = v.clone();
            e.swap(0, i + 1);
            is(&c.clone().swap_with_alternative(i), &e, "c13.swap_with_alternative");
            is(&c.clone().try_swap_with_alternative(i).unwrap(), &e, "c13.try_swap_with_alternative");
        } else {
            check(c.clone().try_remove_alternative(i).is_err(), "c13.try_remove_alternative");
            check(c.clone().try_swap_with_alternative(i).is_err(), "c13.try_swap_with_alternative");
        }
    }
    is(&c, &v, "c13.original");
});
harness!(h_c13_many_long__8, {
    let (n, k, l) = [(9, 1, 1), (1, 9, 0), (0, 1, 9), (3, 3, 3), (8, 1, 0), (0, 0, 9), (40, 1, 40), (1, 40, 1)][case(8)];
    let (a, b, c) = (ds(n), ds(k), ds(l));
    let mut e = a.clone();
    e.extend_from_slice(&b);
    e.extend_from_slice(&c);
    let cs = vec![mk(&a), mk(&b), mk(&c)];
    let nested = Choice::of_many(cs.clone());
    let j: C = cs.clone().into_iter().collect();
    is(&j, &e, "c13.collect_choices");
    let s: C = cs.into_iter().sum();
    is(&s, &e, "c13.sum");
    is(&mk(&a).add_alternatives(b.clone()), &e[..n + k], "c13.add_alternatives");
    let parts = Choice::of_many(vec![a, b, c]);
    if n > 0 {
        is(&parts.flatten(), &e, "c13.flatten");
        is(&parts.try_flatten().unwrap(), &e, "c13.try_flatten");
        is(&nested.flatten(), &e, "c13.flatten");
    } else {
        check(parts.try_flatten().is_err(), "c13.try_flatten");
    }
});
harness!(h_c13_flatten_sorted_long__4, {
    let lens = [[9, 1], [1, 9], [5, 5], [4, 6]][case(4)];
    // fixed apart from the first and the last value
    let all = long(10);
    let parts = vec![all[..lens[0]].to_vec(), all[lens[0]..].to_vec()];
    let c = Choice::of_many(parts);
    let f = c.flatten_sorted();
    let got = vals(&f);
    check(got[0] == all[0], "c13.flatten_sorted");
    check(got[1..].windows(2).all(|w| w[0] <= w[1]), "c13.flatten_sorted");
    // the same values, counted
    for x in 0..4 {
        let count = |v: &[D]| v.iter().map(|y| (*y == x) as u8).fold(0u8, |a, b| a + b);
        check(count(&got) == count(&all), "c13.flatten_sorted");
    }
});
harness!(h_c13_sequence_long__4, {
    let n = [8, 9, 10, 40][case(4)];
    let v = ds(n);
    let hole = case(5);
    let o: Vec<Option<D>> = v.iter().enumerate().map(|(i, x)| if [0, 7, 8, 99, 39][hole] == i { None } else { Some(*x) }).collect();
    let e: Option<Vec<D>> = o.iter().copied().collect();
    check(Choice::of_many(o).sequence().map(|c| vals(&c)) == e, "c13.sequence");
});
harness!(h_c13_dedup_long__4, {
    // many values before the repeated ones
    let n = [8, 9, 11, 40][case(4)];
    let v: Vec<u8> = (0..n as u8).map(|i| if i + 2 >= n as u8 { [0u8, 3, 7, 50][case(4)] } else { i }).collect();
    let mut e: Vec<u8> = vec![];
    for x in &v {
        if !e.contains(x) {
            e.push(*x);
        }
    }
    is(&mk(&v).dedup(), &e, "c13.dedup");
    let c = Choice::of_many(v.iter().map(|x| (*x, d())).collect::<Vec<_>>());
    let k: Vec<u8> = c.dedup_by_key(|x| x.0).iter().map(|x| x.0).collect();
    check(k == e, "c13.dedup_by_key");
    let m = c.to_map_with_key(|x| x.0);
    check(m.len() == e.len() && e.iter().all(|x| m.get(x) == c.iter().find(|y| y.0 == *x)), "c13.to_map_with_key");
});
harness!(h_c13_dedup_first__3, {
    // of values that are equal but not the same, the first stays
    #[derive(Clone, Copy)]
    struct K(u8, D);
    impl PartialEq for K {
        fn eq(&self, o: &K) -> bool {
            self.0 == o.0
        }
    }
    impl Eq for K {}
    impl std::hash::Hash for K {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.0.hash(h)
        }
    }
    let v: Vec<K> = (0..3).map(|_| K(case(3) as u8, d())).collect();
    let mut e: Vec<K> = vec![];
    for x in &v {
        if !e.contains(x) {
            e.push(*x);
        }
    }
    let c = Choice::of_many(v).dedup();
    check(c.iter().map(|k| (k.0, k.1)).eq(e.iter().map(|k| (k.0, k.1))), "c13.dedup_first");
});
harness!(h_c13_hints__5, {
    let k = case(5);
    let v = ds([1, 2, 4, 8, 9, 10, 17, 40][case(8)]);
    let h = |v: &[D]| hinted(v.to_vec(), k);
    is(&C::new(v[0], h(&v[1..])), &v, "c13.new_hinted");
    is(&C::of_many(h(&v)), &v, "c13.of_many_hinted");
    is(&h(&v).collect(), &v, "c13.collect_hinted");
    let m = v.len() / 2;
    is(&mk(&v[..m]).add_alternatives(h(&v[m..])), &v, "c13.add_hinted");
    let cc: C = hinted(vec![mk(&v[..m]), mk(&[]), mk(&v[m..])], k).collect();
    is(&cc, &v, "c13.concat_hinted");
});
// Values that are equal without being the same.
harness!(h_c13_keyed__6, {
    let n = [1, 3, 7, 9, 24, 40][case(6)];
    let v = keyed(n);
    let c: Choice<Keyed> = v.iter().copied().collect();
    let pairs = |c: &Choice<Keyed>| c.iter().map(|k| (k.0, k.1)).collect::<Vec<_>>();
    // the first of equal values stays
    let first: Vec<(u8, u8)> = v.iter().enumerate().filter(|(i, x)| v[..*i].iter().all(|y| y.0 != x.0)).map(|(_, x)| (x.0, x.1)).collect();
    check(pairs(&c.dedup()) == first, "c13.dedup_first");
    // sorting keeps the order of equal values
    let parts = Choice::of_many(v.iter().map(|x| vec![*x]));
    let mut e = vec![(v[0].0, v[0].1)];
    e.extend(keyed_sorted(&v[1..]));
    check(pairs(&parts.flatten_sorted()) == e, "c13.flatten_sorted_stable");
});
