//! C12: Validated keeps all errors in order: accumulating, sequencing, collecting, recovering,
//! mapping either side, and every accessor and conversion say the same about one value.
//! bound: a valid value or 0..=3, 8, 9 or 40 errors (accessors and mapping), up to 3 operands of a value or 0..=2 errors, and up to 11 operands with 9..=18 errors in all (accumulation), 5, 8, 9, 10 or 40 errors (recovery); values and errors arbitrary in a four-value domain, functions arbitrary tables
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
//! assume: combine_errors is called with at least one invalid operand and invalid_vec with at least one error (their documented preconditions, checked to panic otherwise)
use crate::harness;
use crate::shape::*;
use crate::sx::*;
use rustica::datatypes::validated::Validated;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;

type V = Validated<D, D>;
fn mk(m: &Model<D>) -> V {
    Shape::build(m.clone())
}
/// a value, or errors of all small numbers and around the inline capacity (8)
fn any() -> Model<D> {
    match case(8) {
        0 => (vec![], vec![d()]),
        n => (ds([0, 1, 2, 3, 8, 9, 40][n - 1]), vec![]),
    }
}
fn small() -> Model<D> {
    match case(4) {
        0 => (vec![], vec![d()]),
        n => (ds(n - 1), vec![]),
    }
}
fn ok(m: &Model<D>) -> bool {
    !m.1.is_empty()
}

harness!(h_c12_access__8, {
    let m = any();
    let v = mk(&m);
    check(v.is_valid() == ok(&m) && v.is_invalid() == !ok(&m), "c12.is_valid");
    check(v.errors() == m.0, "c12.errors");
    check(v.error_slice() == &m.0[..], "c12.error_slice");
    check(v.iter_errors().copied().collect::<Vec<_>>() == m.0, "c12.iter_errors");
    check(v.error_payload().map(|e| e.to_vec()) == if ok(&m) { None } else { Some(m.0.clone()) }, "c12.error_payload");
    check(v.iter().copied().collect::<Vec<_>>() == m.1, "c12.iter");
    check((&v).into_iter().copied().collect::<Vec<_>>() == m.1, "c12.iter");
    check(v.clone().into_iter().collect::<Vec<_>>() == m.1, "c12.into_iter");
    check(v.to_option() == m.1.first().copied(), "c12.to_option");
    check(V::as_ref(&v) == m.1.first(), "c12.as_ref");
    check(Identity::try_value(&v) == m.1.first(), "c12.try_value");
    check(Identity::try_into_value(v.clone()) == m.1.first().copied(), "c12.try_into_value");
    let k = d();
    check(v.unwrap_or(&k) == m.1.first().copied().unwrap_or(k), "c12.unwrap_or");
    match (V::into_value(v.clone()), v.clone().into_error_payload()) {
        (Ok(x), Err(y)) => check(m.1 == vec![x] && x == y, "c12.into_value"),
        (Err(e), Ok(f)) => check(!ok(&m) && e.to_vec() == m.0 && f.to_vec() == m.0, "c12.into_value"),
        _ => check(false, "c12.into_value"),
    }
    // mutable views
    let f = Fun::any();
    let mut w = v.clone();
    for x in w.iter_mut() {
        *x = f.at(*x);
    }
    check(w.show() == mapped(&m, |x| f.at(*x)), "c12.iter_mut");
    let mut w = v.clone();
    for x in &mut w {
        *x = f.at(*x);
    }
    check(w.show() == mapped(&m, |x| f.at(*x)), "c12.into_iter_mut");
    if ok(&m) {
        check(*AsRef::<D>::as_ref(&v) == m.1[0], "c12.as_ref");
    }
    let mut w = v.clone();
    for e in w.iter_errors_mut() {
        *e = f.at(*e);
    }
    let errs: Vec<D> = m.0.iter().map(|e| f.at(*e)).collect();
    check(w.show() == (errs.clone(), m.1.clone()), "c12.iter_errors_mut");
    let mut w = v.clone();
    match w.error_buffer_mut() {
        Some(b) => {
            check(!ok(&m), "c12.error_buffer_mut");
            b.push(k);
            let mut e = m.0.clone();
            e.push(k);
            check(w.errors() == e, "c12.error_buffer_mut");
        }
        None => check(ok(&m), "c12.error_buffer_mut"),
    }
});
harness!(h_c12_panics__4, {
    let m = small();
    let v = mk(&m);
    let good = ok(&m);
    let x = m.1.first().copied().unwrap_or(0);
    if good {
        check(v.unwrap() == x && v.clone().unwrap_owned() == x, "c12.unwrap");
        check(*Identity::value(&v) == x && Identity::into_value(v.clone()) == x, "c12.value");
        check(panics(|| drop(v.unwrap_invalid())), "c12.unwrap_invalid");
        check(panics(|| drop(v.clone().unwrap_invalid_owned())), "c12.unwrap_invalid");
    } else {
        check(v.unwrap_invalid() == m.0 && v.clone().unwrap_invalid_owned().to_vec() == m.0, "c12.unwrap_invalid");
        check(panics(|| drop(v.unwrap())), "c12.unwrap");
        check(panics(|| drop(v.clone().unwrap_owned())), "c12.unwrap");
    }
    check(panics(|| drop(V::invalid_vec(vec![]))), "c12.invalid_vec");
    let y = d();
    check(panics(|| drop(V::valid(x).combine_errors(&V::valid(y)))), "c12.combine_errors");
});
harness!(h_c12_build__6, {
    let x = d();
    check(V::valid(x).show() == (vec![], vec![x]), "c12.valid");
    check(V::invalid(x).show() == (vec![x], vec![]), "c12.invalid");
    let e = ds([0, 1, 4, 5, 8, 11][case(6)]);
    check(V::invalid_many(e.clone()).show() == (e.clone(), vec![]), "c12.invalid_many");
    // iterators with inexact size hints
    let p = Pred::any();
    let kept: Vec<D> = e.iter().copied().take(5).filter(|x| p.at(*x)).collect();
    check(V::invalid_many(e.clone().into_iter().take(5).filter(|x| p.at(*x))).show() == (kept.clone(), vec![]), "c12.invalid_many");
    check(V::invalid_many(e.iter().copied().chain(kept.iter().copied())).error_slice().len() == e.len() + kept.len(), "c12.invalid_many");
    if !e.is_empty() {
        check(V::invalid_vec(e.clone()).show() == (e.clone(), vec![]), "c12.invalid_vec");
    }
    if !kept.is_empty() {
        check(V::invalid_vec(e.into_iter().take(5).filter(|x| p.at(*x))).show() == (kept, vec![]), "c12.invalid_vec");
    }
});
harness!(h_c12_maps__8, {
    let m = any();
    let v = mk(&m);
    let (f, g) = (Fun::any(), Fun::any());
    let inv = (m.0.iter().map(|e| f.at(*e)).collect::<Vec<_>>(), m.1.clone());
    check(v.fmap_invalid(|e| f.at(*e)).show() == inv, "c12.fmap_invalid");
    check(v.clone().fmap_invalid_owned(|e| f.at(e)).show() == inv, "c12.fmap_invalid");
    check(v.map_second(|e| f.at(*e)).show() == inv, "c12.map_second");
    check(v.clone().map_second_owned(|e| f.at(e)).show() == inv, "c12.map_second");
    check(Bifunctor::second(&v, |e| f.at(*e)).show() == inv, "c12.second");
    check(Bifunctor::first(&v, |x| g.at(*x)).show() == mapped(&m, |x| g.at(*x)), "c12.first");
    check(v.bimap(|x| g.at(*x), |e| f.at(*e)).show() == (inv.0.clone(), m.1.iter().map(|x| g.at(*x)).collect()), "c12.bimap");
    // once for each error or value, in order
    let s = Trace::default();
    let _ = v.fmap_invalid(|e| s.see(*e));
    check(s.take() == m.0, "c12.fmap_invalid_once");
    let _ = v.clone().fmap_invalid_owned(|e| s.see(e));
    check(s.take() == m.0, "c12.fmap_invalid_owned_once");
    let _ = Bifunctor::second(&v, |e| s.see(*e));
    check(s.take() == m.0, "c12.second_once");
    let _ = v.bimap(|x| s.see(*x), |e| s.see(*e));
    check(s.take() == if m.1.is_empty() { m.0.clone() } else { m.1.clone() }, "c12.bimap_once");
    check(v.show() == m, "c12.original");
});
harness!(h_c12_errors__4, {
    let (a, b) = (small(), small());
    let (x, y) = (mk(&a), mk(&b));
    if !(ok(&a) && ok(&b)) {
        let mut e = a.0.clone();
        e.extend_from_slice(&b.0);
        check(x.combine_errors(&y).show() == (e.clone(), vec![]), "c12.combine_errors");
        check(x.clone().combine_errors_owned(y.clone()).show() == (e, vec![]), "c12.combine_errors_owned");
    }
    // large lists
    let (n, k) = [(8, 1), (1, 8), (5, 4), (9, 9), (40, 40)][case(5)];
    let (p, q) = (ds(n), ds(k));
    let mut e = p.clone();
    e.extend_from_slice(&q);
    let (x, y) = (V::invalid_many(p), V::invalid_many(q));
    check(x.combine_errors(&y).errors() == e, "c12.combine_errors");
    check(x.combine_errors_owned(y).errors() == e, "c12.combine_errors_owned");
});
harness!(h_c12_sequence__4, {
    let n = case(4);
    let ms: Vec<Model<D>> = (0..n).map(|_| small()).collect();
    let vs: Vec<V> = ms.iter().map(mk).collect();
    let all = ms.iter().all(ok);
    let mut e: Model<D> = (vec![], vec![]);
    for m in &ms {
        e.0.extend_from_slice(&m.0);
        e.1.extend_from_slice(&m.1);
    }
    // valid iff all are; otherwise exactly all errors, in order
    let want: Model<Vec<D>> = if all { (vec![], vec![e.1.clone()]) } else { (e.0.clone(), vec![]) };
    let refs: Vec<&V> = vs.iter().collect();
    check(V::sequence(&refs, &|xs: &[D]| xs.to_vec()).show() == want, "c12.sequence");
    check(V::sequence_owned(vs.clone(), |xs: Vec<D>| xs).show() == want, "c12.sequence_owned");
    let c: Validated<D, Vec<D>> = V::collect(vs.iter().cloned());
    check(c.show() == want, "c12.collect");
    let c: Validated<D, Vec<D>> = V::collect_owned(vs.into_iter());
    check(c.show() == want, "c12.collect_owned");
});
/// more errors altogether than are kept inline, in every operand or spread over several
harness!(h_c12_sequence_many__4, {
    let parts: Vec<Vec<usize>> = match case(4) {
        0 => vec![vec![9, 0, 9], vec![10], vec![17]],
        1 => vec![vec![3, 3, 3, 3], vec![8, 1, 0, 1]],
        2 => vec![vec![1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1]],
        _ => vec![vec![12, 5], vec![5, 12], vec![0, 16, 1]],
    };
    for sizes in parts {
        let ms: Vec<Model<D>> = sizes.iter().map(|n| if *n == 0 { (vec![], vec![d()]) } else { (ds(*n), vec![]) }).collect();
        let vs: Vec<V> = ms.iter().map(mk).collect();
        let e: Vec<D> = ms.iter().flat_map(|m| m.0.clone()).collect();
        let want: Model<Vec<D>> = (e.clone(), vec![]);
        let refs: Vec<&V> = vs.iter().collect();
        check(V::sequence(&refs, &|xs: &[D]| xs.to_vec()).show() == want, "c12.sequence_many");
        check(V::sequence_owned(vs.clone(), |xs: Vec<D>| xs).show() == want, "c12.sequence_many");
        let c: Validated<D, Vec<D>> = V::collect(vs.iter().cloned());
        check(c.show() == want, "c12.collect_many");
        let c: Validated<D, Vec<D>> = V::collect_owned(vs.into_iter());
        check(c.show() == want, "c12.collect_many");
    }
    // and many values
    let n = 9 + case(2);
    let xs = ds(n);
    let vs: Vec<V> = xs.iter().map(|x| V::Valid(*x)).collect();
    let want: Model<Vec<D>> = (vec![], vec![xs]);
    let refs: Vec<&V> = vs.iter().collect();
    check(V::sequence(&refs, &|xs: &[D]| xs.to_vec()).show() == want, "c12.sequence_many");
    check(V::sequence_owned(vs.clone(), |xs: Vec<D>| xs).show() == want, "c12.sequence_many");
    let c: Validated<D, Vec<D>> = V::collect(vs.iter().cloned());
    check(c.show() == want, "c12.collect_many");
    let c: Validated<D, Vec<D>> = V::collect_owned(vs.into_iter());
    check(c.show() == want, "c12.collect_many");
});
harness!(h_c12_recover_many__5, {
    let n = [5, 8, 9, 10, 40][case(5)];
    let e = ds(n);
    let v = V::invalid_many(e.clone());
    // nothing is repaired, every error gives 1 or 2 others; or exactly the one at `at` is
    let (f, g) = (Fun::any(), Fun::any());
    let (at, two) = (case(n + 1), case(2) == 1);
    let mut i = 0;
    let r = v.clone().recover_all(|x| {
        i += 1;
        check(x == e[i - 1], "c12.recover_order");
        if i - 1 == at {
            V::valid(g.at(x))
        } else if two {
            V::invalid_many(vec![f.at(x), g.at(x)])
        } else {
            V::invalid(f.at(x))
        }
    });
    let want = if at < n { (vec![], vec![g.at(e[at])]) } else { (e.iter().flat_map(|x| if two { vec![f.at(*x), g.at(*x)] } else { vec![f.at(*x)] }).collect(), vec![]) };
    check(r.show() == want, "c12.recover_all_many");
    let all = v.recover_all_at_once(|es| V::invalid_many(es));
    check(all.show() == (e, vec![]), "c12.recover_all_at_once");
});
harness!(h_c12_recover__4, {
    let m = match case(4) {
        0 => (vec![], vec![d()]),
        n => (ds(n), vec![]),
    };
    let v = mk(&m);
    let k = d();
    check(v.clone().recover_with(k).show() == (vec![], vec![m.1.first().copied().unwrap_or(k)]), "c12.recover_with");
    // per error: an arbitrary repair, or other errors (two of them)
    let (fix, f, g) = (Pred::any(), Fun::any(), Fun::any());
    let rec = |e: D| if fix.at(e) { V::valid(f.at(e)) } else { V::invalid_many(vec![f.at(e), g.at(e)]) };
    let want = if ok(&m) {
        m.clone()
    } else {
        match m.0.iter().find(|e| fix.at(**e)) {
            Some(e) => (vec![], vec![f.at(*e)]),
            None => (m.0.iter().flat_map(|e| vec![f.at(*e), g.at(*e)]).collect(), vec![]),
        }
    };
    check(v.clone().recover_all(rec).show() == want, "c12.recover_all");
    // each error once, in order; no error after the first repair needs to be seen
    let s = Trace::default();
    let _ = v.clone().recover_all(|e| rec(s.see(e)));
    let seen = s.take();
    let need = m.0.iter().position(|e| fix.at(*e)).map_or(m.0.len(), |i| i + 1);
    check(seen.len() >= need && seen.len() <= m.0.len() && seen[..] == m.0[..seen.len()], "c12.recover_all_once");
    // all errors at once, once, in order
    let r = v.clone().recover_all_at_once(|es| {
        check(!ok(&m) && es == m.0, "c12.recover_all_at_once");
        V::valid(es.len() as u8)
    });
    check(r.show() == (vec![], vec![if ok(&m) { m.1[0] } else { m.0.len() as u8 }]), "c12.recover_all_at_once");
});
harness!(h_c12_convert, {
    let r = res_d();
    let e: Model<D> = match r {
        Ok(x) => (vec![], vec![x]),
        Err(e) => (vec![e], vec![]),
    };
    check(V::from_result(&r).show() == e && V::from_result_owned(r).show() == e, "c12.from_result");
    check(V::from_result(&r).to_result() == r && V::from_result_owned(r).to_result_owned() == r, "c12.to_result");
    let m = or_errs(d);
    let first = if ok(&m) { Ok(m.1[0]) } else { Err(m.0[0]) };
    check(mk(&m).to_result() == first && mk(&m).to_result_owned() == first, "c12.to_result");
    let (o, k) = (opt_d(), d());
    let e: Model<D> = match o {
        Some(x) => (vec![], vec![x]),
        None => (vec![k], vec![]),
    };
    check(V::from_option(&o, &k).show() == e, "c12.from_option");
    check(V::from_option_owned(o, k).show() == e, "c12.from_option");
    check(V::from_option_with(&o, &|| k).show() == e, "c12.from_option_with");
    check(V::from_option_with_owned(o, || k).show() == e, "c12.from_option_with");
    let s = Trace::default();
    let _ = V::from_option_with(&o, &|| s.see(k));
    let _ = V::from_option_with_owned(o, || s.see(k));
    check(s.take().len() == if o.is_some() { 0 } else { 2 }, "c12.from_option_with_once");
});
harness!(h_c12_hints__5, {
    let k = case(5);
    let n = [0, 1, 3, 4, 5, 8, 9, 17][case(8)];
    let e = ds(n);
    check(V::invalid_many(hinted(e.clone(), k)).show() == (e.clone(), vec![]), "c12.invalid_many");
    if n > 0 {
        check(V::invalid_vec(hinted(e.clone(), k)).show() == (e.clone(), vec![]), "c12.invalid_vec");
    }
    let vs: Vec<V> = e.iter().map(|x| V::valid(*x)).collect();
    check(V::collect::<_, Vec<D>>(hinted(vs.clone(), k)) == Validated::Valid(e.clone()), "c12.collect");
    check(V::collect_owned::<_, Vec<D>>(hinted(vs.clone(), k)) == Validated::Valid(e.clone()), "c12.collect");
    // every third input fails, with one error or two
    let mut w: Vec<D> = vec![];
    let vs: Vec<V> = e.iter().enumerate().map(|(i, x)| {
        if i % 3 == 1 {
            w.push(*x);
            V::invalid(*x)
        } else if i % 3 == 2 {
            w.push(*x);
            w.push(3 - *x);
            V::invalid_many(vec![*x, 3 - *x])
        } else {
            V::valid(*x)
        }
    }).collect();
    if n > 1 {
        check(V::collect::<_, Vec<D>>(hinted(vs.clone(), k)).error_slice() == w, "c12.collect");
        check(V::collect_owned::<_, Vec<D>>(hinted(vs.clone(), k)).error_slice() == w, "c12.collect");
    }
});
