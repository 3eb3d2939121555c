//! C18: a writer's log is the concatenation of everything told, in program order, through any
//! mix of mapping, binding, applying, joining and combining, and the value is that of the same
//! program without logs.
//! bound: logs are lists (any append-only monoid is a quotient) and strings, each step telling 0..=2 entries; programs of up to 3 (thorough 4) steps, and pairs of logs of 9x1, 1x9, 8x8, 40x3, 3x40 entries, values and entries arbitrary in a four-value domain, functions arbitrary tables
use crate::harness;
use crate::sx::*;
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;

type W = Writer<Vec<D>, D>;

harness!(h_c18_basic__3, {
    let log = ds(case(3));
    let x = d();
    let f = Fun::any();
    let w: W = Writer::new(log.clone(), x);
    check(w.clone().run() == (log.clone(), x), "c18.run");
    check(w.clone().log() == log && w.unwrap() == x && *w.value() == x && w.clone().into_value() == x, "c18.parts");
    check(w.try_value() == Some(&x) && w.clone().try_into_value() == Some(x), "c18.parts");
    check(W::tell(log.clone()).run() == (log.clone(), ()), "c18.tell");
    check(W::pure_value(x).run() == (vec![], x), "c18.pure");
    check(w.clone().into_iter().collect::<Vec<_>>() == vec![x], "c18.iter");
    check((&w).into_iter().copied().collect::<Vec<_>>() == vec![x], "c18.iter");
    let mut m = w.clone();
    for y in &mut m {
        *y = f.at(*y);
    }
    check(m.run() == (log.clone(), f.at(x)), "c18.iter_mut");
    let o: W = Writer::new(log.clone(), x);
    check(o == w, "c18.eq");
    check(Writer::<Vec<D>, Vec<D>>::empty().run() == (vec![], vec![]), "c18.empty");
});
harness!(h_c18_text__3, {
    // string logs, string values
    let (n, k) = (case(3), case(3));
    let (a, b, c, e) = (text(n), text(k), text(1), text(2));
    let x: Writer<String, String> = Writer::new(a.clone(), c.clone());
    let y: Writer<String, String> = Writer::new(b.clone(), e.clone());
    let log = [a.clone(), b.clone()].concat();
    check(x.combine(&y).run() == (log.clone(), [c.clone(), e.clone()].concat()), "c18.combine");
    check(x.clone().combine_owned(y.clone()).run() == (log.clone(), [c.clone(), e.clone()].concat()), "c18.combine");
    let y2 = y.clone();
    check(x.bind(move |v| y2.fmap(|u| [v.clone(), u.clone()].concat())).run() == (log.clone(), [c, e].concat()), "c18.text_bind");
});
fn step(log: Vec<D>, v: D) -> W {
    Writer::new(log, v)
}
fn program(n: usize) {
    let mut w: W = W::pure_value(0);
    let mut log: Vec<D> = vec![];
    let mut x: D = 0;
    for _ in 0..n {
        let l = ds(case(3));
        let f = Fun2::any();
        let k = d();
        w = match case(6) {
            0 => {
                let r = w.bind(|a| step(l.clone(), f.at(*a, k)));
                log.extend(&l);
                x = f.at(x, k);
                r
            }
            1 => {
                let r = w.bind_owned(|a| W::tell(l.clone()).fmap(|_| f.at(a, k)));
                log.extend(&l);
                x = f.at(x, k);
                r
            }
            2 => {
                let r = W::lift2(|a, b| f.at(*a, *b), &step(l.clone(), k), &w);
                let mut nl = l.clone();
                nl.extend(&log);
                log = nl;
                x = f.at(k, x);
                r
            }
            3 => {
                let fw: Writer<Vec<D>, _> = Writer::new(l.clone(), move |a: &D| f.at(k, *a));
                let r: W = fw.apply(&w);
                let mut nl = l.clone();
                nl.extend(&log);
                log = nl;
                x = f.at(k, x);
                r
            }
            4 => {
                let nested: Writer<Vec<D>, W> = w.fmap(|a| step(l.clone(), f.at(*a, k)));
                log.extend(&l);
                x = f.at(x, k);
                nested.join()
            }
            _ => {
                let r = W::sequence_left(&w.fmap_owned(|a| f.at(a, k)), &step(l.clone(), k));
                log.extend(&l);
                x = f.at(x, k);
                r
            }
        };
    }
    check(w.run() == (log, x), "c18.program");
}
harness!(h_c18_program3__18, {
    program(3);
});
harness!(ht_c18_program4__18, {
    program(4);
});
harness!(h_c18_unit, {
    check(<W as Pure>::pure(&1u8).run() == (vec![], 1), "c18.pure");
});
harness!(h_c18_long__5, {
    // long logs on either side
    let (n, k) = [(9, 1), (1, 9), (8, 8), (40, 3), (3, 40)][case(5)];
    let (a, b) = (ds(n), ds(k));
    let ab = [a.clone(), b.clone()].concat();
    let (x, y) = (d(), d());
    let f = Fun2::any();
    let (u, w): (W, W) = (Writer::new(a.clone(), x), Writer::new(b.clone(), y));
    let w2 = w.clone();
    check(u.bind(|p| w2.fmap(|q| f.at(*p, *q))).run() == (ab.clone(), f.at(x, y)), "c18.bind");
    check(u.clone().bind_owned(|p| w.fmap(|q| f.at(p, *q))).run() == (ab.clone(), f.at(x, y)), "c18.bind");
    check(W::lift2(|p, q| f.at(*p, *q), &u, &w).run() == (ab.clone(), f.at(x, y)), "c18.lift2");
    check(W::lift2_owned(|p, q| f.at(p, q), u.clone(), w.clone()).run() == (ab.clone(), f.at(x, y)), "c18.lift2");
    check(W::sequence_left::<D, D>(&u, &w).run() == (ab.clone(), x), "c18.sequence");
    check(W::sequence_right::<D, D>(&u, &w).run() == (ab.clone(), y), "c18.sequence");
    let fw: Writer<Vec<D>, _> = Writer::new(a.clone(), move |q: &D| f.at(x, *q));
    check(fw.apply(&w).run() == (ab.clone(), f.at(x, y)), "c18.apply");
    let fw: Writer<Vec<D>, _> = Writer::new(a.clone(), move |q: D| f.at(x, q));
    check(fw.apply_owned(w.clone()).run() == (ab.clone(), f.at(x, y)), "c18.apply");
    let nested: Writer<Vec<D>, W> = Writer::new(a.clone(), w.clone());
    check(nested.join().run() == (ab.clone(), y), "c18.join");
    check(nested.join_owned().run() == (ab.clone(), y), "c18.join");
    let (p, q): (Writer<Vec<D>, Vec<D>>, Writer<Vec<D>, Vec<D>>) = (Writer::new(a.clone(), b.clone()), Writer::new(b.clone(), a.clone()));
    let ba = [b.clone(), a.clone()].concat();
    check(p.combine(&q).run() == (ab.clone(), ba.clone()), "c18.combine");
    check(p.combine_owned(q).run() == (ab, ba), "c18.combine");
    // one step telling at a time
    let mut w = W::pure_value(x);
    for z in &a {
        let z = *z;
        w = w.bind(|v| W::tell(vec![z]).fmap(|_| *v));
    }
    check(w.run() == (a, x), "c18.tell_each");
});
