//! C24: a memoizer computes a key's value at most once between clears and keeps giving that
//! value; a thunk computes anew each time it is evaluated; the evaluation helpers run what they
//! are given once and in order.
//! bound: histories of up to 4 (thorough 5) lookups and clears over 3 keys with arbitrary computed values; 6 keys with equal hashes; 17, 130 and 1030 keys looked up, looked up again, and after a clear; helper functions arbitrary tables
//! bound: 2 threads doing 1 operation each with up to 3 (thorough 5) involuntary switches, 2 threads doing 2 each with up to 2 (thorough 3), 3 threads with up to 1, over 2 keys and clear; switches at every atomic access of the lock
//! assume: atomics are sequentially consistent; computations return (a panicking one poisons the cache's lock)
use crate::harness;
use crate::sx::*;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use std::cell::{Cell, RefCell};

fn memo(n: usize) {
    let m: Memoizer<u8, D> = if case(2) == 0 { Memoizer::new() } else { Memoizer::default() };
    let mut want: [Option<D>; 3] = [None; 3];
    for _ in 0..n {
        let c = case(4);
        if c == 3 {
            m.clear();
            want = [None; 3];
            continue;
        }
        let v = d();
        let runs = Cell::new(0);
        let got = m.get_or_compute(c as u8, |k| {
            runs.set(runs.get() + if *k == c as u8 { 1 } else { 9 });
            v
        });
        match want[c] {
            Some(w) => check(got == w && runs.get() == 0, "c24.cached"),
            None => {
                check(got == v && runs.get() == 1, "c24.computed");
                want[c] = Some(v);
            }
        }
    }
}
harness!(h_c24_memo__2, {
    memo(4);
});
harness!(ht_c24_memo5__2, {
    memo(5);
});
harness!(h_c24_thunk, {
    let marks = RefCell::new(vec![]);
    let (x, y, k) = (d(), d(), d());
    let (f, p, f2) = (Fun::any(), Pred::any(), Fun2::any());
    let take = || std::mem::take(&mut *marks.borrow_mut());
    let mk = |i: D, v: D| {
        let marks = &marks;
        Thunk::new(move || {
            marks.borrow_mut().push(i);
            v
        })
    };
    let t = mk(1, x);
    check(take().is_empty(), "c24.lazy");
    check(t.evaluate() == x && take() == vec![1], "c24.evaluate");
    check(t.evaluate() == x && take() == vec![1], "c24.evaluate");
    check(t.clone().evaluate_owned() == x && take() == vec![1], "c24.evaluate_owned");
    check(t.fmap_evaluate(|v| f.at(v)) == f.at(x) && take() == vec![1], "c24.fmap");
    check(t.map_evaluate(|v| f.at(v)) == f.at(x) && take() == vec![1], "c24.map");
    check(t.clone().fmap_evaluate_owned(|v| f.at(v)) == f.at(x) && take() == vec![1], "c24.fmap");
    check(t.clone().map_evaluate_owned(|v| f.at(v)) == f.at(x) && take() == vec![1], "c24.map");
    check(t.bind_evaluate(|v| mk(2, f2.at(v, k))) == f2.at(x, k) && take() == vec![1, 2], "c24.bind");
    check(t.and_then_evaluate(|v| mk(2, f2.at(v, k))) == f2.at(x, k) && take() == vec![1, 2], "c24.bind");
    check(t.clone().bind_evaluate_owned(|v| mk(2, f2.at(v, k))) == f2.at(x, k) && take() == vec![1, 2], "c24.bind");
    check(t.clone().and_then_evaluate_owned(|v| mk(2, f2.at(v, k))) == f2.at(x, k) && take() == vec![1, 2], "c24.bind");
    let u = mk(3, y);
    check(t.combine_evaluate(&u, |a, b| f2.at(a, b)) == f2.at(x, y) && take() == vec![1, 3], "c24.combine");
    check(t.clone().combine_evaluate_owned(mk(3, y), |a, b| f2.at(a, b)) == f2.at(x, y) && take() == vec![1, 3], "c24.combine");
    let want = if p.at(x) { Some(x) } else { None };
    check(t.filter_evaluate(|v| p.at(*v)) == want && take() == vec![1], "c24.filter");
    check(t.clone().filter_evaluate_owned(|v| p.at(*v)) == want && take() == vec![1], "c24.filter");
});

/// What one thread did: for each of its lookups the key, whether it computed, and the value.
struct Notes(std::cell::UnsafeCell<Vec<(u8, u32, D, D)>>);
unsafe impl Sync for Notes {}
impl Notes {
    fn put(&self, x: (u8, u32, D, D)) {
        unsafe { (*self.0.get()).push(x) }
    }
}
fn shared(ops: &[Vec<usize>], preemptions: u32) {
    let m: &'static Memoizer<u8, D> = Box::leak(Box::new(Memoizer::new()));
    let mut notes = vec![];
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let mut clears = 0;
    for o in ops {
        let n: &'static Notes = Box::leak(Box::new(Notes(Default::default())));
        notes.push(n);
        let plan: Vec<(usize, D)> = o.iter().map(|c| (*c, d())).collect();
        clears += o.iter().filter(|c| **c == 2).count() as u32;
        work.push(Box::new(move || {
            for (c, v) in plan {
                if c == 2 {
                    m.clear();
                    continue;
                }
                let mut ran = 0;
                let got = m.get_or_compute(c as u8, |k| {
                    linger();
                    ran += if *k == c as u8 { 1 } else { 9 };
                    v
                });
                n.put((c as u8, ran, v, got));
            }
        }));
    }
    threads(preemptions, work);
    for key in 0..2 {
        let all: Vec<_> = notes.iter().flat_map(|n| unsafe { (*n.0.get()).clone() }).filter(|e| e.0 == key).collect();
        let runs: u32 = all.iter().map(|e| e.1).sum();
        check(all.is_empty() == (runs == 0) && runs <= 1 + clears, "c24.shared_once");
        // a value is the one somebody computed for this key
        check(all.iter().all(|e| all.iter().any(|c| c.1 == 1 && c.2 == e.3)), "c24.shared_value");
        check(all.iter().all(|e| e.1 == 0 || e.2 == e.3), "c24.shared_value");
        if clears == 0 {
            for e in &all {
                let mut ran = false;
                let again = m.get_or_compute(key, |_| {
                    ran = true;
                    0
                });
                check(!ran && again == e.3, "c24.shared_stays");
            }
        }
    }
}
fn plan(n: usize) -> Vec<usize> {
    (0..n).map(|_| case(3)).collect()
}
harness!(h_c24_shared2__3, {
    let (a, b) = (plan(1), plan(1));
    shared(&[a, b], 3);
});
harness!(h_c24_shared22__3, {
    let (a, b) = (plan(2), plan(2));
    shared(&[a, b], 2);
});
harness!(h_c24_shared3__3, {
    // the threads are alike, so their order does not matter: at least two look up the same key
    let c = case(3);
    shared(&[vec![0], vec![0], vec![c]], 1);
});
harness!(ht_c24_shared2__3, {
    let (a, b) = (plan(1), plan(1));
    shared(&[a, b], 5);
});
harness!(ht_c24_shared22__3, {
    let (a, b) = (plan(2), plan(2));
    shared(&[a, b], 3);
});
/// Keys that all hash alike.
#[derive(Clone, PartialEq, Eq)]
struct Alike(u8, u8);
impl std::hash::Hash for Alike {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(7);
    }
}
harness!(h_c24_alike, {
    let m: Memoizer<Alike, D> = Memoizer::new();
    let vs = ds(6);
    let key = |i: usize| Alike((i / 2) as u8, (i % 2) as u8);
    for round in 0..2 {
        for i in 0..6 {
            let mut ran = false;
            let got = m.get_or_compute(key(i), |k| {
                ran = *k == key(i);
                vs[i]
            });
            check(got == vs[i] && ran == (round == 0), "c24.alike");
        }
    }
});
harness!(h_c24_many__3, {
    // no number of other keys makes it forget one
    let n = [17, 130, 1030][case(3)];
    let m: Memoizer<u32, D> = Memoizer::new();
    let vs = ds(n);
    for round in 0..3 {
        if round == 2 {
            m.clear();
        }
        for i in 0..n {
            let mut ran = false;
            let v = if round == 2 { vs[n - 1 - i] } else { vs[i] };
            let got = m.get_or_compute(i as u32, |_| {
                ran = true;
                v
            });
            check(got == v && ran == (round != 1), "c24.many");
        }
    }
});
