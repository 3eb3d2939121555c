//! C29: an asynchronous computation does nothing until polled, then runs its effects once per
//! run, in program order where one step feeds the next and side by side where it does not, for
//! every order in which its parts become ready; its value is that of the same program run
//! directly, and a panic anywhere before is replaced by the recovery value.
//! bound: programs of up to 3 (thorough 4) steps of every kind over effects that stay pending 0..=2 polls each, run twice; pairs whose sides wait 0..=2 polls or for each other; validated values of up to 3 errors, each error's function pending 0..=2 polls; values and marks in a four-value domain, functions arbitrary tables
//! assume: a single-threaded executor that polls again only after a wake-up; effects wake their task when they become ready; computations are not dropped half-way
use crate::harness;
use crate::sx::*;
use rustica::datatypes::async_monad::AsyncM;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

static WAKES: AtomicUsize = AtomicUsize::new(0);
unsafe fn w_clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VT)
}
unsafe fn w_wake(_: *const ()) {
    WAKES.fetch_add(1, Ordering::SeqCst);
}
unsafe fn w_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);

/// Polls to completion; None when pending with nobody to wake it, or never done.
fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    WAKES.store(0, Ordering::SeqCst);
    for _ in 0..40 {
        let before = WAKES.load(Ordering::SeqCst);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending => {
                if WAKES.load(Ordering::SeqCst) == before {
                    return None;
                }
            }
        }
    }
    None
}

#[derive(Clone)]
struct Log(Arc<Mutex<Vec<(u8, D)>>>);
impl Log {
    fn new() -> Log {
        Log(Arc::new(Mutex::new(vec![])))
    }
    fn put(&self, k: u8, x: D) {
        self.0.lock().unwrap().push((k, x));
    }
    fn take(&self) -> Vec<(u8, D)> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
    fn at(&self, k: u8) -> bool {
        self.0.lock().unwrap().iter().any(|e| e.0 == k)
    }
}
/// Pending `n` polls, then leaves a mark and gives a value.
struct Leaf {
    n: usize,
    log: Log,
    m: D,
    v: D,
}
impl Future for Leaf {
    type Output = D;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<D> {
        if self.n > 0 {
            self.n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.log.put(1, self.m);
        Poll::Ready(self.v)
    }
}
/// Announces itself (mark 2, me), and is ready once the other side announced itself.
struct Meet {
    log: Log,
    me: D,
    other: D,
    told: bool,
}
impl Future for Meet {
    type Output = D;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<D> {
        let me = self.me;
        if !self.told {
            self.told = true;
            self.log.put(2 + me, me);
        }
        if self.log.at(2 + self.other) {
            return Poll::Ready(me);
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
/// an effect: marks (0, m) when started and (1, m) when done
fn eff(log: &Log, n: usize, m: D, v: D) -> AsyncM<D> {
    let l = log.clone();
    AsyncM::new(move || {
        l.put(0, m);
        Leaf { n, log: l.clone(), m, v }
    })
}
fn any(log: &Log, kind: usize, m: D, v: D) -> (AsyncM<D>, Vec<(u8, D)>) {
    match kind {
        0 => (AsyncM::pure(v), vec![]),
        k => (eff(log, k - 1, m, v), vec![(0, m), (1, m)]),
    }
}

harness!(h_c29_basic__4, {
    let log = Log::new();
    let (m, v) = (d(), d());
    let (a, marks) = any(&log, case(4), m, v);
    let c = a.clone();
    check(log.take().is_empty(), "c29.lazy");
    check(run(a.try_get()) == Some(v) && log.take() == marks, "c29.run");
    check(run(a.try_get()) == Some(v) && log.take() == marks, "c29.rerun");
    check(run(c.try_get()) == Some(v) && log.take() == marks, "c29.clone");
    let k = d();
    let r = c.recover_with(k);
    check(log.take().is_empty(), "c29.lazy");
    check(run(r.try_get()) == Some(v) && log.take() == marks, "c29.recover_ok");
    // mapping
    let f = Fun::any();
    let n = case(3);
    let l = log.clone();
    let g = move |x: D| {
        let l = l.clone();
        async move {
            l.put(3, x);
            Leaf { n, log: l.clone(), m: x, v: f.at(x) }.await
        }
    };
    let mut after = marks.clone();
    after.push((3, v));
    after.push((1, v));
    let b = a.fmap(g.clone());
    check(log.take().is_empty(), "c29.lazy");
    check(run(b.try_get()) == Some(f.at(v)) && log.take() == after, "c29.fmap");
    check(run(b.try_get()) == Some(f.at(v)) && log.take() == after, "c29.fmap_again");
    let b = a.fmap_owned(g);
    check(log.take().is_empty(), "c29.lazy");
    check(run(b.try_get()) == Some(f.at(v)) && log.take() == after, "c29.fmap_owned");
    check(run(b.try_get()) == Some(f.at(v)) && log.take() == after, "c29.fmap_owned_again");
});

harness!(h_c29_laws__16, {
    let log = Log::new();
    let c = case(16);
    let (ka, kb, kc) = (c % 4, [0, 1, 3, 2][c / 4], case(3));
    let (m, v) = (d(), d());
    let (fm, fv, gm, gv) = (Fun::any(), Fun::any(), Fun::any(), Fun::any());
    let (a, ma) = any(&log, ka, m, v);
    let (l1, l2) = (log.clone(), log.clone());
    let k = move |x: D| {
        let l = l1.clone();
        async move { any(&l, kb, fm.at(x), fv.at(x)).0 }
    };
    let h = move |x: D| {
        let l = l2.clone();
        async move { any(&l, kc, gm.at(x), gv.at(x)).0 }
    };
    let mb = any(&log, kb, fm.at(v), fv.at(v)).1;
    let x = fv.at(v);
    let mc = any(&log, kc, gm.at(x), gv.at(x)).1;
    let ab: Vec<_> = ma.iter().chain(mb.iter()).copied().collect();
    let abc: Vec<_> = ab.iter().chain(mc.iter()).copied().collect();
    let b = a.bind(k.clone());
    check(log.take().is_empty(), "c29.lazy");
    check(run(b.try_get()) == Some(x) && log.take() == ab, "c29.bind");
    check(run(b.try_get()) == Some(x) && log.take() == ab, "c29.bind_again");
    let b = a.clone().bind_owned(k.clone());
    check(log.take().is_empty(), "c29.lazy");
    check(run(b.try_get()) == Some(x) && log.take() == ab, "c29.bind_owned");
    check(run(b.try_get()) == Some(x) && log.take() == ab, "c29.bind_owned_again");
    check(run(AsyncM::pure(v).bind(k.clone()).try_get()) == Some(x) && log.take() == mb, "c29.left_id");
    check(run(a.bind(|x| async move { AsyncM::pure(x) }).try_get()) == Some(v) && log.take() == ma, "c29.right_id");
    check(run(a.bind(k.clone()).bind(h.clone()).try_get()) == Some(gv.at(x)) && log.take() == abc, "c29.assoc");
    let kh = move |x: D| {
        let (k, h) = (k.clone(), h.clone());
        async move { k(x).await.bind(h) }
    };
    check(run(a.bind(kh).try_get()) == Some(gv.at(x)) && log.take() == abc, "c29.assoc");
});

/// Marks of two sides run side by side, in any interleaving.
fn shuffle(got: &[(u8, D)], a: &[(u8, D)], b: &[(u8, D)]) -> bool {
    if got.is_empty() {
        return a.is_empty() && b.is_empty();
    }
    (!a.is_empty() && a[0] == got[0] && shuffle(&got[1..], &a[1..], b))
        || (!b.is_empty() && b[0] == got[0] && shuffle(&got[1..], a, &b[1..]))
}
harness!(h_c29_pairs__16, {
    let log = Log::new();
    let c = case(16);
    // concrete marks: which side they come from
    let (v, i) = (d(), d());
    let t = Fun2::any();
    let (a, ma) = any(&log, c % 4, 0, v);
    let (b, mb) = any(&log, c / 4, 1, i);
    let z = a.clone().zip(b.clone());
    let zw = a.clone().zip_with(b.clone(), move |x, y| t.at(x, y));
    let both = |l: &Log| shuffle(&l.take(), &ma, &mb);
    check(log.take().is_empty(), "c29.lazy");
    check(run(z.try_get()) == Some((v, i)) && both(&log), "c29.zip");
    check(run(z.try_get()) == Some((v, i)) && both(&log), "c29.zip_again");
    check(run(zw.try_get()) == Some(t.at(v, i)) && both(&log), "c29.zip_with");
    check(run(zw.try_get()) == Some(t.at(v, i)) && both(&log), "c29.zip_with_again");
    // functions as values
    let mf = match c / 4 {
        0 => AsyncM::pure(Tab(t, i)),
        _ => b.fmap(move |i| async move { Tab(t, i) }),
    };
    let mf = mf.fmap(|p: Tab| async move { move |x: D| p.0.at(x, p.1) });
    let r: AsyncM<D> = a.apply(mf.clone());
    let q: AsyncM<D> = a.clone().apply_owned(mf);
    check(log.take().is_empty(), "c29.lazy");
    check(run(r.try_get()) == Some(t.at(v, i)) && both(&log), "c29.apply");
    check(run(r.try_get()) == Some(t.at(v, i)) && both(&log), "c29.apply_again");
    check(run(q.try_get()) == Some(t.at(v, i)) && both(&log), "c29.apply_owned");
    // both sides plain values
    let g: AsyncM<D> = a.apply(AsyncM::pure(move |x: D| t.at(x, i)));
    check(run(g.try_get()) == Some(t.at(v, i)) && log.take() == ma, "c29.apply_pure");
});
#[derive(Clone, Copy)]
struct Tab(Fun2, D);

harness!(h_c29_meet__4, {
    // each side waits for the other: only side-by-side evaluation ends
    let log = Log::new();
    let side = |me: D, other: D| {
        let l = log.clone();
        AsyncM::new(move || Meet { log: l.clone(), me, other, told: false })
    };
    let (a, b) = (side(0, 1), side(1, 0));
    match case(4) {
        0 => check(run(a.zip(b).try_get()) == Some((0, 1)), "c29.meet_zip"),
        1 => check(run(a.zip_with(b, |x, y| (x, y)).try_get()) == Some((0, 1)), "c29.meet_zip"),
        2 => {
            let f = b.fmap(|y| async move { move |x: D| (x, y) });
            check(run(a.apply(f).try_get()) == Some((0, 1)), "c29.meet_apply")
        }
        _ => {
            let f = b.fmap(|y| async move { move |x: D| (x, y) });
            check(run(a.apply_owned(f).try_get()) == Some((0, 1)), "c29.meet_apply")
        }
    }
});

harness!(h_c29_recover__6, {
    let log = Log::new();
    let (m, v, k) = (d(), d(), d());
    let c = case(6);
    let n = c % 3;
    let l = log.clone();
    // a panic when started, or after some polls
    let early = c / 3 == 0;
    let a: AsyncM<D> = AsyncM::new(move || {
        let l = l.clone();
        l.put(0, m);
        if early && n == 2 {
            panic!("early");
        }
        async move {
            let x = Leaf { n, log: l, m, v }.await;
            if x < 4 {
                panic!("late");
            }
            x
        }
    });
    let mut marks = vec![(0, m)];
    if !(early && n == 2) {
        marks.push((1, m));
    }
    let r = a.clone().recover_with(k);
    check(log.take().is_empty(), "c29.lazy");
    check(run(r.try_get()) == Some(k) && log.take() == marks, "c29.recover");
    check(run(r.try_get()) == Some(k) && log.take() == marks, "c29.recover_again");
    let p = Pred::any();
    let f = Fun::any();
    // only what the recovery covers is replaced
    let q = AsyncM::pure(v)
        .fmap(move |x| async move {
            if p.at(x) {
                panic!("at {}", 1);
            }
            x
        })
        .recover_with(k)
        .fmap(move |x| async move { f.at(x) });
    check(run(q.try_get()) == Some(f.at(if p.at(v) { k } else { v })), "c29.recover_scope");
    // results
    let l = log.clone();
    let s = AsyncM::from_result_or_default(
        move || {
            let l = l.clone();
            async move {
                l.put(0, m);
                let x = Leaf { n, log: l, m, v }.await;
                if p.at(x) { Ok(f.at(x)) } else { Err(x) }
            }
        },
        k,
    );
    check(log.take().is_empty(), "c29.lazy");
    let w = if p.at(v) { f.at(v) } else { k };
    check(run(s.try_get()) == Some(w) && log.take() == vec![(0, m), (1, m)], "c29.from_result");
    check(run(s.try_get()) == Some(w) && log.take() == vec![(0, m), (1, m)], "c29.from_result_again");
});

fn program(steps: usize) {
    let log = Log::new();
    let (m, v) = (d(), d());
    let (mut a, mut marks) = any(&log, case(3), m, v);
    let mut x = v;
    for _ in 0..steps {
        let (f, g) = (Fun::any(), Fun::any());
        let n = case(2);
        let l = log.clone();
        match case(6) {
            0 => {
                a = a.fmap(move |x| {
                    let l = l.clone();
                    async move {
                        l.put(3, x);
                        f.at(x)
                    }
                });
                marks.push((3, x));
                x = f.at(x);
            }
            1 => {
                a = a.bind(move |x| {
                    let l = l.clone();
                    async move { eff(&l, n, g.at(x), f.at(x)) }
                });
                marks.push((0, g.at(x)));
                marks.push((1, g.at(x)));
                x = f.at(x);
            }
            2 => {
                a = a.bind_owned(move |x| async move { AsyncM::pure(f.at(x)) });
                x = f.at(x);
            }
            3 => {
                a = a.zip(AsyncM::pure(n as u8)).fmap_owned(move |(x, y)| async move { if y == 0 { f.at(x) } else { g.at(x) } });
                x = if n == 0 { f.at(x) } else { g.at(x) };
            }
            4 => {
                a = a.apply(AsyncM::pure(move |x| f.at(x)));
                x = f.at(x);
            }
            _ => {
                a = a.recover_with(g.at(0));
            }
        }
    }
    check(log.take().is_empty(), "c29.lazy");
    check(run(a.try_get()) == Some(x) && log.take() == marks, "c29.program");
    check(run(a.try_get()) == Some(x) && log.take() == marks, "c29.program_again");
}
harness!(h_c29_program__3, {
    program(3);
});
harness!(ht_c29_program4__3, {
    program(4);
});

/// Asynchronous functions over a validated value: the value's function runs once on a value and
/// never on errors, the errors' one on every error, side by side, and the results keep the order
/// of the errors whichever is ready first.
harness!(h_c29_validated__4, {
    use rustica::datatypes::validated::Validated;
    let log = Log::new();
    let errs = case(4);
    let e: Vec<D> = ds(errs);
    let x = d();
    let v: Validated<D, D> = if errs == 0 { Validated::valid(x) } else { Validated::invalid_many(e.clone()) };
    let (f, p) = (Fun::any(), Pred::any());
    let n = case(3);
    let step = |n: usize| {
        let l = log.clone();
        move |x: D| {
            l.put(0, x);
            Leaf { n, log: l.clone(), m: x, v: f.at(x) }
        }
    };
    let ran = vec![(0, x), (1, x)];
    let a = v.fmap_valid_async(step(n));
    check(log.take().is_empty(), "c29.lazy");
    let got = run(a);
    let marks = log.take();
    match errs {
        0 => check(got == Some(Validated::Valid(f.at(x))) && marks == ran, "c29.fmap_valid"),
        _ => check(got == Some(v.clone()) && marks.is_empty(), "c29.fmap_valid"),
    }
    // the step may fail, with one error or two
    let l = log.clone();
    let a = v.and_then_async(move |x| {
        let l = l.clone();
        async move {
            l.put(0, x);
            let y = Leaf { n, log: l.clone(), m: x, v: f.at(x) }.await;
            if p.at(x) { Validated::Valid(y) } else { Validated::invalid_many(vec![y, x]) }
        }
    });
    check(log.take().is_empty(), "c29.lazy");
    let got = run(a);
    let marks = log.take();
    match errs {
        0 => {
            let want = if p.at(x) { Validated::Valid(f.at(x)) } else { Validated::invalid_many(vec![f.at(x), x]) };
            check(got == Some(want) && marks == ran, "c29.and_then")
        }
        _ => check(got == Some(v.clone()) && marks.is_empty(), "c29.and_then"),
    }
    // each error's function is ready in its own time: the i-th waits waits[i] polls
    let waits = [n, [0, 2, 1][n], 1];
    let at = Arc::new(AtomicUsize::new(0));
    let l = log.clone();
    let a = v.fmap_invalid_async(move |x: D| {
        let i = at.fetch_add(1, Ordering::SeqCst);
        l.put(i as u8, x);
        Leaf { n: waits[i], log: l.clone(), m: 7, v: f.at(x) }
    });
    check(log.take().is_empty(), "c29.lazy");
    let got = run(a);
    let marks = log.take();
    match errs {
        0 => check(got == Some(v.clone()) && marks.is_empty(), "c29.fmap_invalid"),
        _ => {
            let want: Vec<D> = e.iter().map(|&y| f.at(y)).collect();
            check(got == Some(Validated::invalid_many(want)), "c29.fmap_invalid");
            let started: Vec<D> = marks.iter().filter(|k| k.1 != 7 ).map(|k| k.1).collect();
            check(started == e && marks.len() == 2 * errs, "c29.fmap_invalid_once")
        }
    }
});
