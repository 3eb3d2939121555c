//! C01: a persistent vector read, updated, and pushed or popped at its ends behaves as the
//! plain sequence, and old versions stay as they were.
//! Compiled twice: with the shipped node sizes ("plain"), and with `--cfg rustica_verif`
//! ("scaled" and "wide"), where the node sizes are 4 (inline) / 3 (leaf) / 2 (branch) and 4/2/4,
//! so that short vectors already form deep or broad, irregular trees.
//! bound: scaled and wide build: every history of 5 (thorough 7) operations from {push_back, push_front, pop_back, pop_front, update at any index} from a bulk-built vector of 0..=13 elements
//! bound: scaled and wide build: every history of 2 (thorough 3) runs of 1..=6 equal end operations each, from a bulk-built vector of 0..=13 elements
//! bound: scaled and wide build: every interleaving of front and back pops that empties a vector made of 0..=4 front pushes, 0..=7 bulk elements, 0..=4 back pushes
//! bound: scaled and wide build: any number of changes below 2^64 before a vector of {0,1,3} front pushes, 0..=7 bulk elements, {0,1,3} back pushes and two operations on it
//! bound: plain build: lengths 0..=3, 62..=66, 127..=131, 192..=194 (inline limit, leaf capacity and their multiples), reads at any 64-bit index, one update at any 64-bit index, one push or pop at each end
//! bound: plain build: bulk-built vectors of 1023, 1025, 2047, 2048, 2049, 4160 elements and vectors grown to 1230..2200 elements by pushes at the ends, one operation or 140 pops, reads at chosen indices
//! bound: element type u8, every element an unconstrained symbolic byte
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
use crate::harness;
use crate::pvm::*;
use crate::sx::*;
use rustica::pvec::PersistentVector as P;

/// One operation at an end or one update, on both sides.
fn step(p: &P<u8>, m: &V) -> (P<u8>, V) {
    end(p, m, case(4))
}
fn end(p: &P<u8>, m: &V, op: usize) -> (P<u8>, V) {
    match op {
        0 => {
            let x = byte();
            let mut m = m.clone();
            m.push(x);
            (p.push_back(x), m)
        }
        1 => {
            let x = byte();
            let mut m = m.clone();
            m.insert(0, x);
            (p.push_front(x), m)
        }
        2 => pop_back(p, m),
        _ => pop_front(p, m),
    }
}
/// An update at an arbitrary 64-bit index.
fn update(p: &P<u8>, m: &V) -> (P<u8>, V) {
    let i = bits(64) as usize;
    let x = byte();
    let q = p.update(i, x);
    let mut m = m.clone();
    if i < m.len() {
        let k = concrete(i);
        m[k] = x;
    }
    (q, m)
}
fn pop_back(p: &P<u8>, m: &V) -> (P<u8>, V) {
    let mut m2 = m.clone();
    let e = m2.pop();
    match p.pop_back() {
        None => {
            check(e.is_none(), "c01.pop_back");
            (p.clone(), m.clone())
        }
        Some((q, y)) => {
            check(e == Some(y), "c01.pop_back");
            (q, m2)
        }
    }
}
fn pop_front(p: &P<u8>, m: &V) -> (P<u8>, V) {
    let mut m2 = m.clone();
    let e = if m2.is_empty() { None } else { Some(m2.remove(0)) };
    match p.pop_front() {
        None => {
            check(e.is_none(), "c01.pop_front");
            (p.clone(), m.clone())
        }
        Some((q, y)) => {
            check(e == Some(y), "c01.pop_front");
            (q, m2)
        }
    }
}

#[cfg(rustica_verif)]
mod scaled {
    use super::*;
    fn history(n: usize, k: usize) {
        let m0 = elems(n);
        let p0 = P::from_slice(&m0);
        let (mut p, mut m) = (p0.clone(), m0.clone());
        for _ in 0..k {
            let (q, n) = step(&p, &m);
            p = q;
            m = n;
        }
        same(&p, &m, "c01.history");
        same(&p0, &m0, "c01.persistent");
    }
    harness!(h_c01_history__14, { history(case(14), 5) });
    harness!(ht_c01_history7__14, { history(case(14), 7) });
    /// Histories made of runs of one operation each.
    fn runs(n: usize, k: usize) {
        let mut m = elems(n);
        let mut p = P::from_slice(&m);
        for _ in 0..k {
            let op = case(4);
            let times = case(6) + 1;
            for _ in 0..times {
                let (q, n) = end(&p, &m, op);
                p = q;
                m = n;
            }
        }
        same(&p, &m, "c01.runs");
    }
    harness!(h_c01_runs__14, { runs(case(14), 2) });
    harness!(ht_c01_runs3__14, { runs(case(14), 3) });
    harness!(h_c01_each_version__14, {
        // every version of a branching chain is checked after all were made and one dropped
        let m0 = elems(case(14));
        let p0 = P::from_slice(&m0);
        let (p1, m1) = step(&p0, &m0);
        let (p2, m2) = step(&p1, &m1);
        let (p3, m3) = update(&p1, &m1);
        drop(p2);
        drop(m2);
        same(&p0, &m0, "c01.v0");
        same(&p1, &m1, "c01.v1");
        same(&p3, &m3, "c01.v3");
    });
    harness!(h_c01_aged__8, {
        // however many changes a vector has behind it, the next ones act the same
        let n = case(8);
        let (p0, m0) = aged([0, 1, 3][case(3)], n, [0, 1, 3][case(3)]);
        let (p, m) = step(&p0, &m0);
        let (p, m) = if case(2) == 0 { step(&p, &m) } else { update(&p, &m) };
        same(&p, &m, "c01.aged");
        same(&p0, &m0, "c01.aged_old");
    });
    harness!(h_c01_read_update__8, {
        let n = case(8);
        let (p, m) = shaped([0, 1, 3, 5][case(4)], n, [0, 1, 3, 5][case(4)]);
        let (q, mq) = update(&p, &m);
        same(&q, &mq, "c01.update");
        probe(&p, &m, "c01.probe");
    });
    harness!(h_c01_drain__8, {
        let n = case(8);
        let a = case(5);
        let b = case(5);
        let (mut p, mut m) = shaped(a, n, b);
        same(&p, &m, "c01.shaped");
        // a run of pops at one end, then a run at the other, then the rest alternating
        let k = m.len();
        let r1 = case(k + 1);
        for _ in 0..r1 {
            let (q, n) = pop_back(&p, &m);
            p = q;
            m = n;
        }
        same(&p, &m, "c01.drained");
        let r2 = case(k - r1 + 1);
        for _ in 0..r2 {
            let (q, n) = pop_front(&p, &m);
            p = q;
            m = n;
        }
        same(&p, &m, "c01.drained");
        let x = byte();
        let (q, mq) = (p.push_back(x).push_front(x), {
            let mut q = m.clone();
            q.push(x);
            q.insert(0, x);
            q
        });
        same(&q, &mq, "c01.refilled");
    });
    harness!(ht_c01_drain_any__8, {
        let n = case(8);
        let (mut p, mut m) = shaped(case(4), n, case(4));
        while !m.is_empty() {
            let (q, n) = if case(2) == 0 { pop_back(&p, &m) } else { pop_front(&p, &m) };
            p = q;
            m = n;
            check(p.len() == m.len(), "t:c01.drain");
        }
        check(p.pop_back().is_none() && p.pop_front().is_none(), "t:c01.drain");
    });
    harness!(h_c01_long_push__3, {
        // a long one-sided growth: the tree gains several levels
        let k = case(3);
        let n = case(40);
        let mut p = P::new();
        let mut m = V::new();
        for i in 0..n {
            let x = byte();
            if k == 0 || (k == 2 && i % 2 == 0) {
                p = p.push_back(x);
                m.push(x);
            } else {
                p = p.push_front(x);
                m.insert(0, x);
            }
        }
        same(&p, &m, "c01.long_push");
    });
}

#[cfg(not(rustica_verif))]
mod plain {
    use super::*;
    const LEN: [usize; 17] = [0, 1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 130, 131, 192, 193, 194];
    fn start(k: usize) -> (P<u8>, V) {
        let m = elems(LEN[k]);
        (P::from_slice(&m), m)
    }
    harness!(h_c01_ops__17, {
        let (p, m) = start(case(17));
        let (q, n) = if case(2) == 0 { update(&p, &m) } else { step(&p, &m) };
        same(&q, &n, "c01.op");
        check(p.len() == m.len() && p.iter().eq(m.iter()), "c01.old");
    });
    harness!(h_c01_buffers__6, {
        // head and tail buffers filled to and past their capacity
        let k = case(6);
        let a = [0, 1, 63, 64, 65, 66][k];
        let b = [0, 1, 64, 65][case(4)];
        let (p, m) = shaped(a, 65, b);
        check(p.len() == m.len() && p.iter().eq(m.iter()), "c01.buffers");
        let (q, n) = if case(2) == 0 { pop_back(&p, &m) } else { pop_front(&p, &m) };
        check(q.len() == n.len() && q.iter().eq(n.iter()), "c01.buffers");
    });
    const LONG: [usize; 6] = [1023, 1025, 2047, 2048, 2049, 4160];
    /// Cheap comparison of long contents: everything but a few places by one query.
    fn like(p: &P<u8>, m: &V, id: &'static str) {
        check(p.len() == m.len() && p.iter().eq(m.iter()), id);
        let n = m.len();
        for i in [0, 1, 31, 32, 63, 64, 65, n / 2, 1023, 1024, 2047, 2048, n - 2, n - 1, n, n + 1, usize::MAX] {
            check(p.get(i) == m.get(i), id);
        }
    }
    harness!(h_c01_large__6, {
        // trees of two and three levels with the shipped node sizes
        let n = LONG[case(6)];
        let m = elems(n);
        let p = P::from_slice(&m);
        like(&p, &m, "c01.large");
        let x = byte();
        let k = case(9);
        let (q, e) = match k {
            0 => end(&p, &m, 0),
            1 => end(&p, &m, 1),
            2 => pop_back(&p, &m),
            3 => pop_front(&p, &m),
            _ => {
                let i = [0, 64, 1024, n / 2 + 1, n - 1][k - 4].min(n - 1);
                let mut e = m.clone();
                e[i] = x;
                (p.update(i, x), e)
            }
        };
        like(&q, &e, "c01.large_op");
        check(p.len() == n && p.iter().eq(m.iter()), "c01.large_old");
    });
    harness!(h_c01_grown__4, {
        // grown one element at a time past the buffers at either end
        let (a, b) = [(0, 2200), (2200, 0), (700, 700), (130, 1100)][case(4)];
        let mut p = P::new();
        let mut m = V::new();
        for _ in 0..a {
            let x = byte();
            p = p.push_front(x);
            m.push(x);
        }
        m.reverse();
        for _ in 0..b {
            let x = byte();
            p = p.push_back(x);
            m.push(x);
        }
        like(&p, &m, "c01.grown");
        // and partly taken off again
        for _ in 0..70 {
            match p.pop_front() {
                Some((q, y)) => {
                    check(y == m[0], "c01.grown_pop");
                    m.remove(0);
                    p = q;
                }
                None => check(false, "c01.grown_pop"),
            }
            match p.pop_back() {
                Some((q, y)) => {
                    check(m.pop() == Some(y), "c01.grown_pop");
                    p = q;
                }
                None => check(false, "c01.grown_pop"),
            }
        }
        like(&p, &m, "c01.grown_pop");
    });
    harness!(h_c01_access, {
        let n = case(4);
        let m = elems(n);
        let p: P<u8> = m.iter().copied().collect();
        let i = bits(64) as usize;
        check(p.try_get(i).ok() == m.get(i), "c01.try_get");
        check(p.first() == m.first(), "c01.first");
        check(p.last() == m.last(), "c01.last");
        check(p.to_vec() == m, "c01.to_vec");
        let x = byte();
        match p.try_update(i, x) {
            Ok(q) => {
                check(i < m.len(), "c01.try_update");
                if i < m.len() {
                    let k = concrete(i);
                    let mut m2 = m.clone();
                    m2[k] = x;
                    check(q.to_vec() == m2, "c01.try_update");
                }
            }
            Err(e) => {
                check(i >= m.len(), "c01.try_update");
                check(
                    e == rustica::pvec::PVecError::IndexOutOfBounds { index: i, len: m.len() },
                    "c01.try_update_err",
                );
            }
        }
        if i < m.len() {
            check(p[i] == m[concrete(i)], "c01.index");
        } else {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p[i]));
            check(r.is_err(), "c01.index_oob");
        }
        let mut owned = p.clone().into_iter();
        check(owned.size_hint() == (m.len(), Some(m.len())), "c01.size_hint");
        let mut ok = true;
        for y in &m {
            ok &= owned.next() == Some(*y);
        }
        check(ok && owned.next().is_none() && owned.next().is_none(), "c01.into_iter");
        let mut it = (&p).into_iter();
        let mut left = m.len();
        let mut ok = it.len() == left;
        while it.next().is_some() {
            left -= 1;
            ok &= it.len() == left;
        }
        check(ok && left == 0, "c01.iter_len");
    });
    harness!(h_c01_construct, {
        let n = case(4);
        let m = elems(n);
        let k = case(5);
        check(hinted(m.clone(), k).collect::<P<u8>>().to_vec() == m, "c01.collect");
        check(P::from(m.clone()).to_vec() == m, "c01.from_vec");
        check(Vec::from(P::from_slice(&m)) == m, "c01.into_vec");
        check(P::from_slice_with_cache_policy(&m, ()).to_vec() == m, "c01.from_slice_policy");
        let mut e = P::from_slice(&m);
        let before = e.clone();
        e.extend(hinted(m.iter().copied().rev().collect(), k));
        let mut m2 = m.clone();
        m2.extend(m.iter().copied().rev());
        check(e.to_vec() == m2, "c01.extend");
        check(before.to_vec() == m, "c01.extend_old");
        let x = byte();
        let y = byte();
        check(P::unit(x).to_vec() == [x], "c01.unit");
        check(P::<u8>::new().is_empty() && P::<u8>::default().is_empty() && P::<u8>::with_cache_policy(()).is_empty(), "c01.empty");
        let v = rustica::pvec![x, y, x];
        check(v.to_vec() == [x, y, x], "c01.macro");
        let v: P<u8> = rustica::pvec![];
        check(v.len() == 0 && v.get(0).is_none() && v.first().is_none() && v.last().is_none(), "c01.macro");
    });
}
