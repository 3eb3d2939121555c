//! C03: equality, ordering and hashing of persistent vectors are those of the element
//! sequences, however the vectors were built.
//! bound: scaled and wide build (node sizes 4/3/2 and 4/2/4): pairs of vectors of 0..=5 elements each, each built in one of 8 ways (bulk, back pushes, front pushes, overwritten, pushed and popped at either end, concatenated, split off)
//! bound: scaled and wide build: any number of changes below 2^64 behind either vector (0..=6 elements)
//! bound: plain build: the same builders for 0..=3 elements, and pairs at 64..=66, 130, 1025, 2049, 2100 elements (one place or the length may differ)
//! bound: element type u8, unconstrained; a float-like element that need not equal itself or be ordered (0..=5 elements); an element that compares and hashes by its key only (0..=4)
//! bound: hashing observed through a hasher that records every write and its length
use crate::harness;
use crate::pvm::*;
use crate::sx::*;
use rustica::pvec::PersistentVector as P;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Folds every byte written, so equal digests of symbolic data mean equal write streams.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        // a hasher may tell one long write from several short ones
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
fn stream<T: Hash + Clone>(p: &P<T>) -> Vec<u8> {
    let mut r = Rec(Vec::new());
    p.hash(&mut r);
    r.0
}

/// The sequence `m`, built in way `k`.
fn build(m: &V, k: usize) -> P<u8> {
    make(m, k, &byte)
}
fn make<T: Clone>(m: &Vec<T>, k: usize, other: &dyn Fn() -> T) -> P<T> {
    let elems = |n: usize| (0..n).map(|_| other()).collect::<Vec<T>>();
    let byte = || other();
    let n = m.len();
    match k {
        0 => P::from_slice(m),
        1 => {
            let mut p = P::new();
            for x in m {
                p = p.push_back(x.clone());
            }
            p
        }
        2 => {
            let mut p = P::new();
            for x in m.iter().rev() {
                p = p.push_front(x.clone());
            }
            p
        }
        3 => {
            let mut p = P::from_slice(&elems(n));
            for (i, x) in m.iter().enumerate() {
                p = p.update(i, x.clone());
            }
            p
        }
        4 => {
            let mut p = P::from_slice(m);
            for _ in 0..5 {
                p = p.push_back(byte());
            }
            for _ in 0..5 {
                p = p.pop_back().unwrap().0;
            }
            p
        }
        5 => {
            let mut p = P::from_slice(m);
            for _ in 0..5 {
                p = p.push_front(byte());
            }
            for _ in 0..5 {
                p = p.pop_front().unwrap().0;
            }
            p
        }
        6 => P::from_slice(&m[..n / 2]).concat(&P::from_slice(&m[n / 2..])),
        _ => {
            let mut e = elems(3);
            e.extend_from_slice(m);
            e.extend_from_slice(&elems(3));
            P::from_slice(&e).skip(3).take(n)
        }
    }
}
fn compare(p: &P<u8>, m: &V, q: &P<u8>, n: &V) {
    check((p == q) == (m == n), "c03.eq");
    check((p != q) == (m != n), "c03.ne");
    check(p.cmp(q) == m.cmp(n), "c03.cmp");
    check(p.partial_cmp(q) == m.partial_cmp(n), "c03.partial_cmp");
    check((p < q) == (m < n) && (p >= q) == (m >= n), "c03.lt");
}
harness!(h_c03_same__16, {
    // the same sequence built two ways: equal, unordered, same hash
    let k = case(16);
    let n = if cfg!(rustica_verif) { case(9) } else { case(4) };
    let m = elems(n);
    let p = build(&m, k / 2);
    let q = build(&m, case(4) + 4 * (k % 2));
    check(p == q && !(p != q), "c03.same_eq");
    check(p.cmp(&q) == Ordering::Equal && p.partial_cmp(&q) == Some(Ordering::Equal), "c03.same_cmp");
    check(stream(&p) == stream(&q), "c03.same_hash");
    check(p.clone() == p, "c03.clone");
});
harness!(h_c03_pair__8, {
    let k = case(8);
    let (a, b) = if cfg!(rustica_verif) { (case(6), case(6)) } else { (case(4), case(4)) };
    let (m, n) = (elems(a), elems(b));
    let p = build(&m, k);
    let q = build(&n, [0, 2, 5, 6][case(4)]);
    compare(&p, &m, &q, &n);
});
/// Like a float: one value (255) is equal to nothing and ordered with nothing.
#[derive(Clone, Copy)]
struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 != 255 && self.0 == o.0
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.0 == 255 || o.0 == 255 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
fn compare_odd(p: &P<Odd>, m: &Vec<Odd>, q: &P<Odd>, n: &Vec<Odd>) {
    check((p == q) == (m == n) && (p != q) == (m != n), "c03.odd_eq");
    check(p.partial_cmp(q) == m.partial_cmp(n), "c03.odd_cmp");
    check((p < q) == (m < n) && (p >= q) == (m >= n), "c03.odd_lt");
}
harness!(h_c03_odd__8, {
    // elements that need not equal themselves: a vector and its copies are compared by element too
    let k = case(8);
    let a = case(6);
    let m: Vec<Odd> = elems(a).into_iter().map(Odd).collect();
    let p = make(&m, k, &|| Odd(byte()));
    compare_odd(&p, &m, &p, &m);
    compare_odd(&p, &m, &p.clone(), &m);
    let mut n = m.clone();
    let q = match case(3) {
        0 => {
            n.pop();
            p.pop_back().map_or(P::new(), |x| x.0)
        }
        1 => {
            n.push(Odd(byte()));
            p.push_back(n[a])
        }
        _ => make(&n, 2, &|| Odd(byte())),
    };
    compare_odd(&p, &m, &q, &n);
    compare_odd(&q, &n, &p, &m);
});
harness!(h_c03_keyed__8, {
    // elements that compare and hash by a part of themselves only
    let k = case(8);
    let a = case(5);
    let m: Vec<Keyed> = (0..a).map(|_| Keyed(byte(), d())).collect();
    let n: Vec<Keyed> = m.iter().map(|x| Keyed(x.0, d())).collect();
    let p = make(&m, k, &|| Keyed(byte(), d()));
    let q = make(&n, [0, 4, 5, 6][case(4)], &|| Keyed(byte(), d()));
    check(p == q && p.cmp(&q) == Ordering::Equal, "c03.keyed_eq");
    check(stream(&p) == stream(&q), "c03.keyed_hash");
});
harness!(h_c03_max, {
    // ordering through min/max and sorting of whole vectors
    let (m, n) = (elems(2), elems(2));
    let p = build(&m, case(8));
    let q = build(&n, case(8));
    let (lo, hi) = if m <= n { (&m, &n) } else { (&n, &m) };
    check(p.clone().min(q.clone()).to_vec() == *lo, "c03.min");
    check(p.max(q).to_vec() == *hi, "c03.max");
});
#[cfg(rustica_verif)]
harness!(h_c03_aged__8, {
    // the number of changes behind a vector does not show
    let k = case(8);
    let n = case(7);
    let m = elems(n);
    let p = build(&m, k).verif_aged(bits(64));
    let q = build(&m, case(4)).verif_aged(bits(64));
    check(p == q && p.cmp(&q) == Ordering::Equal, "c03.aged_eq");
    check(stream(&p) == stream(&q), "c03.aged_hash");
});
#[cfg(not(rustica_verif))]
harness!(h_c03_long__6, {
    // across the inline limit, with the shipped node sizes; one element may differ
    let n = 64 + case(6) / 2;
    let mut m = elems(n);
    let p = build(&m, [0, 1, 2][case(3)]);
    let i = [0, 31, 63][case(3)];
    m[i] = byte();
    let q = build(&m, [0, 4, 6][case(3)]);
    let same = p.get(i) == Some(&m[i]);
    check((p == q) == same, "c03.long_eq");
    check((p.cmp(&q) == Ordering::Equal) == same, "c03.long_cmp");
    if same {
        check(stream(&p) == stream(&q), "c03.long_hash");
    }
});
#[cfg(not(rustica_verif))]
harness!(h_c03_large__4, {
    // trees of two and three levels: one place may differ, or one is longer
    let n = [130, 1025, 2049, 2100][case(4)];
    let m = elems(n);
    let p = P::from_slice(&m);
    let i = [0, 64, n / 2, n - 1][case(4)];
    let x = byte();
    let q = match case(3) {
        0 => P::from_slice(&m[..n / 3]).concat(&P::from_slice(&m[n / 3..])),
        1 => {
            let (a, b) = p.split_at(n / 2);
            a.concat(&b)
        }
        _ => P::from_slice(&m[1..]).push_front(m[0]),
    };
    check(p == q && p.cmp(&q) == Ordering::Equal && stream(&p) == stream(&q), "c03.large_same");
    let r = q.update(i, x);
    check((p == r) == (m[i] == x), "c03.large_eq");
    check(p.cmp(&r) == m[i].cmp(&x) && p.partial_cmp(&r) == Some(m[i].cmp(&x)), "c03.large_cmp");
    let l = q.push_back(x);
    check(p != l && p < l && l > p, "c03.large_longer");
});
