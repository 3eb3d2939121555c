//! Shared by the persistent-vector checks: builders of irregular vectors and the comparison
//! of a vector with the plain sequence it stands for.
use crate::sx::*;
use rustica::pvec::PersistentVector as P;
pub type V = Vec<u8>;

pub fn elems(n: usize) -> V {
    let mut v = V::new();
    for _ in 0..n {
        v.push(byte());
    }
    v
}

/// `p` stands for the sequence `m`: length, and every element in iteration order.
pub fn same(p: &P<u8>, m: &V, id: &'static str) {
    check(p.len() == m.len(), id);
    check(p.is_empty() == m.is_empty(), id);
    let mut it = p.iter();
    let mut ok = true;
    for x in m {
        ok &= it.next() == Some(x);
    }
    ok &= it.next().is_none();
    check(ok, id);
    check(p.get(m.len()).is_none() && p.get(usize::MAX).is_none(), id);
    let mut ok = p.first() == m.first() && p.last() == m.last();
    for i in 0..m.len() {
        ok &= p.get(i) == m.get(i);
    }
    check(ok, id);
    let mut it = p.clone().into_iter();
    let mut ok = it.size_hint() == (m.len(), Some(m.len()));
    for x in m {
        ok &= it.next() == Some(*x);
    }
    check(ok && it.next().is_none(), id);
}
/// Reading at an arbitrary 64-bit index.
pub fn probe(p: &P<u8>, m: &V, id: &'static str) {
    let i = bits(64) as usize;
    check(p.get(i) == m.get(i), id);
}

/// A vector of `a + n + b` elements made by `a` front pushes, a bulk build of `n`, and `b`
/// back pushes, so that head buffer, tree and tail buffer are all in use.
pub fn shaped(a: usize, n: usize, b: usize) -> (P<u8>, V) {
    let mut m = elems(n);
    let mut p = P::from_slice(&m);
    for _ in 0..a {
        let x = byte();
        p = p.push_front(x);
        m.insert(0, x);
    }
    for _ in 0..b {
        let x = byte();
        p = p.push_back(x);
        m.push(x);
    }
    (p, m)
}

/// A shaped vector that has any number of earlier changes behind it.
#[cfg(rustica_verif)]
pub fn aged(a: usize, n: usize, b: usize) -> (P<u8>, V) {
    let (p, m) = shaped(a, n, b);
    (p.verif_aged(bits(64)), m)
}
