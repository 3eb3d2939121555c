//! C31: a persistent vector shares structure between versions: an operation copies a bounded
//! number of elements, not the whole vector.
//! Compiled three times like C01. The bound is 8 leaves of elements for updates and operations at
//! an end (512 with the shipped leaf size of 64) and 32 leaves (2,048) for the structural operations.
//! bound: plain build: vectors of 3000 and 4160 bulk-built elements with 0 or 70 pushed at either end, and of 2400 elements pushed one at a time; updates and cuts at every index at or next to a multiple of 64 (thorough: updates at every index); reads at every index; up to 150 pushes or pops in a row
//! bound: scaled and wide build: vectors of 120 bulk-built elements with {0,1,3,5} pushed at either end, every single operation at every index; of 70 elements with {0,1,3} and {0,4} pushed, every structural operation at every index followed by 7 equal end operations or an update at one of five places
//! bound: elements count how often they are copied; their contents play no part
use crate::harness;
use crate::sx::*;
use rustica::pvec::PersistentVector;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static COPIES: AtomicUsize = AtomicUsize::new(0);
pub struct Counted(pub u8);
impl Clone for Counted {
    fn clone(&self) -> Self {
        COPIES.fetch_add(1, SeqCst);
        Counted(self.0)
    }
}
type P = PersistentVector<Counted>;
/// What `f` gives, and how many elements were copied meanwhile.
fn copies<T, F: FnOnce() -> T>(f: F) -> (T, usize) {
    let before = COPIES.load(SeqCst);
    let r = f();
    (r, COPIES.load(SeqCst) - before)
}
fn made(a: usize, n: usize, b: usize) -> P {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Counted(0));
    }
    let mut p: P = v.into_iter().collect();
    for _ in 0..a {
        p = p.push_front(Counted(0));
    }
    for _ in 0..b {
        p = p.push_back(Counted(0));
    }
    p
}
#[cfg(not(rustica_verif))]
const LEAF: usize = 64;
#[cfg(rustica_verif)]
const LEAF: usize = if cfg!(rustica_verif_wide) { 2 } else { 3 };
const NEAR: usize = 8 * LEAF;
const FAR: usize = 32 * LEAF;

/// An index into a vector of `n`: any one, or with the shipped sizes one at or next to a multiple
/// of the leaf size.
fn index(n: usize, all: bool) -> usize {
    let i = if all || LEAF < 64 {
        bits(64) as usize
    } else {
        case(n / LEAF + 1) * LEAF + [0, 1, LEAF - 1][case(3)]
    };
    assume(i < n);
    concrete(i)
}
/// Reading and cloning copy nothing.
fn reading(p: &P) {
    let i = bits(64) as usize;
    assume(i < p.len());
    let (r, c) = copies(|| p.get(i).is_some() && p.first().is_some() && p.last().is_some());
    check(r && c == 0, "c31.read");
    let (q, c) = copies(|| p.clone());
    check(q.len() == p.len() && c == 0, "c31.clone");
}
fn whole(p: &P) {
    let (k, c) = copies(|| p.iter().count());
    check(k == p.len() && c == 0, "c31.iter");
}
fn near(p: &P, op: usize, all: bool) -> P {
    let i = if op == 4 { index(p.len(), all) } else { 0 };
    let (q, c) = copies(|| match op {
        0 => p.push_back(Counted(0)),
        1 => p.push_front(Counted(0)),
        2 => p.pop_back().map(|t| t.0).unwrap_or_default(),
        3 => p.pop_front().map(|t| t.0).unwrap_or_default(),
        _ => p.update(i, Counted(1)),
    });
    check(c <= NEAR, "c31.end");
    check(q.len() == [p.len() + 1, p.len() + 1, p.len() - 1, p.len() - 1, p.len()][op], "c31.end_len");
    q
}
fn far(p: &P, op: usize) -> P {
    let n = p.len();
    let i = if op < 5 { index(n, false) } else { 0 };
    let (q, c) = copies(|| match op {
        0 => p.take(i),
        1 => p.skip(i),
        2 => p.insert(i, Counted(1)),
        3 => p.remove(i).unwrap_or_default(),
        4 => {
            let (a, b) = p.split_at(i);
            b.concat(&a)
        }
        _ => p.concat(p),
    });
    check(c <= FAR, "c31.structural");
    q
}

#[cfg(rustica_verif)]
mod scaled {
    use super::*;
    const E: [usize; 4] = [0, 1, 3, 5];
    fn start() -> P {
        made(E[case(4)], 120, E[case(4)])
    }
    harness!(h_c31_read__4, {
        let p = start();
        whole(&p);
        reading(&p);
    });
    harness!(h_c31_single__4, {
        let p = start();
        match case(2) {
            0 => near(&p, case(5), true),
            _ => far(&p, case(6)),
        };
    });
    harness!(h_c31_after__6, {
        let p = made([0, 3, 1][case(6) / 2], 70, [0, 4][case(2)]);
        let mut q = far(&p, case(6));
        let op = case(5);
        if op == 4 {
            let n = q.len();
            let i = [0, n / 4, n / 2, n.saturating_sub(n / 4), n.saturating_sub(1)][case(5)];
            if i < n {
                let (_, c) = copies(|| q.update(i, Counted(1)));
                check(c <= NEAR, "c31.end");
            }
        } else {
            for _ in 0..7 {
                if q.len() > 0 {
                    q = near(&q, op, true);
                }
            }
        }
    });
}
#[cfg(not(rustica_verif))]
mod plain {
    use super::*;
    fn start() -> P {
        match case(5) {
            0 => made(0, 4160, 0),
            1 => made(70, 3000, 70),
            2 => made(0, 0, 2400),
            3 => made(2400, 0, 0),
            _ => made(70, 4160, 0),
        }
    }
    harness!(h_c31_read__5, {
        let p = start();
        if case(2) == 0 {
            reading(&p);
        } else {
            whole(&p);
        }
    });
    harness!(h_c31_update__5, {
        let p = start();
        near(&p, 4, false);
    });
    harness!(ht_c31_update__5, {
        let p = start();
        near(&p, 4, true);
    });
    harness!(h_c31_ends__5, {
        let mut p = start();
        let op = case(4);
        for _ in 0..150 {
            p = near(&p, op, true);
        }
        near(&p, case(4), true);
    });
    harness!(h_c31_cut__5, {
        let p = start();
        far(&p, case(6));
    });
}
