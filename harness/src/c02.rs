//! C02: concatenation, splitting, take/skip, insertion and removal of persistent vectors act
//! as on plain sequences, whatever history built the operands; so do the bulk operations.
//! bound: scaled and wide build (node sizes 4/3/2 and 4/2/4): every pair of operations from {push_back, push_front, pop_back, pop_front, update, take, skip, insert, remove, concat with a bulk-built vector of 1..=11 elements on either side, concat with itself} at every index, from a bulk-built vector of 0..=17 elements (thorough: every triple, from 0..=9 elements)
//! bound: scaled and wide build: every structural operation at every index followed by every end operation, from a vector made of {0,1,3,5} front pushes, 0..=7 bulk elements, {0,1,3,5} back pushes
//! bound: scaled and wide build: 20 (thorough 60) rounds of one of 7 growing and one of 6 shrinking operations, with the vector cut and swapped in between at none or one of 2 places, from 9 (thorough 6, 13, 20) elements; the tree stays no deeper than the vector was ever long
//! bound: scaled and wide build: any number of changes below 2^64 before one structural operation at every index of a vector of {0,1,3} front pushes, 0..=7 bulk elements, {0,1,3} back pushes
//! bound: plain build: split_at at any 64-bit index on lengths 0..=2, 63..=66, 129; insert, remove, concat around the inline limit and the leaf capacity
//! bound: plain build: concatenation of eight pairs of lengths up to 2100, cutting, inserting and removing at nine indices in vectors of 1024..=4161 elements, bulk operations on 64..=2100 elements
//! bound: bulk operations (map, filter, filter_map, flat_map, dedup, sorted, fold, zip, partition, chunk, functor, foldable, monoid instances) on 0..=6 elements in the scaled, the wide build and in the plain build, sort on 0..=4, with arbitrary functions and predicates over a four-value domain
//! bound: sorting and dedup also of elements that compare by a fixed key only and differ in a symbolic byte, up to 60 (large lengths: as above)
//! bound: element type u8, every element an unconstrained symbolic byte
use crate::harness;
use crate::pvm::*;
use crate::sx::*;
use rustica::pvec::PersistentVector as P;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;

fn ends(p: &P<u8>, m: &V, k: usize) -> (P<u8>, V) {
    let mut m = m.clone();
    match k {
        0 => {
            let x = byte();
            m.push(x);
            (p.push_back(x), m)
        }
        1 => {
            let x = byte();
            m.insert(0, x);
            (p.push_front(x), m)
        }
        2 => {
            let e = m.pop();
            let r = p.pop_back();
            check(r.as_ref().map(|r| r.1) == e, "c02.pop_back");
            (r.map_or(p.clone(), |r| r.0), m)
        }
        _ => {
            let e = if m.is_empty() { None } else { Some(m.remove(0)) };
            let r = p.pop_front();
            check(r.as_ref().map(|r| r.1) == e, "c02.pop_front");
            (r.map_or(p.clone(), |r| r.0), m)
        }
    }
}
fn cut(p: &P<u8>, m: &V, k: usize) -> (P<u8>, V) {
    let n = m.len();
    let i = case(n + 1);
    match k {
        0 => (p.take(i), m[..i].to_vec()),
        1 => (p.skip(i), m[i..].to_vec()),
        2 => {
            let x = byte();
            let mut m = m.clone();
            m.insert(i, x);
            (p.insert(i, x), m)
        }
        3 => {
            let mut m = m.clone();
            let r = p.remove(i);
            check(r.is_some() == (i < n), "c02.remove");
            if i < n {
                m.remove(i);
            }
            (r.unwrap_or(p.clone()), m)
        }
        _ => {
            let x = byte();
            let mut m = m.clone();
            if i < n {
                m[i] = x;
            }
            (p.update(i, x), m)
        }
    }
}
fn glue(p: &P<u8>, m: &V, k: usize) -> (P<u8>, V) {
    let mut r = V::new();
    match k {
        0 => {
            let o = elems(case(6) * 2 + 1);
            r.extend_from_slice(m);
            r.extend_from_slice(&o);
            (p.concat(&P::from_slice(&o)), r)
        }
        1 => {
            let o = elems(case(6) * 2 + 1);
            r.extend_from_slice(&o);
            r.extend_from_slice(m);
            (P::from_slice(&o).concat(p), r)
        }
        _ => {
            r.extend_from_slice(m);
            r.extend_from_slice(m);
            (p.concat(p), r)
        }
    }
}
fn step(p: &P<u8>, m: &V) -> (P<u8>, V) {
    match case(12) {
        k @ 0..=3 => ends(p, m, k),
        k @ 4..=8 => cut(p, m, k - 4),
        k => glue(p, m, k - 9),
    }
}

#[cfg(rustica_verif)]
mod scaled {
    use super::*;
    harness!(h_c02_aged__8, {
        // however many changes either operand has behind it
        let n = case(8);
        let (p, m) = aged([0, 1, 3][case(3)], n, [0, 1, 3][case(3)]);
        let (p, m) = match case(9) {
            8 => {
                let (q, o) = aged(1, [1, 3, 5, 9][case(4)], 1);
                (p.concat(&q), [m, o].concat())
            }
            k @ 0..=4 => cut(&p, &m, k),
            k => glue(&p, &m, k - 5),
        };
        same(&p, &m, "c02.aged");
    });
    /// A round of one growing and one shrinking operation, between which the vector may be
    /// cut and put together the other way round; `times` such rounds.
    fn rounds(n: usize, grow: usize, shrink: usize, turn: usize, times: usize) {
        let mut m = elems(n);
        let mut p = P::from_slice(&m);
        let mut most = n;
        for _ in 0..times {
            let l = m.len();
            let x = byte();
            match grow {
                0 => {
                    p = p.push_back(x);
                    m.push(x);
                }
                1 => {
                    p = p.push_front(x);
                    m.insert(0, x);
                }
                2 | 3 => {
                    let i = [l / 3, l - 1][grow - 2];
                    p = p.insert(i, x);
                    m.insert(i, x);
                }
                4 => {
                    p = p.concat(&P::from_slice(&[x, x, x, x, x]));
                    m.extend([x; 5]);
                }
                5 => {
                    p = P::from_slice(&[x, x, x, x, x]).concat(&p);
                    m = [[x; 5].to_vec(), m].concat();
                }
                _ => {
                    p = p.concat(&p);
                    m = [m.clone(), m].concat();
                }
            }
            most = most.max(m.len());
            let l = m.len();
            if turn > 0 {
                let i = [l / 3, l - 2][turn - 1];
                let (a, b) = p.split_at(i);
                p = b.concat(&a);
                m.rotate_left(i);
            }
            let less = l - n;
            match shrink {
                0 => {
                    for _ in 0..less {
                        p = p.pop_back().unwrap().0;
                    }
                    m.truncate(n);
                }
                1 => {
                    for _ in 0..less {
                        p = p.pop_front().unwrap().0;
                    }
                    m.drain(..less);
                }
                2 | 3 => {
                    for _ in 0..less {
                        let i = [m.len() / 2, 1][shrink - 2];
                        p = p.remove(i).unwrap();
                        m.remove(i);
                    }
                }
                4 => {
                    p = p.take(n);
                    m.truncate(n);
                }
                _ => {
                    p = p.skip(less);
                    m.drain(..less);
                }
            }
            check(p.len() == n, "c02.rounds_len");
        }
        check(p.verif_levels() <= most, "c02.rounds_levels");
        same(&p, &m, "c02.rounds");
    }
    harness!(h_c02_rounds__7, {
        let grow = case(7);
        rounds(9, grow, case(6), case(3), 20)
    });
    harness!(ht_c02_rounds_long__7, {
        let grow = case(7);
        rounds([6, 13, 20][case(3)], grow, case(6), case(3), 60)
    });
    harness!(h_c02_history__18, {
        let m = elems(case(18));
        let p = P::from_slice(&m);
        let (p1, m1) = step(&p, &m);
        let (p2, m2) = step(&p1, &m1);
        same(&p2, &m2, "c02.history");
        check(p1.len() == m1.len() && p1.iter().eq(m1.iter()), "c02.history_old");
        check(p.len() == m.len() && p.iter().eq(m.iter()), "c02.history_old");
    });
    harness!(ht_c02_history3__10, {
        let m = elems(case(10));
        let p = P::from_slice(&m);
        let (p1, m1) = step(&p, &m);
        let (p2, m2) = step(&p1, &m1);
        let (p3, m3) = step(&p2, &m2);
        same(&p3, &m3, "t:c02.history3");
        check(p2.len() == m2.len() && p2.iter().eq(m2.iter()), "t:c02.history3_old");
        check(p1.len() == m1.len() && p1.iter().eq(m1.iter()), "t:c02.history3_old");
    });
    harness!(h_c02_shaped__8, {
        let n = case(8);
        let (p, m) = shaped([0, 1, 3, 5][case(4)], n, [0, 1, 3, 5][case(4)]);
        let (p1, m1) = match case(8) {
            k @ 0..=4 => cut(&p, &m, k),
            k => glue(&p, &m, k - 5),
        };
        let (p2, m2) = ends(&p1, &m1, case(4));
        same(&p2, &m2, "c02.shaped");
    });
    harness!(h_c02_split__8, {
        // both halves, and their concatenation in either order
        let n = case(8);
        let (p, m) = shaped([0, 2, 4][case(3)], n * 2, [0, 2, 4][case(3)]);
        let i = case(m.len() + 2);
        let (l, r) = p.split_at(i);
        let i = i.min(m.len());
        same(&l, &m[..i].to_vec(), "c02.split");
        same(&r, &m[i..].to_vec(), "c02.split");
        same(&l.concat(&r), &m, "c02.rejoin");
        let mut sw = m[i..].to_vec();
        sw.extend_from_slice(&m[..i]);
        let s = r.concat(&l);
        same(&s, &sw, "c02.swap");
        same(&p, &m, "c02.persistent");
        probe(&s, &sw, "c02.probe");
    });
    harness!(h_c02_shaped_concat__8, {
        // two irregular operands
        let a = case(8);
        let (p, m) = shaped([0, 4][case(2)], a, [0, 4][case(2)]);
        let (q, n) = shaped([0, 4][case(2)], [0, 2, 5, 9][case(4)], [0, 4][case(2)]);
        let (q, n) = if case(2) == 0 { (q, n) } else { ends(&q, &n, 3) };
        let mut e = m.clone();
        e.extend_from_slice(&n);
        let r = p.concat(&q);
        same(&r, &e, "c02.concat");
        let k = case(2);
        let mut cur = (r, e);
        for _ in 0..4 {
            cur = ends(&cur.0, &cur.1, 2 + k);
        }
        same(&cur.0, &cur.1, "c02.concat_pop");
    });
    harness!(h_c02_repeat_concat__4, {
        // a vector glued to itself and to its halves again and again
        let mut m = elems(case(4) + 1);
        let mut p = P::from_slice(&m);
        for _ in 0..4 {
            let (a, b) = glue(&p, &m, 2);
            let i = case(3) * m.len() / 2;
            p = a.skip(i);
            m = b[i..].to_vec();
        }
        same(&p, &m, "c02.repeat");
    });
}

#[cfg(not(rustica_verif))]
mod plain {
    use super::*;
    const LEN: [usize; 8] = [0, 1, 2, 63, 64, 65, 66, 129];
    harness!(h_c02_split_any__8, {
        let m = elems(LEN[case(8)]);
        let p = P::from_slice(&m);
        let i = bits(64) as usize;
        let (l, r) = p.split_at(i);
        let k = if i < m.len() { concrete(i) } else { m.len() };
        check(l.len() == k && l.iter().eq(m[..k].iter()), "c02.split_any");
        check(r.len() == m.len() - k && r.iter().eq(m[k..].iter()), "c02.split_any");
    });
    harness!(h_c02_edge_index__8, {
        let m = elems(LEN[case(8)]);
        let p = P::from_slice(&m);
        let n = m.len();
        let i = [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX][case(7)];
        let x = byte();
        match case(5) {
            0 => {
                let mut e = m.clone();
                e.insert(i.min(n), x);
                check(p.insert(i, x).to_vec() == e, "c02.insert_at");
            }
            1 => match p.remove(i) {
                None => check(i >= n, "c02.remove_at"),
                Some(q) => {
                    let mut e = m.clone();
                    if i < n {
                        e.remove(i);
                    }
                    check(i < n && q.to_vec() == e, "c02.remove_at");
                }
            },
            2 => check(p.take(i).to_vec() == m[..i.min(n)], "c02.take_at"),
            3 => check(p.skip(i).to_vec() == m[i.min(n)..], "c02.skip_at"),
            _ => {
                let o = elems(LEN[case(8)]);
                let q = P::from_slice(&o);
                let mut e = m.clone();
                e.extend_from_slice(&o);
                check(p.concat(&q).to_vec() == e, "c02.concat_len");
            }
        }
    });
}

#[cfg(not(rustica_verif))]
mod large {
    use super::*;
    fn is(p: &P<u8>, m: &[u8], id: &'static str) {
        check(p.len() == m.len() && p.iter().eq(m.iter()), id);
        let n = m.len();
        for i in [0, 1, 31, 32, 63, 64, 65, n / 2, 1023, 1024, 2047, 2048, n.saturating_sub(1), n, usize::MAX] {
            check(p.get(i) == m.get(i), id);
        }
    }
    const PAIRS: [(usize, usize); 8] = [(2048, 70), (70, 2048), (1100, 1100), (2100, 1), (1, 2100), (500, 64), (64, 500), (2050, 2050)];
    harness!(h_c02_large_concat__8, {
        let (a, b) = PAIRS[case(8)];
        let (m, n) = (elems(a), elems(b));
        let (p, q) = (P::from_slice(&m), P::from_slice(&n));
        let (p, m) = match case(3) {
            0 => (p, m),
            1 => ends(&p, &m, 1),
            _ => ends(&p, &m, 3),
        };
        let r = p.concat(&q);
        let mut e = m.clone();
        e.extend_from_slice(&n);
        is(&r, &e, "c02.large_concat");
        let (s, f) = ends(&r, &e, case(4));
        is(&s, &f, "c02.large_concat_end");
        is(&p, &m, "c02.large_old");
    });
    harness!(h_c02_large_cut__6, {
        let n = [1024, 2047, 2048, 2049, 2113, 4161][case(6)];
        let m = elems(n);
        let p = P::from_slice(&m);
        let i = [1, 63, 64, 65, 1000, 1024, 2047, n - 65, n - 1][case(9)].min(n - 1);
        let x = byte();
        match case(3) {
            0 => {
                let (l, r) = p.split_at(i);
                is(&l, &m[..i], "c02.large_split");
                is(&r, &m[i..], "c02.large_split");
                let mut e = m[i..].to_vec();
                e.extend_from_slice(&m[..i]);
                is(&r.concat(&l), &e, "c02.large_swap");
                is(&p.take(i), &m[..i], "c02.large_take");
                is(&p.skip(i), &m[i..], "c02.large_skip");
            }
            1 => {
                let mut e = m.clone();
                e.insert(i, x);
                let q = p.insert(i, x);
                is(&q, &e, "c02.large_insert");
                e[i] = !x;
                is(&q.update(i, !x), &e, "c02.large_update");
            }
            _ => {
                let mut e = m.clone();
                e.remove(i);
                match p.remove(i) {
                    Some(q) => is(&q, &e, "c02.large_remove"),
                    None => check(false, "c02.large_remove"),
                }
            }
        }
        check(p.len() == n && p.iter().eq(m.iter()), "c02.large_old");
    });
    harness!(h_c02_large_bulk__4, {
        // long vectors, whose operands decide nothing
        let n = [65, 129, 1030, 2100][case(4)];
        let m = elems(n);
        let p = P::from_slice(&m);
        let (p, m) = match case(3) {
            0 => (p, m),
            1 => ends(&p, &m, 1),
            _ => {
                let (p, m) = ends(&p, &m, 3);
                ends(&p, &m, 0)
            }
        };
        let n = m.len();
        let c = byte();
        let xor: V = m.iter().map(|x| x ^ c).collect();
        is(&p.map(|x| x ^ c), &xor, "c02.large_map");
        is(&p.fmap(|x| x ^ c), &xor, "c02.large_map");
        is(&p.clone().fmap_owned(|x| x ^ c), &xor, "c02.large_map");
        let ix: P<(usize, u8)> = P::from_slice(&m.iter().copied().enumerate().collect::<Vec<_>>());
        let odd: Vec<(usize, u8)> = m.iter().copied().enumerate().filter(|t| t.0 % 3 != 1).collect();
        let rest: Vec<(usize, u8)> = m.iter().copied().enumerate().filter(|t| t.0 % 3 == 1).collect();
        check(ix.filter(|t| t.0 % 3 != 1).to_vec() == odd, "c02.large_filter");
        let (a, b) = ix.partition(|t| t.0 % 3 != 1);
        check(a.to_vec() == odd && b.to_vec() == rest, "c02.large_partition");
        check(ix.filter_map(|t| if t.0 % 3 != 1 { Some(*t) } else { None }).to_vec() == odd, "c02.large_filter_map");
        let twice: V = m.iter().flat_map(|x| [*x, c]).collect();
        check(p.flat_map(|x| vec![*x, c]).to_vec() == twice, "c02.large_flat_map");
        let z = p.zip(&p.skip(1));
        check(z.iter().copied().eq(m.iter().copied().zip(m[1..].iter().copied())) && z.len() == n - 1, "c02.large_zip");
        let ch = p.chunk(60);
        check(ch.len() == n.div_ceil(60), "c02.large_chunk");
        for (q, e) in ch.iter().zip(m.chunks(60)) {
            check(q.to_vec() == e, "c02.large_chunk");
        }
        // equal keys keep their order
        let v = keyed(n);
        check(P::from_slice(&v).sorted().iter().map(|k| (k.0, k.1)).eq(keyed_sorted(&v)), "c02.large_sorted");
        // fixed keys, so that the order is decided
        let key = |i: usize| (i * 7) % 61;
        let mut e: Vec<(usize, usize)> = (0..n).map(|i| (key(i), i)).collect();
        let s = P::from_slice(&e).sorted();
        let by = P::from_slice(&e).dedup();
        check(by.to_vec() == e, "c02.large_dedup");
        e.sort();
        check(s.to_vec() == e, "c02.large_sorted");
        let runs: Vec<usize> = (0..n).map(|i| i / 3).collect();
        check(P::from_slice(&runs).dedup().to_vec() == (0..n.div_ceil(3)).collect::<Vec<_>>(), "c02.large_dedup");
        check(p.fold_left(&vec![], |a: &Vec<u8>, x| if a.len() < 70 { [&a[..], &[*x]].concat() } else { a.clone() }) == m[..n.min(70)], "c02.large_fold_left");
        let f = p.fold_right(&0u8, |x, a| a.wrapping_mul(3) ^ *x);
        check(f == m.iter().rev().fold(0u8, |a, x| a.wrapping_mul(3) ^ *x), "c02.large_fold_right");
    });
}

mod bulk {
    use super::*;
    /// 0..=6 elements of the four-value domain.
    fn small(n: usize) -> V {
        let mut v = V::new();
        for _ in 0..n {
            v.push(d());
        }
        v
    }
    harness!(h_c02_map__7, {
        let m = small(case(7));
        let p = P::from_slice(&m);
        let f = Fun::any();
        let e: V = m.iter().map(|x| f.at(*x)).collect();
        check(p.map(|x| f.at(*x)).to_vec() == e, "c02.map");
        check(p.fmap(|x| f.at(*x)).to_vec() == e, "c02.fmap");
        check(p.clone().fmap_owned(|x| f.at(x)).to_vec() == e, "c02.fmap_owned");
        let g = Fun2::any();
        let z = d();
        check(p.fold(z, |a, x| g.at(a, *x)) == m.iter().fold(z, |a, x| g.at(a, *x)), "c02.fold");
        check(p.fold_left(&z, |a, x| g.at(*a, *x)) == m.iter().fold(z, |a, x| g.at(a, *x)), "c02.fold_left");
        check(p.fold_right(&z, |x, a| g.at(*x, *a)) == m.iter().rev().fold(z, |a, x| g.at(*x, a)), "c02.fold_right");
        check(p.length() == m.len(), "c02.length");
    });
    harness!(h_c02_filter__7, {
        let m = small(case(7));
        let p = P::from_slice(&m);
        let f = Pred::any();
        let e: V = m.iter().copied().filter(|x| f.at(*x)).collect();
        let o: V = m.iter().copied().filter(|x| !f.at(*x)).collect();
        check(p.filter(|x| f.at(*x)).to_vec() == e, "c02.filter");
        let (a, b) = p.partition(|x| f.at(*x));
        check(a.to_vec() == e && b.to_vec() == o, "c02.partition");
        let g = Fun::any();
        let e: V = e.iter().map(|x| g.at(*x)).collect();
        check(p.filter_map(|x| if f.at(*x) { Some(g.at(*x)) } else { None }).to_vec() == e, "c02.filter_map");
    });
    harness!(h_c02_flat_map__6, {
        let m = small(case(6));
        let p = P::from_slice(&m);
        let f = Fun::any();
        let g = Pred::any();
        let k = |x: u8| if g.at(x) { vec![x, f.at(x)] } else { vec![] };
        let e: V = m.iter().flat_map(|x| k(*x)).collect();
        check(p.flat_map(|x| k(*x)).to_vec() == e, "c02.flat_map");
    });
    harness!(h_c02_dedup__7, {
        let m = small(case(7));
        let p = P::from_slice(&m);
        let mut e = m.clone();
        e.dedup();
        check(p.dedup().to_vec() == e, "c02.dedup");
    });
    harness!(h_c02_dedup_first__5, {
        // of neighbours that are equal but not the same, the first stays
        let m: Vec<Keyed> = (0..case(5)).map(|_| Keyed(d(), d())).collect();
        let mut e = m.clone();
        e.dedup();
        check(P::from_slice(&m).dedup().iter().map(|k| (k.0, k.1)).eq(e.iter().map(|k| (k.0, k.1))), "c02.dedup_first");
    });
    harness!(h_c02_sorted_stable__5, {
        // equal keys keep their order
        let v = keyed([5, 8, 21, 33, 60][case(5)]);
        check(P::from_slice(&v).sorted().iter().map(|k| (k.0, k.1)).eq(keyed_sorted(&v)), "c02.sorted_stable");
    });
    harness!(h_c02_sorted__5, {
        let m = elems(case(5));
        let p = P::from_slice(&m);
        let mut e = m.clone();
        e.sort();
        check(p.sorted().to_vec() == e, "c02.sorted");
    });
    harness!(h_c02_zip__7, {
        let a = elems(case(7));
        let b = elems(case(7));
        let e: Vec<(u8, u8)> = a.iter().copied().zip(b.iter().copied()).collect();
        check(P::from_slice(&a).zip(&P::from_slice(&b)).to_vec() == e, "c02.zip");
    });
    harness!(h_c02_chunk__7, {
        let a = elems(case(7) * 2);
        let k = case(9);
        let c = P::from_slice(&a).chunk(k);
        if k == 0 {
            check(c.is_empty(), "c02.chunk0");
        } else {
            let mut ok = c.len() == (a.len() + k - 1) / k;
            for (i, e) in a.chunks(k).enumerate() {
                ok &= c.get(i).map(|x| x.to_vec()) == Some(e.to_vec());
            }
            check(ok, "c02.chunk");
        }
    });
    harness!(h_c02_monoid__6, {
        let a = elems(case(6));
        let b = elems(case(6));
        let (p, q) = (P::from_slice(&a), P::from_slice(&b));
        let mut e = a.clone();
        e.extend_from_slice(&b);
        check(p.combine(&q).to_vec() == e, "c02.combine");
        check(p.clone().combine_owned(q.clone()).to_vec() == e, "c02.combine_owned");
        check(<P<u8> as Monoid>::empty().to_vec().is_empty(), "c02.mempty");
        check(P::empty().combine(&p).to_vec() == a && p.combine(&P::empty()).to_vec() == a, "c02.identity");
        check(p.try_value() == a.first() && p.clone().try_into_value() == a.first().copied(), "c02.try_value");
        if !a.is_empty() {
            check(*p.value() == a[0] && p.clone().into_value() == a[0], "c02.value");
        }
    });
}
