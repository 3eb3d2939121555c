//! C21: a lens reads and writes exactly its focus: reading, setting and modifying agree with
//! the functions it was built from, obey the lens laws where those do, skip the write when
//! nothing changes, and mapped or composed lenses act on the composed focus.
//! bound: records of three fields and arbitrary get/set tables over four-value structures; modifying functions arbitrary tables; compositions of two, mappings of two
use crate::harness;
use crate::sx::*;
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::lens::Lens;
use rustica::traits::iso::Iso;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Rec {
    a: D,
    b: D,
    c: D,
}
impl Rec {
    fn any() -> Rec {
        Rec { a: d(), b: d(), c: d() }
    }
}

harness!(h_c21_laws, {
    let l = Lens::new(|r: &Rec| r.b, |r: Rec, b| Rec { b, ..r });
    let r = Rec::any();
    let (x, y) = (d(), d());
    let f = Fun::any();
    check(l.get(&r) == r.b, "c21.get");
    check(l.set(r.clone(), x) == Rec { b: x, ..r.clone() }, "c21.set");
    check(l.set_always(r.clone(), x) == Rec { b: x, ..r.clone() }, "c21.set_always");
    check(l.get(&l.set(r.clone(), x)) == x, "c21.put_get");
    check(l.set(r.clone(), l.get(&r)) == r, "c21.get_put");
    check(l.set(l.set(r.clone(), x), y) == l.set(r.clone(), y), "c21.put_put");
    check(l.modify(r.clone(), |v| f.at(v)) == Rec { b: f.at(r.b), ..r.clone() }, "c21.modify");
    check(l.modify_always(r.clone(), |v| f.at(v)) == Rec { b: f.at(r.b), ..r.clone() }, "c21.modify_always");
    check(l.modify(r.clone(), |v| v) == r, "c21.modify_identity");
    // a mapped focus: b seen through an invertible change of representation
    let k = d();
    let m = l.clone().fmap(move |b| b ^ k, move |v| v ^ k);
    check(m.get(&r) == r.b ^ k, "c21.fmap_get");
    check(m.set(r.clone(), x) == Rec { b: x ^ k, ..r.clone() }, "c21.fmap_set");
    check(m.modify(r.clone(), |v| f.at(v)) == Rec { b: f.at(r.b ^ k) ^ k, ..r.clone() }, "c21.fmap_modify");
});
harness!(h_c21_any, {
    // arbitrary get and set: what runs, and how often
    let (g, s) = (Fun::any(), Fun2::any());
    let writes = Rc::new(Cell::new(0));
    let w = writes.clone();
    let l = Lens::new(
        move |r: &D| g.at(*r),
        move |r: D, v: D| {
            w.set(w.get() + 1);
            s.at(r, v)
        },
    );
    let (r, v) = (d(), d());
    let f = Fun::any();
    check(l.get(&r) == g.at(r) && writes.get() == 0, "c21.get");
    let same = g.at(r) == v;
    check(l.set(r, v) == if same { r } else { s.at(r, v) }, "c21.set");
    check(writes.get() == if same { 0 } else { 1 }, "c21.set_skips");
    writes.set(0);
    check(l.set_always(r, v) == s.at(r, v) && writes.get() == 1, "c21.set_always");
    writes.set(0);
    let nv = f.at(g.at(r));
    let same = nv == g.at(r);
    check(l.modify(r, |x| f.at(x)) == if same { r } else { s.at(r, nv) }, "c21.modify");
    check(writes.get() == if same { 0 } else { 1 }, "c21.modify_skips");
    writes.set(0);
    check(l.modify_always(r, |x| f.at(x)) == s.at(r, nv) && writes.get() == 1, "c21.modify_always");
});
harness!(h_c21_nested, {
    // a lens through a lens
    #[derive(Clone, Debug, PartialEq)]
    struct Outer {
        r: Rec,
        x: D,
    }
    let o = Outer { r: Rec::any(), x: d() };
    let lo = Lens::new(|o: &Outer| o.r.clone(), |o: Outer, r| Outer { r, ..o });
    let li = Lens::new(|r: &Rec| r.a, |r: Rec, a| Rec { a, ..r });
    let v = d();
    let f = Fun::any();
    let got = lo.modify(o.clone(), |r| li.set(r, v));
    check(got == Outer { r: Rec { a: v, ..o.r.clone() }, ..o.clone() }, "c21.nested_set");
    let got = lo.modify_always(o.clone(), |r| li.modify(r, |a| f.at(a)));
    check(got == Outer { r: Rec { a: f.at(o.r.a), ..o.r.clone() }, ..o.clone() }, "c21.nested_modify");
});

/// whole <-> (focus, rest)
#[derive(Clone)]
struct FieldB;
impl Iso<Rec, (D, Rec)> for FieldB {
    type From = Rec;
    type To = (D, Rec);
    fn forward(&self, r: &Rec) -> (D, Rec) {
        (r.b, r.clone())
    }
    fn backward(&self, t: &(D, Rec)) -> Rec {
        Rec { b: t.0, ..t.1.clone() }
    }
}
/// an arbitrary pair of tables
#[derive(Clone)]
struct Table(Fun, Fun);
impl Iso<D, D> for Table {
    type From = D;
    type To = D;
    fn forward(&self, x: &D) -> D {
        self.0.at(*x)
    }
    fn backward(&self, x: &D) -> D {
        self.1.at(*x)
    }
}
/// an arbitrary iso to a pair
#[derive(Clone)]
struct Pair(Fun, Fun, Fun2);
impl Iso<D, (D, D)> for Pair {
    type From = D;
    type To = (D, D);
    fn forward(&self, x: &D) -> (D, D) {
        (self.0.at(*x), self.1.at(*x))
    }
    fn backward(&self, t: &(D, D)) -> D {
        self.2.at(t.0, t.1)
    }
}
harness!(h_c21_iso, {
    let l = IsoLens::new(FieldB);
    let r = Rec::any();
    let v = d();
    let f = Fun::any();
    check(l.get(&r) == (r.b, r.clone()), "c21.iso_get");
    check(l.set(&(v, r.clone())) == Rec { b: v, ..r.clone() }, "c21.iso_set");
    check(l.set_focus(&r, &v) == Rec { b: v, ..r.clone() }, "c21.iso_set_focus");
    check(l.modify_focus(&r, |b| f.at(b)) == Rec { b: f.at(r.b), ..r.clone() }, "c21.iso_modify_focus");
    check(l.modify(&r, |(b, s)| (f.at(b), s)) == Rec { b: f.at(r.b), ..r.clone() }, "c21.iso_modify");
    let t = Table(Fun::any(), Fun::any());
    let l = IsoLens::new(t.clone());
    check(l.get(&v) == t.0.at(v) && l.set(&v) == t.1.at(v) && l.modify(&v, |x| f.at(x)) == t.1.at(f.at(t.0.at(v))), "c21.iso_table");
    check(l.iso_ref().forward(&v) == t.0.at(v), "c21.iso_ref");
    let p = Pair(Fun::any(), Fun::any(), Fun2::any());
    let c = l.compose(IsoLens::new(p.clone()));
    let mid = t.0.at(v);
    check(c.get(&v) == (p.0.at(mid), p.1.at(mid)), "c21.iso_compose_get");
    let (x, y) = (d(), d());
    check(c.set(&(x, y)) == t.1.at(p.2.at(x, y)), "c21.iso_compose_set");
    check(c.modify_focus(&v, |x| f.at(x)) == t.1.at(p.2.at(f.at(p.0.at(mid)), p.1.at(mid))), "c21.iso_compose_modify");
    check(c.set_focus(&v, &x) == t.1.at(p.2.at(x, v)), "c21.iso_compose_set_focus");
});
harness!(h_c21_once, {
    // each function given runs as often as its description says
    let (gets, sets, runs) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let (g, s, r) = (gets.clone(), sets.clone(), runs.clone());
    let l = Lens::new(
        move |t: &(D, D)| {
            g.set(g.get() + 1);
            t.1
        },
        move |t: (D, D), v| {
            s.set(s.get() + 1);
            (t.0, v)
        },
    );
    let t = (d(), d());
    let f = Fun::any();
    let count = move |v: D| {
        r.set(r.get() + 1);
        f.at(v)
    };
    check(l.modify_always(t, &count) == (t.0, f.at(t.1)), "c21.once");
    check(runs.get() == 1 && sets.get() == 1, "c21.once");
    check(l.modify(t, &count) == (t.0, f.at(t.1)), "c21.once");
    check(runs.get() == 2, "c21.once");
    let k = gets.get();
    check(l.get(&t) == t.1 && gets.get() == k + 1, "c21.once");
});
harness!(h_c21_mapped_twice, {
    // arbitrary changes of representation, one after the other, used on several structures
    let (a, b, c, e) = (Fun::any(), Fun::any(), Fun::any(), Fun::any());
    let l = Lens::new(|r: &Rec| r.c, |r: Rec, c| Rec { c, ..r });
    let m = l.fmap(move |x| a.at(x), move |x| b.at(x)).fmap(move |x| c.at(x), move |x| e.at(x));
    let f = Fun::any();
    let v = d();
    for _ in 0..2 {
        let r = Rec::any();
        let seen = c.at(a.at(r.c));
        check(m.get(&r) == seen, "c21.fmap_twice_get");
        check(m.set_always(r.clone(), v) == Rec { c: b.at(e.at(v)), ..r.clone() }, "c21.fmap_twice_set");
        check(m.modify_always(r.clone(), |x| f.at(x)) == Rec { c: b.at(e.at(f.at(seen))), ..r.clone() }, "c21.fmap_twice_modify");
    }
});
harness!(h_c21_iso_three, {
    // a chain of three, each beside the structure it came from
    #[derive(Clone)]
    struct Beside(Fun, Fun2);
    impl Iso<D, (D, D)> for Beside {
        type From = D;
        type To = (D, D);
        fn forward(&self, x: &D) -> (D, D) {
            (self.0.at(*x), *x)
        }
        fn backward(&self, t: &(D, D)) -> D {
            self.1.at(t.0, t.1)
        }
    }
    let (t, u, p) = (Table(Fun::any(), Fun::any()), Beside(Fun::any(), Fun2::any()), Fun::any());
    let c = IsoLens::new(t.clone()).compose(IsoLens::new(u.clone()));
    let f = Fun::any();
    for _ in 0..2 {
        let (v, x) = (d(), d());
        let mid = t.0.at(v);
        check(c.get(&v) == (u.0.at(mid), mid), "c21.iso_again_get");
        check(c.set(&(x, v)) == t.1.at(u.1.at(x, v)), "c21.iso_again_set");
        check(c.modify(&v, |(a, b)| (f.at(a), p.at(b))) == t.1.at(u.1.at(f.at(u.0.at(mid)), p.at(mid))), "c21.iso_again_modify");
        check(c.iso_ref().backward(&(x, v)) == t.1.at(u.1.at(x, v)) && c.iso_ref().forward(&v) == (u.0.at(mid), mid), "c21.iso_again_ref");
    }
});
