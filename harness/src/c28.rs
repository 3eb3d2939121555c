//! C28: the helper functions over options, results and lists give what their names say: mapping,
//! filtering, zipping, fanning out, chaining and folding use every input in order, chains stop at
//! the first failure, and composed helpers apply their functions in the stated order.
//! bound: collections of 0..=4 (filters with hints: 0..=10) elements, and 8, 9, 17, 40 with at most two fixed failures, chains of 0..=4 (partial) functions and of 8, 9, 17, 40 marking ones, all values in a four-value domain, functions and predicates arbitrary tables
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
use crate::harness;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::maybe::Maybe;
use rustica::traits::monoid::Monoid;
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::traits::semigroup::Semigroup;
use rustica::utils::categorical_utils as cu;
use rustica::utils::functions as fu;
use rustica::utils::hkt_utils as hu;
use rustica::utils::transform_utils::{Pipeline, transform_all, transform_chain};

#[derive(Clone, Copy)]
struct Part(Fun, Pred);
impl Part {
    fn any() -> Part {
        Part(Fun::any(), Pred::any())
    }
    fn opt(&self, x: D) -> Option<D> {
        if self.1.at(x) { Some(self.0.at(x)) } else { None }
    }
    fn res(&self, x: D) -> Result<D, D> {
        if self.1.at(x) { Ok(self.0.at(x)) } else { Err(self.0.at(x)) }
    }
}
fn parts(n: usize) -> Vec<Part> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(Part::any());
    }
    v
}
fn funs(n: usize) -> Vec<Fun> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(Fun::any());
    }
    v
}

harness!(h_c28_single, {
    let o = opt_d();
    let r = res_d();
    let (f, g) = (Fun::any(), Fun::any());
    let p = Part::any();
    check(cu::map_option(o, |x| (f.at(x), x)) == o.map(|x| (f.at(x), x)), "c28.map_option");
    check(cu::map_result(r, |x| (f.at(x), x)) == r.map(|x| (f.at(x), x)), "c28.map_result");
    check(hu::map_result(r, |x| (f.at(x), x)) == r.map(|x| (f.at(x), x)), "c28.map_result");
    let both = match r {
        Ok(x) => Ok((0u8, f.at(x))),
        Err(x) => Err((1u8, g.at(x))),
    };
    check(cu::bimap_result(r, |x| (0u8, f.at(x)), |x| (1u8, g.at(x))) == both, "c28.bimap_result");
    let fo = match o {
        Some(x) => p.opt(x),
        None => None,
    };
    check(cu::flat_map_option(o, |x| p.opt(x)) == fo, "c28.flat_map_option");
    let fr = match r {
        Ok(x) => p.res(x),
        Err(e) => Err(e),
    };
    check(cu::flat_map_result(r, |x| p.res(x)) == fr, "c28.flat_map_result");
    check(hu::lift_option(|x| f.at(x))(o) == o.map(|x| f.at(x)), "c28.lift_option");
    let x = d();
    let y = d();
    check(cu::compose(|x| f.at(x), |x| g.at(x))(x) == f.at(g.at(x)), "c28.compose");
    check(cu::pipe(|x| f.at(x), |x| g.at(x))(x) == g.at(f.at(x)), "c28.pipe");
    let t = Fun2::any();
    check(cu::flip(|a, b| t.at(a, b))(x, y) == t.at(y, x), "c28.flip");
    check(fu::id(x) == x, "c28.id");
    check(fu::const_fn(x)(y) == x, "c28.const_fn");
});

harness!(h_c28_lists__5, {
    let n = case(5);
    let xs = ds(n);
    let f = Fun::any();
    let q = Pred::any();
    let p = Part::any();
    let mut kept = vec![];
    let mut mapped = vec![];
    for x in &xs {
        if q.at(*x) {
            kept.push((f.at(*x), *x));
        }
        if let Some(y) = p.opt(*x) {
            mapped.push(y);
        }
    }
    check(hu::filter_map(xs.clone(), |x| q.at(*x), |x| (f.at(x), x)) == kept, "c28.filter_map");
    check(cu::filter_map_collect(xs.clone(), |x| p.opt(x)) == mapped, "c28.filter_map_collect");
    // each function once for each of its inputs, in order
    let (t, u) = (Trace::default(), Trace::default());
    let _ = hu::filter_map(xs.clone(), |x| q.at(t.see(*x)), |x| u.see(x));
    check(t.take() == xs && u.take() == kept.iter().map(|k| k.1).collect::<Vec<D>>(), "c28.filter_map_once");
    let _ = cu::filter_map_collect(xs.clone(), |x| p.opt(t.see(x)));
    check(t.take() == xs, "c28.filter_map_collect_once");
    let _ = hu::fan_out(7, xs.iter().map(|x| { let (x, t) = (*x, t.clone()); move |_: D| t.see(x) }).collect());
    check(t.take() == xs, "c28.fan_out_once");
    let _ = hu::zip_with(xs.clone(), xs.clone(), |x, _| t.see(x));
    check(t.take() == xs, "c28.zip_with_once");
    let opts: Vec<Option<D>> = xs.iter().map(|x| p.opt(*x)).collect();
    let ress: Vec<Result<D, D>> = xs.iter().map(|x| p.res(*x)).collect();
    check(cu::sequence_options(opts) == if mapped.len() == n { Some(mapped.clone()) } else { None }, "c28.sequence_options");
    let mut want = Ok(vec![]);
    for r in &ress {
        match (r, &mut want) {
            (Ok(x), Ok(v)) => v.push(*x),
            (Err(e), Ok(_)) => want = Err(*e),
            _ => {}
        }
    }
    check(cu::sequence_results(ress) == want, "c28.sequence_results");
});

harness!(h_c28_zip__16, {
    let c = case(16);
    let (xs, ys) = (ds(c / 4), ds(c % 4));
    let mut want = vec![];
    for i in 0..xs.len().min(ys.len()) {
        want.push((xs[i], ys[i]));
    }
    check(hu::zip_with(xs, ys, |x, y| (x, y)) == want, "c28.zip_with");
});

harness!(h_c28_hints__4, {
    // more kept elements than the initial capacity estimate
    let n = 7 + case(4);
    let xs = ds(n);
    let skip = case(n);
    let mut kept = vec![];
    for (i, x) in xs.iter().enumerate() {
        if i != skip {
            kept.push(*x);
        }
    }
    let it = hinted(xs.iter().copied().enumerate().collect(), case(5));
    check(hu::filter_map(it.clone(), |t| t.0 != skip, |t| t.1) == kept, "c28.filter_map_many");
    check(cu::filter_map_collect(it, |t| if t.0 != skip { Some(t.1) } else { None }) == kept, "c28.filter_map_collect_many");
});

harness!(h_c28_chains__5, {
    let n = case(5);
    let ps = parts(n);
    let x = d();
    let mut o = Some(x);
    let mut r = Ok(x);
    for p in &ps {
        o = o.and_then(|x| p.opt(x));
        r = r.and_then(|x| p.res(x));
    }
    let fo: Vec<_> = ps.iter().map(|p| { let p = *p; move |x: D| p.opt(x) }).collect();
    check(hu::pipeline_option(x, fo) == o, "c28.pipeline_option");
    let fr: Vec<_> = ps.iter().map(|p| { let p = *p; move |x: D| p.res(x) }).collect();
    check(hu::pipeline_result(x, fr.clone()) == r, "c28.pipeline_result");
    check(hu::try_pipeline(x, fr) == r, "c28.try_pipeline");
    // nothing runs after a failure
    let mut seen = vec![];
    let mut y = Some(x);
    for p in &ps {
        if let Some(v) = y {
            seen.push(v);
            y = p.opt(v);
        }
    }
    let t = Trace::default();
    let fo: Vec<_> = ps.iter().map(|p| { let (p, t) = (*p, t.clone()); move |x: D| p.opt(t.see(x)) }).collect();
    let _ = hu::pipeline_option(x, fo);
    check(t.take() == seen, "c28.pipeline_option_stops");
    // steps made on demand are not asked for after a failure
    let _ = hu::pipeline_option::<D, D, _, _>(x, ps.iter().map(|p| { let p = *p; t.see(0); move |x: D| p.opt(x) }));
    check(t.take().len() == seen.len(), "c28.pipeline_option_pulls");
    let fr: Vec<_> = ps.iter().map(|p| { let (p, t) = (*p, t.clone()); move |x: D| p.res(t.see(x)) }).collect();
    let _ = hu::pipeline_result(x, fr.clone());
    check(t.take() == seen, "c28.pipeline_result_stops");
    let _ = hu::try_pipeline(x, fr);
    check(t.take() == seen, "c28.try_pipeline_stops");
});

harness!(h_c28_functions__5, {
    let n = case(5);
    let fs = funs(n);
    let x = d();
    let mut all = vec![];
    let mut y = x;
    for f in &fs {
        all.push(f.at(x));
        y = f.at(y);
    }
    let v: Vec<_> = fs.iter().map(|f| { let f = *f; move |x: D| f.at(x) }).collect();
    check(hu::fan_out(x, v) == all, "c28.fan_out");
    let b: Vec<Box<dyn Fn(D) -> D>> = fs.iter().map(|f| { let f = *f; Box::new(move |x: D| f.at(x)) as Box<dyn Fn(D) -> D> }).collect();
    let c = hu::compose_all::<D, D>(b);
    check(c(x) == y, "c28.compose_all");
    let z = d();
    let mut y = z;
    for f in &fs {
        y = f.at(y);
    }
    check(c(z) == y, "c28.compose_all");
});

#[derive(Clone, PartialEq)]
struct Word(Vec<D>);
impl From<D> for Word {
    fn from(x: D) -> Word {
        Word(vec![x])
    }
}
impl Semigroup for Word {
    fn combine(&self, o: &Self) -> Self {
        let mut v = self.0.clone();
        v.extend_from_slice(&o.0);
        Word(v)
    }
    fn combine_owned(self, o: Self) -> Self {
        self.combine(&o)
    }
}
impl Monoid for Word {
    fn empty() -> Self {
        Word(vec![])
    }
}

harness!(h_c28_fold__6, {
    let xs = ds(case(6));
    check(cu::fold_with::<_, D, Word>(hinted(xs.clone(), case(5))).0 == xs, "c28.fold_with");
});

harness!(h_c28_transform__4, {
    let n = case(4);
    let f = Fun::any();
    let mut os = vec![];
    for _ in 0..n {
        os.push(opt_d());
    }
    let want: Vec<Option<D>> = os.iter().map(|o| o.map(|x| f.at(x))).collect();
    check(transform_all(&os, |x: &D| f.at(*x)) == want, "c28.transform_all");
    let ms: Vec<Maybe<D>> = os.iter().map(|o| Maybe::from_option(*o)).collect();
    let got = transform_all(&ms, |x: &D| f.at(*x));
    check(got.iter().map(|m| m.clone().to_option()).collect::<Vec<_>>() == want, "c28.transform_all");
    let v = if n == 0 { None } else { Some(ds(n - 1)) };
    check(transform_chain(v.clone(), |x: &D| f.at(*x)) == v.clone().map(|v| v.iter().map(|x| f.at(*x)).collect::<Vec<_>>()), "c28.transform_chain");
    let g = Fun::any();
    let xs = ds(n);
    let fg: Vec<D> = xs.iter().map(|x| g.at(f.at(*x))).collect();
    check(Pipeline::new(xs.clone()).map(|x| f.at(*x)).map(|x| g.at(*x)).extract() == fg, "c28.pipeline");
    check(Pipeline::new(xs.clone()).map_owned(|x| f.at(x)).map_owned(|x| g.at(x)).extract() == fg, "c28.pipeline_owned");
    check(Pipeline::new(xs.clone()).map(|x| f.at(*x)).map_owned(|x| g.at(x)).into_iter().collect::<Vec<D>>() == fg, "c28.pipeline_iter");
    let c: Choice<D> = xs.iter().copied().collect();
    check(Pipeline::new(c).map(|x| f.at(*x)).map_owned(|x| g.at(x)).extract().iter().copied().collect::<Vec<D>>() == fg, "c28.pipeline");
});

harness!(h_c28_nat__4, {
    let xs = ds(case(4));
    let o = opt_d();
    check(identity_nat::<Vec<D>>().transform(&xs) == xs, "c28.identity_nat");
    check(identity_nat::<Vec<D>>().transform_owned(xs.clone()) == xs, "c28.identity_nat");
    check(identity_nat::<Option<D>>().transform(&o) == o, "c28.identity_nat");
});

// longer inputs
harness!(h_c28_long__4, {
    let n = [8, 9, 17, 40][case(4)];
    let (xs, ys) = (ds(n), ds(n - 1));
    let k = case(5);
    let zip: Vec<(D, D)> = xs.iter().copied().zip(ys.iter().copied()).collect();
    check(hu::zip_with(xs.clone(), ys.clone(), |x, y| (x, y)) == zip, "c28.zip_with");
    check(hu::zip_with(ys.clone(), xs.clone(), |x, y| (y, x)) == zip, "c28.zip_with");
    check(cu::fold_with::<_, D, Word>(hinted(xs.clone(), k)).0 == xs, "c28.fold_with");
    check(cu::sequence_options(xs.iter().map(|x| Some(*x)).collect()) == Some(xs.clone()), "c28.sequence_options");
    check(cu::sequence_results(xs.iter().map(|x| Ok::<D, D>(*x)).collect()) == Ok(xs.clone()), "c28.sequence_results");
    // two failures at fixed places
    let (i, j) = [(0, n - 1), (7, n - 1), (n - 1, n - 1)][case(3)];
    let some: Vec<Option<D>> = xs.iter().enumerate().map(|(k, x)| if k == i || k == j { None } else { Some(*x) }).collect();
    let ok: Vec<Result<D, D>> = xs.iter().enumerate().map(|(k, x)| if k == i || k == j { Err(*x) } else { Ok(*x) }).collect();
    check(cu::sequence_options(some).is_none(), "c28.sequence_options");
    check(cu::sequence_results(ok) == Err(xs[i]), "c28.sequence_results");
    // functions leaving marks
    let fs: Vec<_> = xs.iter().map(|m| { let m = *m; move |mut v: Vec<D>| { v.push(m); v } }).collect();
    check(hu::fan_out(vec![], fs.clone()) == xs.iter().map(|x| vec![*x]).collect::<Vec<_>>(), "c28.fan_out");
    let b: Vec<Box<dyn Fn(Vec<D>) -> Vec<D>>> = fs.iter().cloned().map(|f| Box::new(f) as Box<dyn Fn(Vec<D>) -> Vec<D>>).collect();
    check(hu::compose_all::<Vec<D>, Vec<D>>(b)(vec![]) == xs, "c28.compose_all");
    let fo: Vec<_> = fs.iter().cloned().map(|f| move |v: Vec<D>| Some(f(v))).collect();
    check(hu::pipeline_option(vec![], hinted(fo, k)) == Some(xs.clone()), "c28.pipeline_option");
    let fr: Vec<_> = fs.iter().cloned().map(|f| move |v: Vec<D>| Ok::<Vec<D>, D>(f(v))).collect();
    check(hu::pipeline_result(vec![], fr.clone()) == Ok(xs.clone()), "c28.pipeline_result");
    check(hu::try_pipeline(vec![], fr) == Ok(xs.clone()), "c28.try_pipeline");
    // stopping late
    let fr: Vec<_> = fs.iter().cloned().enumerate().map(|(k, f)| move |v: Vec<D>| if k == i || k == j { Err(v) } else { Ok(f(v)) }).collect();
    check(hu::pipeline_result(vec![], fr.clone()) == Err(xs[..i].to_vec()), "c28.pipeline_result");
    check(hu::try_pipeline(vec![], fr) == Err(xs[..i].to_vec()), "c28.try_pipeline");
    let f = Fun::any();
    let os: Vec<Option<D>> = xs.iter().map(|x| Some(*x)).collect();
    check(transform_all(&os, |x: &D| f.at(*x)) == xs.iter().map(|x| Some(f.at(*x))).collect::<Vec<_>>(), "c28.transform_all");
    check(hu::filter_map(xs.clone(), |_| true, |x| f.at(x)) == xs.iter().map(|x| f.at(*x)).collect::<Vec<_>>(), "c28.filter_map");
});
