//! C26: contexts added to an error show newest first, nothing is lost or reordered by mapping or
//! coding it, and its chain text names them all; an error pipeline runs exactly the steps that
//! apply and an error leaves it with the contexts added to that error; lazy contexts are made
//! only when there is an error.
//! bound: 0..=6, 8, 9, 12, 17 and 40 contexts of 0..=2 letters each (inline storage holds 4); codes 0..=3, 10, 404 and the largest; pipelines of up to 4 (thorough 5) steps of every kind, values and errors in a four-value domain, functions arbitrary (partial) tables
//! bound: iterators given as input report an exact size, none, only a lower bound, only an upper bound, or two inexact bounds
use crate::harness;
use crate::sx::*;
use rustica::error::*;
use std::cell::Cell;
use std::rc::Rc;

fn code() -> Option<u32> {
    match case(5) {
        0 => None,
        1 => Some(d() as u32),
        2 => Some(10),
        3 => Some(404),
        _ => Some(u32::MAX),
    }
}
fn digits(n: u32) -> String {
    if n < 10 {
        return ((b'0' + n as u8) as char).to_string();
    }
    let mut s = digits(n / 10);
    s.push((b'0' + (n % 10) as u8) as char);
    s
}
fn chain(ctx: &[String], core: &str, code: Option<u32>) -> String {
    let mut s = String::new();
    for c in ctx.iter().rev() {
        s.push_str(c);
        s.push_str(" -> ");
    }
    s.push_str(core);
    if let Some(n) = code {
        s.push_str(" (code: ");
        s.push_str(&digits(n));
        s.push(')');
    }
    s
}
fn words(n: usize) -> Vec<String> {
    let mut v = vec![];
    for i in 0..n {
        v.push(text((i + 1) % 3));
    }
    v
}
fn newest(ctx: &[String]) -> Vec<String> {
    ctx.iter().rev().cloned().collect()
}
fn same<E: PartialEq>(e: &ComposableError<E>, core: &E, ctx: &[String], code: Option<u32>, id: &'static str) {
    check(e.core_error() == core && e.core_error == *core, id);
    check(e.context() == newest(ctx), id);
    check(e.context_iter().cloned().collect::<Vec<_>>() == newest(ctx), id);
    check(extract_context(e) == newest(ctx), id);
    check(e.error_code() == code && e.error_code == code, id);
}

harness!(h_c26_context__7, {
    let n = case(7);
    let w = words(n);
    let x = d();
    let c = code();
    // one by one, as different kinds of context
    let mut e = match c {
        None => ComposableError::new(x),
        Some(k) if boolean() => ComposableError::with_code(x, k),
        Some(k) => ComposableError::new(x).set_code(k),
    };
    for (i, m) in w.iter().enumerate() {
        e = match i % 4 {
            0 => e.with_context(m.clone()),
            1 => e.with_context(m.as_str()),
            2 => e.with_context(ErrorContext::new(m.clone())),
            _ => {
                let m = m.clone();
                e.with_context(LazyContext::new(move || m))
            }
        };
    }
    same(&e, &x, &w, c, "c26.with_context");
    // all at once
    let mut g = ComposableError::new(x).with_contexts(w.clone());
    if let Some(k) = c {
        g = g.set_code(k);
    }
    same(&g, &x, &w, c, "c26.with_contexts");
    check(g == e, "c26.eq");
    let f = Fun::any();
    let h = e.clone().map_core(|x| (f.at(x), x));
    same(&h, &(f.at(x), x), &w, c, "c26.map_core");
    let k2 = d() as u32;
    same(&e.clone().set_code(k2), &x, &w, Some(k2), "c26.set_code");
    same(&e, &x, &w, c, "c26.clone");
});

harness!(h_c26_chain__7, {
    let n = case(7);
    let w = words(n);
    let core = text(case(3));
    let c = code();
    let mut e = ComposableError::new(core.clone()).with_contexts(w.clone());
    if let Some(k) = c {
        e = e.set_code(k);
    }
    let s = chain(&w, &core, c);
    check(e.error_chain() == s, "c26.error_chain");
    check(format!("{}", e) == s, "c26.display");
    check(format_error_chain(&e) == s, "c26.format_error_chain");
});

harness!(h_c26_build__6, {
    let n = case(6);
    let w = words(n);
    let x = d();
    same(&accumulate_context(x, w.clone()), &x, &w, None, "c26.accumulate_context");
    let acc = context_accumulator(w.clone());
    same(&acc(x), &x, &w, None, "c26.context_accumulator");
    let y = d();
    same(&acc(y), &y, &w, None, "c26.context_accumulator");
    let m = text(2);
    same(&with_context(x, m.clone()), &x, &[m.clone()], None, "c26.free_with_context");
    let cf = context_fn(m.clone());
    same(&cf(x), &x, &[m.clone()], None, "c26.context_fn");
    same(&cf(y), &y, &[m.clone()], None, "c26.context_fn");
    let from: ComposableError<D> = x.into();
    same(&from, &x, &[], None, "c26.from");
    let ec = ErrorContext::new(m.as_str());
    check(ec.message() == m && format!("{}", ec) == m, "c26.error_context");
    check(ec.clone().into_error_context() == ec, "c26.error_context");
    check(m.clone().into_error_context() == ec && m.as_str().into_error_context() == ec, "c26.error_context");
    let z = text(1);
    let mz = m.clone();
    let zz = z.clone();
    let l = rustica::context!("{}: {}!", mz, zz);
    let mut t = m.clone();
    t.push_str(": ");
    t.push_str(&z);
    t.push('!');
    check(l.into_error_context().message() == t, "c26.macro");
    // contexts of results
    let r = res_d();
    match (with_context_result(r, m.clone()), r) {
        (Ok(v), Ok(u)) => check(u == v, "c26.with_context_result"),
        (Err(e), Err(u)) => same(&*e, &u, &[m.clone()], None, "c26.with_context_result"),
        _ => check(false, "c26.with_context_result"),
    }
});

/// A partial table: Ok(value) or Err(error) at every point.
#[derive(Clone, Copy)]
struct Part(Fun, Pred);
impl Part {
    fn any() -> Part {
        Part(Fun::any(), Pred::any())
    }
    fn at(&self, x: D) -> Result<D, D> {
        if self.1.at(x) { Ok(self.0.at(x)) } else { Err(self.0.at(x)) }
    }
}

fn pipeline(steps: usize) {
    let r0 = res_d();
    let mut p = if boolean() { error_pipeline(r0) } else { ErrorPipeline::new(r0) };
    let mut r = r0;
    let mut ctx: Vec<String> = vec![];
    for i in 0..steps {
        match case(6) {
            0 => {
                let m = text(1 + i % 2);
                p = p.with_context(m.clone());
                if r.is_err() {
                    ctx.push(m);
                }
            }
            1 => {
                let m = text(1);
                let made = Rc::new(Cell::new(0u32));
                let (mm, k) = (m.clone(), made.clone());
                p = p.with_context(LazyContext::new(move || {
                    k.set(k.get() + 1);
                    mm
                }));
                check(made.get() == r.is_err() as u32, "c26.lazy");
                if r.is_err() {
                    ctx.push(m);
                }
            }
            2 => {
                let f = Fun::any();
                p = p.map_error(|e| f.at(e));
                r = r.map_err(|e| f.at(e));
            }
            3 => {
                let g = Part::any();
                p = p.recover(|e| g.at(e));
                if let Err(e) = r {
                    r = g.at(e);
                    if r.is_ok() {
                        ctx.clear();
                    }
                }
            }
            4 => {
                let g = Part::any();
                p = p.and_then(|x| g.at(x));
                if let Ok(x) = r {
                    r = g.at(x);
                }
            }
            _ => {
                let f = Fun::any();
                p = p.map(|x| f.at(x));
                r = r.map(|x| f.at(x));
            }
        }
    }
    if boolean() {
        match (p.finish(), r) {
            (Ok(x), Ok(y)) => check(x == y, "c26.pipeline"),
            (Err(e), Err(y)) => same(&*e, &y, &ctx, None, "c26.pipeline"),
            _ => check(false, "c26.pipeline"),
        }
    } else {
        match (p.finish_without_box(), r) {
            (Ok(x), Ok(y)) => check(x == y, "c26.pipeline_unboxed"),
            (Err(e), Err(y)) => same(&e, &y, &ctx, None, "c26.pipeline_unboxed"),
            _ => check(false, "c26.pipeline_unboxed"),
        }
    }
}
harness!(h_c26_pipeline__6, {
    pipeline(4);
});
harness!(ht_c26_pipeline5__6, {
    pipeline(5);
});
harness!(h_c26_many__4, {
    // more contexts than the pipeline keeps inline
    let n = 3 + case(4);
    let w = words(n);
    let x = d();
    let mut p: ErrorPipeline<D, D> = error_pipeline(Err(x));
    for m in &w {
        p = p.with_context(m.as_str());
    }
    match p.finish() {
        Err(e) => same(&*e, &x, &w, None, "c26.pipeline_many"),
        Ok(_) => check(false, "c26.pipeline_many"),
    }
});
harness!(h_c26_long__5, {
    let n = [8, 9, 12, 17, 40][case(5)];
    let w = words(n);
    let k = case(5);
    let h = |w: &[String]| hinted(w.to_vec(), k);
    let x = d();
    let mut e = ComposableError::new(x);
    for m in &w {
        e = e.with_context(m.clone());
    }
    same(&e, &x, &w, None, "c26.with_context");
    let f = Fun::any();
    same(&e.clone().map_core(|x| f.at(x)), &f.at(x), &w, None, "c26.map_core");
    same(&ComposableError::new(x).with_contexts(h(&w)), &x, &w, None, "c26.with_contexts");
    same(&accumulate_context(x, h(&w)), &x, &w, None, "c26.accumulate_context");
    same(&context_accumulator(h(&w))(x), &x, &w, None, "c26.context_accumulator");
    // added to an error that has some
    let more = words(5);
    let all = [w.clone(), more.clone()].concat();
    same(&e.clone().with_contexts(h(&more)), &x, &all, None, "c26.with_contexts");
    check(e.map_core(|_| "!".to_string()).error_chain() == chain(&w, "!", None), "c26.error_chain");
    let mut p: ErrorPipeline<D, D> = error_pipeline(Err(x));
    for m in &w {
        p = p.with_context(m.as_str());
    }
    let g = Fun::any();
    match p.map_error(|e| g.at(e)).map(|x| x).and_then(Ok).finish_without_box() {
        Err(e) => same(&e, &g.at(x), &w, None, "c26.pipeline_many"),
        Ok(_) => check(false, "c26.pipeline_many"),
    }
});
