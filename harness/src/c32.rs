//! C32: printed forms: choices, persistent vectors and the error types print every part they hold,
//! in order, and nothing else.
//! bound: choices of 0..=4, 8, 9 and 17 texts of 0..=2 arbitrary letters, or of numbers of which the first three are any of {0, 7, 42, 1000}; vectors of 0..=5, 63, 64, 65 and 130 elements built in bulk, by pushes or by a cut; messages of 0..=3 arbitrary letters; indices and lengths in {0, 9, 10, 64, 2^64-1}
use crate::harness;
use crate::sx::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::io::IOError;
use rustica::datatypes::maybe::MaybeError;
use rustica::error::{ComposableError, ErrorContext};
use rustica::pvec::{PVecError, PersistentVector};
use rustica::utils::error_utils::{AppError, error, error_with_context};
use std::fmt::Display;

fn listed<T: Display>(v: &[T]) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push_str(if i == 1 { " | " } else { ", " });
        }
        s.push_str(&x.to_string());
    }
    s
}
fn choice<T: Clone + Display>(mk: impl Fn(usize) -> T) {
    let n = [0, 1, 2, 3, 4, 8, 9, 17][case(8)];
    let v: Vec<T> = (0..n).map(mk).collect();
    let c = if n > 0 && boolean() { Choice::new(v[0].clone(), v[1..].to_vec()) } else { v.iter().cloned().collect::<Choice<T>>() };
    check(c.to_string() == listed(&v), "c32.choice");
}
harness!(h_c32_choice_text__8, { choice(|i| text((i + 1) % 3)) });
harness!(h_c32_choice_number__8, { choice(|i| if i < 3 { [0u32, 7, 42, 1000][concrete(d() as usize)] } else { i as u32 }) });

/// The printed form of a vector that holds 0, 1, .. n-1: small ones list their elements.
fn vector(p: &PersistentVector<usize>, n: usize) {
    let s = format!("{:?}", p);
    let elements = format!("{:?}", (0..n).collect::<Vec<_>>());
    check(p.len() == n && s.starts_with("PersistentVector(") && s.ends_with(')'), "c32.vector");
    let len = format!("len={n}");
    let at = s.find(&len);
    check(at.is_some(), "c32.vector_len");
    check(!s[at.unwrap_or(0) + len.len()..].starts_with(|c: char| c.is_ascii_digit()), "c32.vector_len");
    check(!s.contains("elements=") || s.ends_with(&format!("elements={elements})")), "c32.vector_elements");
    check(n > 64 || s.contains("elements=") || s.contains("Tree"), "c32.vector_form");
}
harness!(h_c32_vector__10, {
    let n = [0usize, 1, 2, 3, 4, 5, 63, 64, 65, 130][case(10)];
    let p: PersistentVector<usize> = match case(4) {
        0 => (0..n).collect(),
        1 => (0..n).fold(PersistentVector::new(), |p, x| p.push_back(x)),
        2 => (0..n).rev().fold(PersistentVector::new(), |p, x| p.push_front(x)),
        _ => (0..n + 70).collect::<PersistentVector<usize>>().take(n),
    };
    vector(&p, n);
});
harness!(h_c32_errors__5, {
    let n = [0usize, 9, 10, 64, usize::MAX];
    let (i, j) = (n[case(5)], n[case(5)]);
    let e = PVecError::IndexOutOfBounds { index: i, len: j };
    check(e.to_string() == format!("Index {i} out of bounds for vector of length {j}"), "c32.index");
    let e = PVecError::InvalidRange { start: i, end: j };
    check(e.to_string() == format!("Invalid range: start {i} is greater than end {j}"), "c32.range");
});
harness!(h_c32_messages__4, {
    let m = text(case(4));
    check(IOError::Other(m.clone()).to_string() == format!("IO Error: {m}"), "c32.io");
    check(IOError::ValueNotSet.to_string() == "Value not set", "c32.io");
    check(MaybeError::Custom(m.clone()).to_string() == m, "c32.maybe");
    check(MaybeError::ValueNotPresent.to_string() == "Attempted to access a value in a Nothing", "c32.maybe");
    check(ErrorContext::new(m.clone()).to_string() == m, "c32.context");
    // an error inside an error
    let k = text(case(2));
    let e = ComposableError::new(IOError::Other(m.clone())).with_context(k.clone());
    check(e.to_string() == format!("{k} -> IO Error: {m}"), "c32.chain");
});
#[derive(Clone, PartialEq)]
struct Tag(u8);
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(["a", "bc", "", "d\"e"][concrete(self.0 as usize)])
    }
}
harness!(h_c32_app_error, {
    let (x, y) = (Tag(d()), Tag(d()));
    let e: AppError<Tag> = error(x.clone());
    check(e.to_string() == format!("{x:?}"), "c32.app");
    let e = error_with_context(x.clone(), y.clone());
    check(e.to_string() == format!("{x:?} (Context: {y:?})"), "c32.app_context");
});
