//! The harness-side interface of the symbolic executor.
//!
//! Built for checking, these are external symbols the executor interprets.  Built with
//! `--cfg sx_replay` they read the inputs of one counterexample from the file named by
//! SX_INPUTS, so that the very same harness runs natively against the real code.
#![allow(dead_code)]

#[cfg(not(sx_replay))]
mod raw {
    unsafe extern "C" {
        pub fn sx_bits(w: u32) -> u64;
        pub fn sx_case(n: u64) -> u64;
        pub fn sx_concrete(x: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, p: *const u8, l: usize);
        pub fn sx_cover(p: *const u8, l: usize);
        pub fn sx_spawn(f: *const (), data: *mut u8, preemptions: u32);
        pub fn sx_join();
    }
}
#[cfg(sx_replay)]
mod raw {
    use std::sync::Mutex;
    static INPUTS: Mutex<Option<(Vec<u64>, usize)>> = Mutex::new(None);
    fn next() -> u64 {
        let mut g = INPUTS.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.get_or_insert_with(|| {
            let p = std::env::var("SX_INPUTS").expect("SX_INPUTS");
            let t = std::fs::read_to_string(p).expect("inputs");
            (t.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect(), 0)
        });
        let v = s.0.get(s.1).copied().unwrap_or(0);
        s.1 += 1;
        v
    }
    pub unsafe fn sx_bits(w: u32) -> u64 {
        let v = next();
        if w >= 64 { v } else { v & ((1u64 << w) - 1) }
    }
    pub unsafe fn sx_case(_n: u64) -> u64 {
        next()
    }
    pub unsafe fn sx_concrete(x: u64) -> u64 {
        x
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            eprintln!("SX-ASSUME-FAILED");
            std::process::exit(77);
        }
    }
    static CHECKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub unsafe fn sx_check(c: bool, p: *const u8, l: usize) {
        CHECKS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if !c {
            let s = unsafe { std::slice::from_raw_parts(p, l) };
            eprintln!("SX-CHECK-FAILED {}", String::from_utf8_lossy(s));
        }
    }
    pub unsafe fn sx_cover(p: *const u8, l: usize) {
        let s = unsafe { std::slice::from_raw_parts(p, l) };
        if s.starts_with(b"end ") {
            eprintln!("SX-DONE {}", CHECKS.load(std::sync::atomic::Ordering::SeqCst));
        }
    }
}

/// A fresh unconstrained `w`-bit value.
#[inline(always)]
pub fn bits(w: u32) -> u64 {
    unsafe { raw::sx_bits(w) }
}
#[inline(always)]
pub fn byte() -> u8 {
    bits(8) as u8
}
#[inline(always)]
pub fn boolean() -> bool {
    bits(1) == 1
}
/// A structural choice in `0..n`, enumerated by the executor (one branch per value).
#[inline(always)]
pub fn case(n: usize) -> usize {
    unsafe { raw::sx_case(n as u64) as usize }
}
/// A symbolic value in `0..n`.
#[inline(always)]
pub fn below(n: u64) -> u64 {
    let w = 64 - (n.max(2) - 1).leading_zeros();
    let x = bits(w);
    assume(x < n);
    x
}
/// Enumerate the feasible values of `x`.
#[inline(always)]
pub fn concrete(x: usize) -> usize {
    unsafe { raw::sx_concrete(x as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: &'static str) {
    unsafe { raw::sx_check(c, id.as_ptr(), id.len()) }
}
#[inline(always)]
pub fn cover(id: &'static str) {
    unsafe { raw::sx_cover(id.as_ptr(), id.len()) }
}

/// Runs the closures side by side, in every interleaving (sequentially consistent, at most
/// `preemptions` involuntary switches, at atomic accesses) of their locks and atomics.
/// Natively: in threads of their own, started together.
pub fn threads(preemptions: u32, fs: Vec<Box<dyn FnOnce() + Send>>) {
    #[cfg(not(sx_replay))]
    {
        extern "C" fn start(p: *mut u8) {
            let f: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
            f()
        }
        for f in fs {
            unsafe { raw::sx_spawn(start as *const (), Box::into_raw(Box::new(f)) as *mut u8, preemptions) };
        }
        unsafe { raw::sx_join() };
    }
    #[cfg(sx_replay)]
    {
        let _ = preemptions;
        let b = std::sync::Arc::new(std::sync::Barrier::new(fs.len()));
        let hs: Vec<_> = fs
            .into_iter()
            .map(|f| {
                let b = b.clone();
                std::thread::spawn(move || {
                    b.wait();
                    f()
                })
            })
            .collect();
        for h in hs {
            h.join().expect("thread");
        }
    }
}
/// Natively, gives the other threads time to get somewhere.
pub fn linger() {
    #[cfg(sx_replay)]
    std::thread::sleep(std::time::Duration::from_millis(3));
}

/// Declares a harness entry; `end` is its reachability witness.
#[macro_export]
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[unsafe(no_mangle)]
        pub extern "C" fn $name() {
            $body
            $crate::sx::cover(concat!("end ", stringify!($name)));
        }
    };
}

/// A value domain of four elements, `D`, and every function over it as a symbolic table.
pub type D = u8;
pub fn d() -> D {
    bits(2) as u8
}
/// An arbitrary function D -> D.
#[derive(Clone, Copy)]
pub struct Fun(pub [u8; 4]);
impl Fun {
    #[inline(always)]
    pub fn any() -> Fun {
        Fun([d(), d(), d(), d()])
    }
    #[inline(always)]
    pub fn at(&self, x: D) -> D {
        self.0[(x & 3) as usize]
    }
}
/// An arbitrary function D x D -> D.
#[derive(Clone, Copy)]
pub struct Fun2(pub [u8; 16]);
impl Fun2 {
    #[inline(always)]
    pub fn any() -> Fun2 {
        let mut t = [0u8; 16];
        let mut i = 0;
        while i < 16 {
            t[i] = d();
            i += 1;
        }
        Fun2(t)
    }
    #[inline(always)]
    pub fn at(&self, x: D, y: D) -> D {
        self.0[((x & 3) * 4 + (y & 3)) as usize]
    }
}
/// An arbitrary predicate over D.
#[derive(Clone, Copy)]
pub struct Pred(pub [u8; 4]);
impl Pred {
    #[inline(always)]
    pub fn any() -> Pred {
        Pred([bits(1) as u8, bits(1) as u8, bits(1) as u8, bits(1) as u8])
    }
    #[inline(always)]
    pub fn at(&self, x: D) -> bool {
        self.0[(x & 3) as usize] == 1
    }
}

/// A short string of `n` letters 'a'..='d', each symbolic.
pub fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push((b'a' + d()) as char);
    }
    s
}
/// `n` symbolic elements of D.
pub fn ds(n: usize) -> Vec<D> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(d());
    }
    v
}
pub fn opt_d() -> Option<D> {
    if boolean() { Some(d()) } else { None }
}
pub fn res_d() -> Result<D, D> {
    if boolean() { Ok(d()) } else { Err(d()) }
}
/// Whether `f` panics.
pub fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// A value whose order and equality look at the key only, so that a choice between equal
/// values shows in the payload.
#[derive(Clone, Copy, Debug, Default)]
pub struct Keyed(pub u8, pub u8);
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Keyed {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
/// `n` of them with few fixed keys in no order and arbitrary payloads.
pub fn keyed(n: usize) -> Vec<Keyed> {
    (0..n).map(|i| Keyed((i * 7 % 5) as u8, d())).collect()
}
/// The same, sorted by key with equal ones in their order.
pub fn keyed_sorted(v: &[Keyed]) -> Vec<(u8, u8)> {
    (0..5).flat_map(|k| v.iter().filter(move |x| x.0 == k).map(|x| (x.0, x.1))).collect()
}
/// An iterator over `v` whose size hint is legal but says more or less, by `kind` (0..5):
/// exact, nothing, only a lower bound, only an upper bound, both inexact.
pub struct Hinted<T>(std::vec::IntoIter<T>, usize);
impl<T: Clone> Clone for Hinted<T> {
    fn clone(&self) -> Self {
        Hinted(self.0.clone(), self.1)
    }
}
pub fn hinted<T>(v: Vec<T>, kind: usize) -> Hinted<T> {
    Hinted(v.into_iter(), kind)
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (0, Some(n + 3)),
            _ => (n / 2, Some(2 * n + 1)),
        }
    }
}
/// Records the values a function is called with, in order.
#[derive(Clone, Default)]
pub struct Trace(std::sync::Arc<std::sync::Mutex<Vec<D>>>);
impl Trace {
    pub fn see(&self, x: D) -> D {
        self.0.lock().unwrap().push(x);
        x
    }
    /// what was seen since the last time
    pub fn take(&self) -> Vec<D> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}
