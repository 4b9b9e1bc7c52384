//! Nondeterministic inputs. Under the feature `sym` every value comes from the symbolic executor
//! (`vx_u8()` is *any* byte); otherwise from a list of recorded values, which is how `replay` runs
//! a model or a counterexample of the solver against the natively compiled code.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn vx_u8() -> u8;
        fn vx_u16() -> u16;
        fn vx_u32() -> u32;
        fn vx_u64() -> u64;
        fn vx_choose(n: u64) -> u64;
        fn vx_fork(x: u64) -> u64;
        fn vx_assume(b: bool);
        fn vx_check(b: bool, line: u32);
        fn vx_cover(n: u32);
        fn vx_obs(x: u64);
    }
    #[inline(always)]
    pub fn u8() -> u8 {
        unsafe { vx_u8() }
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        unsafe { vx_u16() }
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        unsafe { vx_u32() }
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        unsafe { vx_u64() }
    }
    #[inline(always)]
    pub fn choose(n: usize) -> usize {
        unsafe { vx_choose(n as u64) as usize }
    }
    /// `x`, with one path per value it can have
    #[inline(always)]
    pub fn fork(x: usize) -> usize {
        unsafe { vx_fork(x as u64) as usize }
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        unsafe { vx_assume(b) }
    }
    #[inline(always)]
    pub fn check(b: bool, line: u32) {
        unsafe { vx_check(b, line) }
    }
    #[inline(always)]
    pub fn cover(n: u32) {
        unsafe { vx_cover(n) }
    }
    #[inline(always)]
    pub fn obs(x: u64) {
        unsafe { vx_obs(x) }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static Q: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
        pub static O: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    }
    fn pop() -> u64 {
        Q.with(|q| q.borrow_mut().pop_front()).unwrap_or(0)
    }
    pub fn u8() -> u8 {
        pop() as u8
    }
    pub fn u16() -> u16 {
        pop() as u16
    }
    pub fn u32() -> u32 {
        pop() as u32
    }
    pub fn u64() -> u64 {
        pop()
    }
    pub fn choose(n: usize) -> usize {
        let x = pop() as usize;
        if x >= n {
            std::panic::panic_any("ASSUME".to_string());
        }
        x
    }
    pub fn fork(x: usize) -> usize {
        x
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any("ASSUME".to_string());
        }
    }
    #[track_caller]
    pub fn check(b: bool, line: u32) {
        if !b {
            panic!("CHECK failed at line {}", line);
        }
    }
    pub fn cover(_: u32) {}
    pub fn obs(x: u64) {
        O.with(|o| o.borrow_mut().push(x));
    }
    pub fn start(v: &[u64]) {
        Q.with(|q| *q.borrow_mut() = v.iter().copied().collect());
        O.with(|o| o.borrow_mut().clear());
    }
    pub fn observed() -> Vec<u64> {
        O.with(|o| o.borrow().clone())
    }
}
pub use imp::*;

/// Obligation: the solver has to show that the condition holds for every value on this path.
#[macro_export]
macro_rules! chk {
    ($e:expr) => {
        $crate::nd::check($e, line!())
    };
}
/// An obligation known to fail (see known_findings.json); anything else that fails is reported.
#[macro_export]
macro_rules! known {
    ($e:expr) => {
        $crate::nd::check($e, 900_000 + line!())
    };
}
/// The check is vacuous unless some path reaches this point.
#[macro_export]
macro_rules! cov {
    ($n:expr) => {
        $crate::nd::cover($n)
    };
}

pub struct H {
    pub name: &'static str,
    pub f: fn(),
    /// `cov!(0) .. cov!(covers - 1)` all have to be reached
    pub covers: u32,
    pub doc: &'static str,
}

#[macro_export]
macro_rules! harnesses {
    ($( #[doc = $d:literal] fn $name:ident [$covers:literal] $body:block )*) => {
        $(
            #[cfg(feature = "sym")]
            #[no_mangle]
            pub extern "C" fn $name() { $body }
            #[cfg(not(feature = "sym"))]
            pub fn $name() { $body }
        )*
        #[cfg(not(feature = "sym"))]
        pub const TABLE: &[$crate::nd::H] = &[
            $( $crate::nd::H { name: stringify!($name), f: $name, covers: $covers, doc: $d } ),*
        ];
    };
}

/// Quick bound / thorough bound.
pub const fn q(quick: usize, thorough: usize) -> usize {
    if cfg!(feature = "thorough") {
        thorough
    } else {
        quick
    }
}

/// Any value in `lo..=hi`, concretely (one path each).
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// A symbolic number in `0..=n`, followed on one path per value.
pub fn within(n: usize) -> usize {
    upto(n + 1)
}
/// A symbolic number below `n`, followed on one path per value.
pub fn upto(n: usize) -> usize {
    let k = u8() as usize;
    assume(k < n);
    fork(k)
}
/// `n` arbitrary bytes.
pub fn bytes_n(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n.max(1));
    for _ in 0..n {
        v.push(u8());
    }
    v
}
/// Any byte string of length `lo..=hi`.
pub fn bytes(lo: usize, hi: usize) -> Vec<u8> {
    let n = range(lo, hi);
    bytes_n(n)
}
/// `n` bytes out of an alphabet of `k` consecutive values starting at `base` (kept symbolic).
pub fn alpha_n(n: usize, base: u8, k: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(n.max(1));
    for _ in 0..n {
        let x = u8();
        assume(x >= base && x < base + k);
        v.push(x);
    }
    v
}
pub fn alpha(lo: usize, hi: usize, base: u8, k: u8) -> Vec<u8> {
    let n = range(lo, hi);
    alpha_n(n, base, k)
}
/// Appends any scalar value whose UTF-8 form has `class` bytes.
pub fn push_char(v: &mut Vec<u8>, class: usize) {
    fn cont(v: &mut Vec<u8>, lo: u8, hi: u8) {
        let x = u8();
        assume(x >= lo && x <= hi);
        v.push(x);
    }
    match class {
        1 => cont(v, 0, 0x7f),
        2 => {
            cont(v, 0xc2, 0xdf);
            cont(v, 0x80, 0xbf);
        }
        3 => {
            // four sub-ranges of the Unicode table
            match choose(4) {
                0 => {
                    v.push(0xe0);
                    cont(v, 0xa0, 0xbf);
                }
                1 => {
                    cont(v, 0xe1, 0xec);
                    cont(v, 0x80, 0xbf);
                }
                2 => {
                    v.push(0xed);
                    cont(v, 0x80, 0x9f);
                }
                _ => {
                    cont(v, 0xee, 0xef);
                    cont(v, 0x80, 0xbf);
                }
            }
            cont(v, 0x80, 0xbf);
        }
        _ => {
            match choose(3) {
                0 => {
                    v.push(0xf0);
                    cont(v, 0x90, 0xbf);
                }
                1 => {
                    cont(v, 0xf1, 0xf3);
                    cont(v, 0x80, 0xbf);
                }
                _ => {
                    v.push(0xf4);
                    cont(v, 0x80, 0x8f);
                }
            }
            cont(v, 0x80, 0xbf);
            cont(v, 0x80, 0xbf);
        }
    }
}
/// Any text of `lo..=hi` scalar values, of any UTF-8 widths up to `maxw`.
pub fn text(lo: usize, hi: usize, maxw: usize) -> String {
    let n = range(lo, hi);
    text_n(n, maxw)
}
pub fn text_n(n: usize, maxw: usize) -> String {
    let mut v = Vec::with_capacity(4 * n + 1);
    for _ in 0..n {
        let c = range(1, maxw);
        push_char(&mut v, c);
    }
    to_text(v)
}
pub fn to_text(v: Vec<u8>) -> String {
    #[cfg(not(feature = "sym"))]
    std::str::from_utf8(&v).expect("harness: text");
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    for x in b {
        obs(*x as u64);
    }
}
/// Hides a value from the optimiser of the native build; nothing in the symbolic one.
pub fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
