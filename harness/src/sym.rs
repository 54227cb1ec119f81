//! The interface between the harnesses and whoever runs them: the symbolic executor (which intercepts these symbols)
//! or the native replay binary (which implements them with recorded values).
mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_alloc_limit(n: u64);
        pub fn sym_observe(v: u64);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_phantom(n: u64) -> *const u8;
        pub fn sym_is_phantom(p: *const u8) -> bool;
    }
}
use ffi::*;

pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn assert_id(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
/// Vacuity witness: the runner requires that every id it expects was reached on a feasible path.
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
pub fn alloc_limit(n: u64) {
    unsafe { sym_alloc_limit(n) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    let mut i = 0;
    while i < b.len() {
        observe(b[i] as u64);
        i += 1;
    }
}
/// Forks over the feasible values of `v`.
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
/// A symbolic value in 0..n.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
/// A forked (concrete on each path) value in 0..n.
pub fn pick(n: u8) -> usize {
    conc(below(n) as u64) as usize
}
/// A forked boolean.
pub fn flip() -> bool {
    pick(2) == 1
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        v.push(u8());
    }
    v
}
/// A slice of symbolic length whose contents are never looked at.
pub fn phantom(n: u64) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(sym_phantom(n), n as usize) }
}
pub fn is_phantom(b: &[u8]) -> bool {
    unsafe { sym_is_phantom(b.as_ptr()) }
}
/// Byte equality without branching on contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
