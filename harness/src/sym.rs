//! Interface of the symbolic executor (and, in the replay build, of the recorded inputs).
#![allow(dead_code)]

extern "C" {
    fn __sym_bytes(ptr: *mut u8, len: usize);
    fn __sym_choose(n: u32) -> u32;
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, ptr: *const u8, len: usize);
    fn __sym_cover(ptr: *const u8, len: usize);
    fn __sym_observe(ptr: *const u8, len: usize);
    fn __sym_arg(i: u32) -> u64;
    fn __sym_allow_panic(allow: bool);
    fn __sym_hash(alg: u32, ptr: *const u8, len: usize, out: *mut u8);
    fn __sym_urem256(a: *const u64, b: *const u64, out: *mut u64);
}

/// Symbolic bytes.
#[inline]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    if N > 0 {
        unsafe { __sym_bytes(b.as_mut_ptr(), N) }
    }
    b
}
pub fn fill(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
    }
}
pub fn vec(len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    fill(&mut v);
    v
}
pub fn byte() -> u8 { bytes::<1>()[0] }
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
/// One of `0..n`; every choice is explored on a path of its own.
pub fn choose(n: u32) -> u32 { unsafe { __sym_choose(n) } }
/// A boolean, every value on a path of its own.
pub fn fork() -> bool { choose(2) == 1 }
/// Splits paths so that the value is a constant on each of them.
pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
/// The property: must hold on every path for every input.
#[inline]
pub fn check(c: bool, id: &str) { unsafe { __sym_check(c, id.as_ptr(), id.len()) } }
/// Path reached (vacuity guard).
pub fn cover(id: &str) { unsafe { __sym_cover(id.as_ptr(), id.len()) } }
/// Values compared between the symbolic run and the native replay.
pub fn observe(v: &[u8]) { unsafe { __sym_observe(v.as_ptr(), v.len()) } }
pub fn arg(i: u32) -> u64 { unsafe { __sym_arg(i) } }
pub fn allow_panic(allow: bool) { unsafe { __sym_allow_panic(allow) } }

/// SHA-256, independent of the code under test.
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    unsafe { __sym_hash(0, data.as_ptr(), data.len(), out.as_mut_ptr()) }
    out
}
/// RIPEMD-160, independent of the code under test.
pub fn ripemd160(data: &[u8]) -> [u8; 20] {
    let mut out = [0u8; 20];
    unsafe { __sym_hash(1, data.as_ptr(), data.len(), out.as_mut_ptr()) }
    out
}
/// Remainder of a 256-bit little-endian number.
pub fn urem256(a: &[u8; 32], b: u64) -> u64 {
    let mut x = [0u64; 4];
    for (i, w) in x.iter_mut().enumerate() {
        let mut t = [0u8; 8];
        t.copy_from_slice(&a[i * 8..i * 8 + 8]);
        *w = u64::from_le_bytes(t);
    }
    let y = [b, 0, 0, 0];
    let mut o = [0u64; 4];
    unsafe { __sym_urem256(x.as_ptr(), y.as_ptr(), o.as_mut_ptr()) }
    o[0]
}
