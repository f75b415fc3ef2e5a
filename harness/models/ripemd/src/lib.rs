//! Model of the hash function: the input bytes are recorded, the result is the ideal hash of them.
pub use digest::{self, Digest};
use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

extern "C" {
    fn __sym_hash(alg: u32, ptr: *const u8, len: usize, out: *mut u8);
}

#[derive(Clone)]
pub struct Ripemd160 {
    buf: Vec<u8>,
}

impl Default for Ripemd160 {
    #[inline]
    fn default() -> Self { Self { buf: Vec::with_capacity(256) } }
}

impl core::fmt::Debug for Ripemd160 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Ripemd160 { .. }") }
}

impl HashMarker for Ripemd160 {}
impl OutputSizeUser for Ripemd160 {
    type OutputSize = digest::consts::U20;
}
impl Update for Ripemd160 {
    #[inline]
    fn update(&mut self, data: &[u8]) { self.buf.extend_from_slice(data); }
}
impl Reset for Ripemd160 {
    fn reset(&mut self) { self.buf.clear(); }
}
impl FixedOutput for Ripemd160 {
    fn finalize_into(self, out: &mut Output<Self>) {
        unsafe { __sym_hash(1, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
    }
}
impl FixedOutputReset for Ripemd160 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        unsafe { __sym_hash(1, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
        self.buf.clear();
    }
}
impl std::io::Write for Ripemd160 {
    #[inline]
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        self.buf.extend_from_slice(data);
        Ok(data.len())
    }
    #[inline]
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
