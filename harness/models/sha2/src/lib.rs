//! Model of the hash function: the input bytes are recorded, the result is the ideal hash of them.
pub use digest::{self, Digest};
use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

extern "C" {
    fn __sym_hash(alg: u32, ptr: *const u8, len: usize, out: *mut u8);
}

#[derive(Clone)]
pub struct Sha256 {
    buf: Vec<u8>,
}

impl Default for Sha256 {
    #[inline]
    fn default() -> Self { Self { buf: Vec::with_capacity(256) } }
}

impl core::fmt::Debug for Sha256 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Sha256 { .. }") }
}

impl HashMarker for Sha256 {}
impl OutputSizeUser for Sha256 {
    type OutputSize = digest::consts::U32;
}
impl Update for Sha256 {
    #[inline]
    fn update(&mut self, data: &[u8]) { self.buf.extend_from_slice(data); }
}
impl Reset for Sha256 {
    fn reset(&mut self) { self.buf.clear(); }
}
impl FixedOutput for Sha256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        unsafe { __sym_hash(0, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
    }
}
impl FixedOutputReset for Sha256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        unsafe { __sym_hash(0, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
        self.buf.clear();
    }
}
impl std::io::Write for Sha256 {
    #[inline]
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        self.buf.extend_from_slice(data);
        Ok(data.len())
    }
    #[inline]
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
