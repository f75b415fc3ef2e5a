//! Model of the random source: every drawn byte is an unconstrained symbolic byte.
extern "C" {
    fn __sym_bytes(ptr: *mut u8, len: usize);
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub trait CryptoRng {}

pub mod rngs {
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    pub type OsRng = ThreadRng;
    pub type StdRng = ThreadRng;
    impl crate::RngCore for ThreadRng {
        fn next_u32(&mut self) -> u32 { crate::random() }
        fn next_u64(&mut self) -> u64 { crate::random() }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            if !dest.is_empty() {
                unsafe { crate::__sym_bytes(dest.as_mut_ptr(), dest.len()) }
            }
        }
    }
    impl crate::CryptoRng for ThreadRng {}
}
pub use rngs::ThreadRng;

pub trait Sample {
    fn sample() -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $(impl Sample for $t {
    fn sample() -> Self {
        let mut b = [0u8; core::mem::size_of::<$t>()];
        unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
        <$t>::from_le_bytes(b)
    }
})* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl Sample for bool {
    fn sample() -> Self { u8::sample() & 1 == 1 }
}
impl<const N: usize> Sample for [u8; N] {
    fn sample() -> Self {
        let mut b = [0u8; N];
        if N > 0 {
            unsafe { __sym_bytes(b.as_mut_ptr(), N) }
        }
        b
    }
}

pub fn random<T: Sample>() -> T { T::sample() }
pub fn thread_rng() -> ThreadRng { ThreadRng }

pub trait Rng: RngCore {
    fn gen<T: Sample>(&mut self) -> T { T::sample() }
    fn fill(&mut self, dest: &mut [u8]) { self.fill_bytes(dest) }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { (**self).fill_bytes(dest) }
}

pub mod prelude {
    pub use crate::{random, thread_rng, CryptoRng, Rng, RngCore, ThreadRng};
}
