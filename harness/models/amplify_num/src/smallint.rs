// Rust language amplification library providing multiple generic trait
// implementations, type wrappers, derive macros and other language enhancements
//
// Written in 2021-2024 by
//     Dr. Maxim Orlovsky <orlovsky@ubideco.org>
//
// To the extent possible under law, the author(s) have dedicated all
// copyright and related and neighboring rights to this software to
// the public domain worldwide. This software is distributed without
// any warranty.
//
// You should have received a copy of the MIT License
// along with this software.
// If not, see <https://opensource.org/licenses/MIT>.

use core::convert::TryFrom;
use core::ops::{
    Add, AddAssign, BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Div, DivAssign,
    Mul, MulAssign, Rem, RemAssign, Shl, ShlAssign, Shr, ShrAssign, Sub, SubAssign,
};

use crate::error::{DivError, OverflowError};

macro_rules! construct_smallint {
    ($ty:ident, $inner:ident, $to:ident, $into:ident, $bits:literal, $max:expr, $doc:meta) => {
        #[$doc]
        #[derive(PartialEq, Eq, Debug, Copy, Clone, Default, PartialOrd, Ord, Hash)]
        #[cfg_attr(
            feature = "serde",
            derive(Serialize, Deserialize),
            serde(crate = "serde_crate", transparent)
        )]
        #[allow(non_camel_case_types)]
        pub struct $ty($inner);

        impl $ty {
            /// Bit dimension
            pub const BITS: u32 = $bits;

            /// Minimum value
            pub const MIN: Self = Self(0);

            /// Maximal value
            pub const MAX: Self = Self($max);

            /// One value
            pub const ONE: Self = Self(1);

            /// One value
            pub const ZERO: Self = Self(0);

            /// Creates a new value from a provided `value.
            ///
            /// Panics if the value exceeds `Self::MAX`
            pub const fn with(value: $inner) -> Self {
                assert!(value <= $max, "provided value exceeds Self::MAX");
                Self(value)
            }

            /// Returns inner `u8` representation, which is always less or equal to `Self::MAX`
            pub const fn $to(&self) -> $inner {
                self.0 as $inner
            }

            /// Returns inner `u8` representation, which is always less or equal to `Self::MAX`
            pub const fn $into(self) -> $inner {
                self.0 as $inner
            }
        }

        impl ::core::convert::TryFrom<$inner> for $ty {
            type Error = OverflowError<$inner>;
            #[inline]
            fn try_from(value: $inner) -> Result<Self, Self::Error> {
                if value > $max {
                    Err(OverflowError { max: $max, value })
                } else {
                    Ok(Self(value))
                }
            }
        }

        impl From<$ty> for $inner {
            #[inline]
            fn from(val: $ty) -> Self {
                val.0
            }
        }

        impl AsRef<$inner> for $ty {
            #[inline]
            fn as_ref(&self) -> &$inner {
                &self.0
            }
        }

        impl ::core::str::FromStr for $ty {
            type Err = ::core::num::ParseIntError;
            #[inline]
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                Self::try_from($inner::from_str(s)?).map_err(|_| u8::from_str("257").unwrap_err())
            }
        }

        impl ::core::fmt::Display for $ty {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                self.0.fmt(f)
            }
        }

        impl core::fmt::UpperHex for $ty {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
                core::fmt::UpperHex::fmt(&self.as_ref(), f)
            }
        }

        impl core::fmt::LowerHex for $ty {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
                core::fmt::LowerHex::fmt(&self.as_ref(), f)
            }
        }

        impl core::fmt::Octal for $ty {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
                core::fmt::Octal::fmt(&self.as_ref(), f)
            }
        }

        impl core::fmt::Binary for $ty {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
                core::fmt::Binary::fmt(&self.as_ref(), f)
            }
        }

        impl_op!($ty, $inner, Add, add, AddAssign, add_assign, +);
        impl_op!($ty, $inner, Sub, sub, SubAssign, sub_assign, -);
        impl_op!($ty, $inner, Mul, mul, MulAssign, mul_assign, *);
        impl_op!($ty, $inner, Div, div, DivAssign, div_assign, /);
        impl_op!($ty, $inner, Rem, rem, RemAssign, rem_assign, %);
        impl_op!($ty, $inner, BitAnd, bitand, BitAndAssign, bitand_assign, &);
        impl_op!($ty, $inner, BitOr, bitor, BitOrAssign, bitor_assign, |);
        impl_op!($ty, $inner, BitXor, bitxor, BitXorAssign, bitxor_assign, ^);
        impl_op!($ty, $inner, Shl, shl, ShlAssign, shl_assign, <<);
        impl_op!($ty, $inner, Shr, shr, ShrAssign, shr_assign, >>);

        impl $ty {
            /// Checked integer addition. Computes `self + rhs`, returning `None` if
            /// overflow occurred.
            pub fn checked_add<T>(self, rhs: T) -> Option<Self> where T: Into<$inner> {
                self.0.checked_add(rhs.into()).and_then(|val| Self::try_from(val).ok())
            }
            /// Saturating integer addition. Computes `self + rhs`, saturating at the
            /// numeric bounds instead of overflowing.
            pub fn saturating_add<T>(self, rhs: T) -> Self where T: Into<$inner> {
                let res = self.0.saturating_add(rhs.into());
                if res > Self::MAX.$to() {
                    Self::MAX
                } else {
                    Self(res)
                }
            }
            /// Calculates `self + rhs`
            ///
            /// Returns a tuple of the addition along with a boolean indicating whether
            /// an arithmetic overflow would occur. If an overflow would have occurred
            /// then the wrapped value is returned.
            pub fn overflowing_add<T>(self, rhs: T) -> (Self, bool) where T: Into<$inner> {
                let mut ret = self.0.overflowing_add(rhs.into());
                if ret.0 > Self::MAX.0 {
                    ret.0 %= Self::MAX.0;
                    ret.1 = true;
                }
                (Self(ret.0), ret.1)
            }
            /// Wrapping (modular) addition. Computes `self + rhs`, wrapping around at
            /// the boundary of the type.
            pub fn wrapping_add<T>(self, rhs: T) -> Self where T: Into<$inner> {
                #[allow(clippy::modulo_one)]
                Self(self.0.wrapping_add(rhs.into()) % Self::MAX.0)
            }

            /// Checked integer subtraction. Computes `self - rhs`, returning `None` if
            /// overflow occurred.
            pub fn checked_sub<T>(self, rhs: T) -> Option<Self> where T: Into<$inner> {
                self.0.checked_sub(rhs.into()).and_then(|val| Self::try_from(val).ok())
            }
            /// Saturating integer subtraction. Computes `self - rhs`, saturating at the
            /// numeric bounds instead of overflowing.
            pub fn saturating_sub<T>(self, rhs: T) -> Self where T: Into<$inner> {
                let res = self.0.saturating_sub(rhs.into());
                if res > Self::MAX.$to() {
                    Self::MAX
                } else {
                    Self(res)
                }
            }
            /// Calculates `self - rhs`
            ///
            /// Returns a tuple of the subtraction along with a boolean indicating whether
            /// an arithmetic overflow would occur. If an overflow would have occurred
            /// then the wrapped value is returned.
            pub fn overflowing_sub<T>(self, rhs: T) -> (Self, bool) where T: Into<$inner> {
                let mut ret = self.0.overflowing_sub(rhs.into());
                if ret.0 > Self::MAX.0 {
                    ret.0 %= Self::MAX.0;
                    ret.1 = true;
                }
                (Self(ret.0), ret.1)
            }
            /// Wrapping (modular) subtraction. Computes `self - rhs`, wrapping around at
            /// the boundary of the type.
            pub fn wrapping_sub<T>(self, rhs: T) -> Self where T: Into<$inner> {
                #[allow(clippy::modulo_one)]
                Self(self.0.wrapping_sub(rhs.into()) % Self::MAX.0)
            }

            /// Checked integer multiplication. Computes `self * rhs`, returning `None` if
            /// overflow occurred.
            pub fn checked_mul<T>(self, rhs: T) -> Option<Self> where T: Into<$inner> {
                self.0.checked_mul(rhs.into()).and_then(|val| Self::try_from(val).ok())
            }
            /// Saturating integer multiplication. Computes `self * rhs`, saturating at the
            /// numeric bounds instead of overflowing.
            pub fn saturating_mul<T>(self, rhs: T) -> Self where T: Into<$inner> {
                let res = self.0.saturating_mul(rhs.into());
                if res > Self::MAX.0 {
                    Self::MAX
                } else {
                    Self(res)
                }
            }
            /// Calculates `self * rhs`
            ///
            /// Returns a tuple of the multiplication along with a boolean indicating whether
            /// an arithmetic overflow would occur. If an overflow would have occurred
            /// then the wrapped value is returned.
            pub fn overflowing_mul<T>(self, rhs: T) -> (Self, bool) where T: Into<$inner> {
                let mut ret = self.0.overflowing_mul(rhs.into());
                if ret.0 > Self::MAX.0 {
                    ret.0 %= Self::MAX.0;
                    ret.1 = true;
                }
                (Self(ret.0), ret.1)
            }
            /// Wrapping (modular) multiplication. Computes `self * rhs`, wrapping around at
            /// the boundary of the type.
            pub fn wrapping_mul<T>(self, rhs: T) -> Self where T: Into<$inner> {
                #[allow(clippy::modulo_one)]
                Self(self.0.wrapping_mul(rhs.into()) % Self::MAX.0)
            }

            #[inline]
            pub fn div_rem(self, other: Self) -> Result<(Self, Self), DivError> {
                //quotient and remainder will always be smaller than self so they're going to be in bounds
                if other == Self(0) {
                    return Err(DivError::ZeroDiv)
                }
                let quotient = self / other;
                Ok((quotient, self - (quotient * other)))
            }
        }
    };
}
macro_rules! impl_op {
    ($ty:ty, $inner:ty, $op:ident, $fn:ident, $op_assign:ident, $fn_assign:ident, $sign:tt) => {
        impl<T> $op<T> for $ty where T: Into<$inner> {
            type Output = $ty;
            #[inline]
            fn $fn(self, rhs: T) -> Self::Output {
                Self::try_from((self.0).$fn(rhs.into())).expect(stringify!(
                    "attempt to ",
                    $fn,
                    " with overflow"
                ))
            }
        }
        impl<T> $op<T> for &$ty where T: Into<$inner> {
            type Output = $ty;
            #[inline]
            fn $fn(self, rhs: T) -> Self::Output {
                *self $sign rhs
            }
        }

        impl<T> $op_assign<T> for $ty where T: Into<$inner> {
            #[inline]
            fn $fn_assign(&mut self, rhs: T) {
                self.0 = (*self $sign rhs).0
            }
        }
    };
}

construct_smallint!(
    u1,
    u8,
    to_u8,
    into_u8,
    1,
    1,
    doc = "1-bit unsigned integer in the range `0..1`. It can be used instead of `bool` when \
           1-bit numeric (and not boolean) arithmetic is required"
);
construct_smallint!(
    u2,
    u8,
    to_u8,
    into_u8,
    2,
    3,
    doc = "2-bit unsigned integer in the range `0..4`"
);
construct_smallint!(
    u3,
    u8,
    to_u8,
    into_u8,
    3,
    7,
    doc = "3-bit unsigned integer in the range `0..8`"
);
construct_smallint!(
    u4,
    u8,
    to_u8,
    into_u8,
    4,
    15,
    doc = "4-bit unsigned integer in the range `0..16`"
);
construct_smallint!(
    u5,
    u8,
    to_u8,
    into_u8,
    5,
    31,
    doc = "5-bit unsigned integer in the range `0..32`"
);
construct_smallint!(
    u6,
    u8,
    to_u8,
    into_u8,
    6,
    63,
    doc = "6-bit unsigned integer in the range `0..64`"
);
construct_smallint!(
    u7,
    u8,
    to_u8,
    into_u8,
    7,
    127,
    doc = "7-bit unsigned integer in the range `0..128`"
);
construct_smallint!(
    u24,
    u32,
    to_u32,
    into_u32,
    24,
    0xFF_FF_FF,
    doc = "24-bit unsigned integer in the range `0..16_777_216`"
);
construct_smallint!(
    u40,
    u64,
    to_u64,
    into_u64,
    40,
    0xFF_FFFF_FFFF,
    doc = "40-bit unsigned integer in the range `0..2^40`"
);
construct_smallint!(
    u48,
    u64,
    to_u64,
    into_u64,
    48,
    0xFFFF_FFFF_FFFF,
    doc = "48-bit unsigned integer in the range `0..2^48`"
);
construct_smallint!(
    u56,
    u64,
    to_u64,
    into_u64,
    56,
    0xFF_FFFF_FFFF_FFFF,
    doc = "56-bit unsigned integer in the range `0..2^56`"
);

impl From<u1> for u2 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u1> for u3 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u2> for u3 {
    fn from(value: u2) -> Self { Self(value.0) }
}

impl From<u1> for u4 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u2> for u4 {
    fn from(value: u2) -> Self { Self(value.0) }
}

impl From<u3> for u4 {
    fn from(value: u3) -> Self { Self(value.0) }
}

impl From<u1> for u5 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u2> for u5 {
    fn from(value: u2) -> Self { Self(value.0) }
}

impl From<u3> for u5 {
    fn from(value: u3) -> Self { Self(value.0) }
}

impl From<u4> for u5 {
    fn from(value: u4) -> Self { Self(value.0) }
}

impl From<u1> for u6 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u2> for u6 {
    fn from(value: u2) -> Self { Self(value.0) }
}

impl From<u3> for u6 {
    fn from(value: u3) -> Self { Self(value.0) }
}

impl From<u4> for u6 {
    fn from(value: u4) -> Self { Self(value.0) }
}

impl From<u5> for u6 {
    fn from(value: u5) -> Self { Self(value.0) }
}

impl From<u1> for u7 {
    fn from(value: u1) -> Self { Self(value.0) }
}

impl From<u2> for u7 {
    fn from(value: u2) -> Self { Self(value.0) }
}

impl From<u3> for u7 {
    fn from(value: u3) -> Self { Self(value.0) }
}

impl From<u4> for u7 {
    fn from(value: u4) -> Self { Self(value.0) }
}

impl From<u5> for u7 {
    fn from(value: u5) -> Self { Self(value.0) }
}

impl From<u6> for u7 {
    fn from(value: u6) -> Self { Self(value.0) }
}

impl From<u24> for i32 {
    fn from(val: u24) -> Self { val.0 as i32 }
}

impl From<u24> for i64 {
    fn from(val: u24) -> Self { val.0 as i64 }
}

impl From<u24> for i128 {
    fn from(val: u24) -> Self { val.0 as i128 }
}

impl From<u24> for isize {
    fn from(val: u24) -> Self { val.0 as isize }
}

impl From<u24> for u64 {
    fn from(val: u24) -> Self { val.0 as u64 }
}

impl From<u24> for u128 {
    fn from(val: u24) -> Self { val.0 as u128 }
}

impl From<u24> for usize {
    fn from(val: u24) -> Self { val.0 as usize }
}

impl From<u48> for i64 {
    fn from(val: u48) -> Self { val.0 as i64 }
}

impl From<u40> for i128 {
    fn from(val: u40) -> Self { val.0 as i128 }
}

impl From<u40> for isize {
    fn from(val: u40) -> Self { val.0 as isize }
}

impl From<u40> for u128 {
    fn from(val: u40) -> Self { val.0 as u128 }
}

impl From<u40> for usize {
    fn from(val: u40) -> Self { val.0 as usize }
}

impl From<u48> for i128 {
    fn from(val: u48) -> Self { val.0 as i128 }
}

impl From<u48> for isize {
    fn from(val: u48) -> Self { val.0 as isize }
}

impl From<u48> for u128 {
    fn from(val: u48) -> Self { val.0 as u128 }
}

impl From<u48> for usize {
    fn from(val: u48) -> Self { val.0 as usize }
}

impl From<u56> for i64 {
    fn from(val: u56) -> Self { val.0 as i64 }
}

impl From<u56> for i128 {
    fn from(val: u56) -> Self { val.0 as i128 }
}

impl From<u56> for isize {
    fn from(val: u56) -> Self { val.0 as isize }
}

impl From<u56> for u128 {
    fn from(val: u56) -> Self { val.0 as u128 }
}

impl From<u56> for usize {
    fn from(val: u56) -> Self { val.0 as usize }
}

impl u24 {
    /// Create a native endian integer value from its representation as a byte
    /// array in little endian.
    pub fn from_le_bytes(bytes: [u8; 3]) -> Self {
        let mut inner = [0u8; 4];
        inner[..3].copy_from_slice(&bytes);
        Self(u32::from_le_bytes(inner))
    }

    /// Return the memory representation of this integer as a byte array in
    /// little-endian byte order.
    pub fn to_le_bytes(self) -> [u8; 3] {
        let mut inner = [0u8; 3];
        inner.copy_from_slice(&self.0.to_le_bytes()[..3]);
        inner
    }

    /// Create a native endian integer value from its representation as a byte
    /// array in big endian.
    pub fn from_be_bytes(bytes: [u8; 3]) -> Self {
        let mut inner = [0u8; 4];
        inner[1..].copy_from_slice(&bytes);
        Self(u32::from_be_bytes(inner))
    }

    /// Return the memory representation of this integer as a byte array in
    /// big-endian byte order.
    pub fn to_be_bytes(self) -> [u8; 3] {
        let mut inner = [0u8; 3];
        inner.copy_from_slice(&self.0.to_be_bytes()[1..]);
        inner
    }

    /// Converts into `i32` type.
    pub const fn to_i32(&self) -> i32 { self.0 as i32 }

    /// Converts into `i64` type.
    pub const fn to_i64(&self) -> i64 { self.0 as i64 }

    /// Converts into `i128` type.
    pub const fn to_i128(&self) -> i128 { self.0 as i128 }

    /// Converts into `isize` type.
    pub const fn to_isize(&self) -> isize { self.0 as isize }

    /// Converts into `u64` type.
    pub const fn to_u64(&self) -> u64 { self.0 as u64 }

    /// Converts into `i128` type.
    pub const fn to_u128(&self) -> u128 { self.0 as u128 }

    /// Converts into `usize` type.
    pub const fn to_usize(&self) -> usize { self.0 as usize }

    /// Converts into `i32` type.
    pub const fn into_i32(self) -> i32 { self.0 as i32 }

    /// Converts into `i64` type.
    pub const fn into_i64(self) -> i64 { self.0 as i64 }

    /// Converts into `i128` type.
    pub const fn into_i128(self) -> i128 { self.0 as i128 }

    /// Converts into `isize` type.
    pub const fn into_isize(self) -> isize { self.0 as isize }

    /// Converts into `u64` type.
    pub const fn into_u64(self) -> u64 { self.0 as u64 }

    /// Converts into `u128` type.
    pub const fn into_u128(self) -> u128 { self.0 as u128 }

    /// Converts into `usize` type.
    pub const fn into_usize(self) -> usize { self.0 as usize }
}

macro_rules! impl_subu64 {
    ($ty:ty, $len:literal) => {
        impl $ty {
            /// Create a native endian integer value from its representation as a byte
            /// array in little endian.
            pub fn from_le_bytes(bytes: [u8; $len]) -> Self {
                let mut inner = [0u8; 8];
                inner[..$len].copy_from_slice(&bytes);
                Self(u64::from_le_bytes(inner))
            }

            /// Return the memory representation of this integer as a byte array in
            /// little-endian byte order.
            pub fn to_le_bytes(self) -> [u8; $len] {
                let mut inner = [0u8; $len];
                inner.copy_from_slice(&self.0.to_le_bytes()[..$len]);
                inner
            }

            /// Create a native endian integer value from its representation as a byte
            /// array in big endian.
            pub fn from_be_bytes(bytes: [u8; $len]) -> Self {
                let mut inner = [0u8; 8];
                inner[(8 - $len)..].copy_from_slice(&bytes);
                Self(u64::from_be_bytes(inner))
            }

            /// Return the memory representation of this integer as a byte array in
            /// big-endian byte order.
            pub fn to_be_bytes(self) -> [u8; $len] {
                let mut inner = [0u8; $len];
                inner.copy_from_slice(&self.0.to_be_bytes()[(8 - $len)..]);
                inner
            }

            /// Converts into `i64` type.
            pub const fn to_i64(&self) -> i64 { self.0 as i64 }

            /// Converts into `i128` type.
            pub const fn to_i128(&self) -> i128 { self.0 as i128 }

            /// Converts into `isize` type.
            pub const fn to_isize(&self) -> isize { self.0 as isize }

            /// Converts into `i128` type.
            pub const fn to_u128(&self) -> u128 { self.0 as u128 }

            /// Converts into `usize` type.
            pub const fn to_usize(&self) -> usize { self.0 as usize }

            /// Converts into `i64` type.
            pub const fn into_i64(self) -> i64 { self.0 as i64 }

            /// Converts into `i128` type.
            pub const fn into_i128(self) -> i128 { self.0 as i128 }

            /// Converts into `isize` type.
            pub const fn into_isize(self) -> isize { self.0 as isize }

            /// Converts into `u128` type.
            pub const fn into_u128(self) -> u128 { self.0 as u128 }

            /// Converts into `usize` type.
            pub const fn into_usize(self) -> usize { self.0 as usize }
        }
    };
}
impl_subu64!(u40, 5);
impl_subu64!(u48, 6);
impl_subu64!(u56, 7);

