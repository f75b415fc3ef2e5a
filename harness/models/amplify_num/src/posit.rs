// Rust language amplification library providing multiple generic trait
// implementations, type wrappers, derive macros and other language enhancements
//
// Written in 2022 by
//     Yudai Kiyofuji <own7000hr@gmail.com>
//
// To the extent possible under law, the author(s) have dedicated all
// copyright and related and neighboring rights to this software to
// the public domain worldwide. This software is distributed without
// any warranty.
//
// You should have received a copy of the MIT License
// along with this software.
// If not, see <https://opensource.org/licenses/MIT>.

use crate::error::PositDecodeError;
use crate::{u1024, u256, u512};

macro_rules! construct_posit {
    (
        $name:ident,
        $bits:expr,
        $es:expr,
        $internal:ident,
        $zeros:expr,
        $ones:expr,
        $nar:expr,
        $guard:ident,
        $guard_zero:expr,
        $guard_max:expr,
        $to:ident,
        $into:ident
    ) => {
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name($internal);

        impl $name {
            pub const ZERO: $name = $name($zeros);
            pub const NAR: $name = $name($nar);

            #[inline]
            #[allow(clippy::wrong_self_convention)]
            #[deprecated(since = "1.5.3", note = "use `into`")]
            pub const fn $to(&self) -> $internal { self.0 }

            #[inline]
            pub const fn $into(self) -> $internal { self.0 }

            #[inline]
            pub fn is_nar(&self) -> bool { self == &Self::NAR }

            #[inline]
            pub fn is_zero(&self) -> bool { self.0 == $zeros }

            #[inline]
            pub fn is_negative(&self) -> bool {
                !self.is_nar() && (self.0 & Self::NAR.0 == Self::NAR.0)
            }

            #[inline]
            pub fn is_positive(&self) -> bool {
                !self.is_nar() && !self.is_negative() && !self.is_zero()
            }

            #[inline]
            pub fn abs(self) -> Self {
                match self.is_negative() {
                    true => -self,
                    false => self,
                }
            }

            fn regime<T: Into<i32>>(exp: T) -> (i16, $internal) {
                let exp = exp.into();
                let regime = exp >> $es;
                (regime as i16, $internal::from((exp - (regime << $es)) as u8))
            }

            fn exp(regime: i16, exp: $internal) -> i32 {
                ((regime as i32) << $es) + exp.to_le_bytes()[0] as i32
            }

            pub fn from_bits(bits: $internal) -> Self { Self(bits) }

            pub fn decode(&self) -> Result<(bool, i16, $internal, $internal), PositDecodeError> {
                if self.is_zero() {
                    return Err(PositDecodeError::Zero);
                }
                if self.is_nar() {
                    return Err(PositDecodeError::NaR);
                }
                let sign = self.is_negative();
                let input = self.abs().0 << 1;
                let (regime, input) = match ((!input).leading_zeros(), input.leading_zeros()) {
                    (0, zeros) => {
                        (-(zeros as i16), input.checked_shl(zeros as u32 + 1).unwrap_or($zeros))
                    }
                    (ones, _) => {
                        ((ones - 1) as i16, input.checked_shl(ones as u32 + 1).unwrap_or($zeros))
                    }
                };
                let exp = input.checked_shr($bits - $es).unwrap_or($zeros);
                let mantissa = input.checked_shl($es).unwrap_or($zeros);
                Ok((sign, regime, exp, mantissa))
            }

            pub fn encode(sign: bool, regime: i16, exp: $internal, mantissa: $internal) -> Self {
                Self::_encode(sign, regime, $guard::from(exp), $guard::from(mantissa) << $bits)
            }

            fn _encode(sign: bool, regime: i16, exp: $guard, mantissa: $guard) -> Self {
                let shl = |x: $guard, shift| x.checked_shl(shift).unwrap_or($guard_zero);
                let shr = |x: $guard, shift| x.checked_shr(shift).unwrap_or($guard_zero);
                let mut res = $guard_zero;
                let len: u32 = (regime.unsigned_abs() + (!regime.is_negative() as u16)).into();
                let regime_mask = match regime.is_negative() {
                    true => shr(!($guard_max >> 1), len + 1),
                    false => ($guard_max ^ shr($guard_max, len)) >> 1,
                };
                let mantissa_mask = shr(mantissa, len + $es + 2);
                let exp_mask = shl(exp, $bits * 2 - len - 2 - $es);
                res |= regime_mask | exp_mask | mantissa_mask;
                let (mut high, low) = {
                    let mut h = [0u8; $bits / 8];
                    let mut l = [0u8; $bits / 8];
                    let bytes = res.to_le_bytes();
                    for i in 0..($bits / 8) {
                        h[i] = bytes[$bits / 8 + i]
                    }
                    for i in 0..($bits / 8) {
                        l[i] = bytes[i]
                    }
                    ($internal::from_le_bytes(h), $internal::from_le_bytes(l))
                };
                match (high == ($ones >> 1), low.cmp(&$nar)) {
                    (true, _) | (_, ::core::cmp::Ordering::Less) => (),
                    (_, ::core::cmp::Ordering::Greater) => high += !($ones << 1),
                    (_, ::core::cmp::Ordering::Equal) => high += (high & !($ones << 1)),
                };
                Self(if sign { high.wrapping_neg() } else { high })
            }
        }

        impl PartialOrd for $name {
            #[inline]
            fn partial_cmp(&self, other: &$name) -> Option<::core::cmp::Ordering> {
                Some(self.cmp(&other))
            }
        }

        impl Ord for $name {
            #[inline]
            fn cmp(&self, other: &$name) -> ::core::cmp::Ordering {
                match (self.is_nar(), other.is_nar()) {
                    (true, true) => return ::core::cmp::Ordering::Equal,
                    (true, false) => return ::core::cmp::Ordering::Less,
                    (false, true) => return ::core::cmp::Ordering::Greater,
                    _ => (),
                }
                match (self.is_negative(), other.is_negative()) {
                    (false, true) => ::core::cmp::Ordering::Greater,
                    (true, false) => ::core::cmp::Ordering::Less,
                    _ => self.0.cmp(&other.0),
                }
            }
        }

        impl ::core::ops::Neg for $name {
            type Output = Self;
            fn neg(self) -> Self::Output { Self(self.0.wrapping_neg()) }
        }

        impl<T> ::core::ops::Add<T> for $name
        where T: Into<$name>
        {
            type Output = $name;
            fn add(self, other: T) -> $name {
                let other = other.into();
                let (lhs, rhs, sign) = {
                    let (l, r) = (self.abs(), other.abs());
                    match (l > r, self.is_negative(), other.is_negative()) {
                        (true, true, true) => (l, r, true),
                        (true, true, false) => (l, r, true),
                        (true, false, true) => (l, r, false),
                        (true, false, false) => (l, r, false),
                        (false, true, true) => (r, l, true),
                        (false, false, true) => (r, l, true),
                        (false, true, false) => (r, l, false),
                        (false, false, false) => (r, l, false),
                    }
                };
                let (lhs, rhs) = match (lhs.decode(), rhs.decode()) {
                    (Err(PositDecodeError::NaR), _) | (_, Err(PositDecodeError::NaR)) => {
                        return Self::NAR;
                    }
                    (Err(PositDecodeError::Zero), _) => return (if sign { -rhs } else { rhs }),
                    (_, Err(PositDecodeError::Zero)) => return (if sign { -lhs } else { lhs }),
                    (Ok(l), Ok(r)) => (l, r),
                };
                let is_add = self.is_negative() == other.is_negative();
                if !is_add && lhs == rhs {
                    return Self::ZERO;
                }
                let exp_lhs = Self::exp(lhs.1, lhs.2);
                let exp_rhs = Self::exp(rhs.1, rhs.2);
                let shift = (exp_lhs - exp_rhs) as u32;
                let mantissa_lhs = ($guard::from(lhs.3) << ($bits - 2)) | (!($guard_max >> 1) >> 1);
                let mantissa_rhs = (($guard::from(rhs.3) << ($bits - 2)) |
                    (!($guard_max >> 1) >> 1))
                    .checked_shr(shift)
                    .unwrap_or($guard_zero);
                let mantissa = match self.is_negative() == other.is_negative() {
                    true => mantissa_lhs + mantissa_rhs,
                    false => mantissa_lhs - mantissa_rhs,
                };
                let leading_zeros = mantissa.leading_zeros();
                let scaling_factor = 1 - leading_zeros as i32;
                let mantissa = mantissa
                    .checked_shl(leading_zeros as u32 + 1)
                    .unwrap_or($guard_zero);
                let (regime, exp) = Self::regime(exp_lhs + scaling_factor);
                Self::_encode(sign, regime, exp.into(), mantissa)
            }
        }

        impl<T> ::core::ops::Sub<T> for $name
        where T: Into<$name>
        {
            type Output = $name;
            fn sub(self, other: T) -> $name { self + (-(other.into())) }
        }

        impl<T> ::core::ops::Mul<T> for $name
        where T: Into<$name>
        {
            type Output = $name;
            fn mul(self, other: T) -> $name {
                let other = other.into();
                let sign = self.is_negative() != other.is_negative();
                let (lhs, rhs) = match (self.decode(), other.decode()) {
                    (Err(PositDecodeError::NaR), _) | (_, Err(PositDecodeError::NaR)) => {
                        return Self::NAR;
                    }
                    (Err(PositDecodeError::Zero), _) | (_, Err(PositDecodeError::Zero)) => {
                        return Self::ZERO;
                    }
                    (Ok(l), Ok(r)) => (l, r),
                };
                let exp_lhs = Self::exp(lhs.1, lhs.2);
                let exp_rhs = Self::exp(rhs.1, rhs.2);
                let mantissa_lhs = $guard::from((lhs.3 >> 2) | (Self::NAR.0 >> 1));
                let mantissa_rhs = $guard::from((rhs.3 >> 2) | (Self::NAR.0 >> 1));
                let mut mantissa = mantissa_lhs * mantissa_rhs;
                let shift = mantissa.leading_zeros();
                let scaling_factor = 3 - shift as i32;
                mantissa <<= shift as usize;
                mantissa <<= 1;
                let (regime, exp) = Self::regime(exp_lhs + exp_rhs + scaling_factor);
                Self::_encode(sign, regime, exp.into(), mantissa)
            }
        }

        impl<T> ::core::ops::Div<T> for $name
        where T: Into<$name>
        {
            type Output = $name;
            fn div(self, other: T) -> $name {
                let other = other.into();
                let sign = self.is_negative() != other.is_negative();
                let (lhs, rhs) = match (self.decode(), other.decode()) {
                    (Err(PositDecodeError::NaR), _) | (_, Err(PositDecodeError::NaR)) => {
                        return Self::NAR;
                    }
                    (_, Err(PositDecodeError::Zero)) => return Self::NAR,
                    (Err(PositDecodeError::Zero), _) => return Self::ZERO,
                    (Ok(l), Ok(r)) => (l, r),
                };
                let exp_lhs = Self::exp(lhs.1, lhs.2);
                let exp_rhs = Self::exp(rhs.1, rhs.2);
                let mut mantissa_lhs = $guard::from((lhs.3 >> 1) | Self::NAR.0);
                let mut mantissa_rhs = $guard::from((rhs.3 >> 1) | Self::NAR.0);
                let cut_lhs = mantissa_lhs.leading_zeros();
                let cut_rhs = mantissa_rhs.trailing_zeros();
                mantissa_lhs <<= cut_lhs as usize;
                mantissa_rhs >>= cut_rhs as usize;
                let mantissa = mantissa_lhs / mantissa_rhs;
                let rem = mantissa_lhs % mantissa_rhs;
                let cut_rem = rem.leading_zeros();
                let rem_mantissa = match rem != $guard_zero {
                    true => (rem << cut_rem as usize) / mantissa_rhs,
                    false => rem,
                };
                let shift = mantissa.leading_zeros();
                let scaling_factor =
                    $bits as i32 * 2 - 1 - shift as i32 - (cut_lhs + cut_rhs) as i32;
                let mantissa = mantissa
                    .checked_shl(shift as u32 + 1)
                    .unwrap_or($guard_zero);
                let rem_mantissa = rem_mantissa
                    .checked_shr(cut_rem - shift - 1)
                    .unwrap_or($guard_zero);
                let (regime, exp) = Self::regime(exp_lhs - exp_rhs + scaling_factor);
                Self::_encode(sign, regime, exp.into(), mantissa | rem_mantissa)
            }
        }

        impl ::core::ops::AddAssign for $name {
            #[inline]
            fn add_assign(&mut self, other: Self) { *self = *self + other }
        }

        impl ::core::ops::SubAssign for $name {
            #[inline]
            fn sub_assign(&mut self, other: Self) { *self = *self - other }
        }

        impl ::core::ops::MulAssign for $name {
            #[inline]
            fn mul_assign(&mut self, other: Self) { *self = *self * other }
        }

        impl ::core::ops::DivAssign for $name {
            #[inline]
            fn div_assign(&mut self, other: Self) { *self = *self / other }
        }

        impl ::core::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                let &$name(ref data) = self;
                write!(f, "{:?}", data)?;
                Ok(())
            }
        }

        impl From<$name> for f32 {
            fn from(init: $name) -> f32 {
                let (sign, regime, exp, mantissa): (bool, i16, $internal, $internal) =
                    match init.decode() {
                        Err(PositDecodeError::Zero) => return 0.,
                        Err(PositDecodeError::NaR) => return f32::NAN,
                        Ok(v) => v,
                    };
                let sign = if sign { 0x80000000u32 } else { 0u32 };
                let exp = $name::exp(regime, exp);
                let (exp, mantissa) = match (exp > 127, exp < -149, exp < -126) {
                    (true, _, _) => return f32::MAX,
                    (_, true, _) => return f32::MIN,
                    (_, _, true) => (0u32, ((mantissa >> 1) | $nar) >> (-127 - exp) as usize),
                    _ => (((exp + 127) as u32) << 23, mantissa),
                };
                let mut m = [0u8; 4];
                let _ = mantissa
                    .to_be_bytes()
                    .iter()
                    .enumerate()
                    .filter(|&(i, _)| i < 4)
                    .map(|(i, e)| m[i] = *e)
                    .collect::<()>();
                f32::from_bits(sign | exp | u32::from_be_bytes(m) >> 9)
            }
        }

        impl From<f32> for $name {
            fn from(init: f32) -> $name {
                if init == 0. {
                    return Self::ZERO;
                }
                if init.is_infinite() || init.is_nan() {
                    return Self::NAR;
                }
                let bits = (if init.is_sign_negative() { -init } else { init }).to_bits();
                let mut mantissa = [0u8; $bits * 2 / 8];
                let _ = (bits << 9)
                    .to_be_bytes()
                    .iter()
                    .enumerate()
                    .filter(|&(i, _)| i < $bits * 2 / 8)
                    .map(|(i, e)| mantissa[i] = *e)
                    .collect::<()>();
                let (mantissa, init_exp) = match init.is_normal() {
                    true => ($guard::from_be_bytes(mantissa), (bits >> 23) as i16 - 127),
                    false => {
                        let m = $guard::from_be_bytes(mantissa);
                        let shift = m.leading_zeros() + 1;
                        (m << shift as usize, -126 - shift as i16)
                    }
                };
                let (regime, exp) = Self::regime(init_exp);
                Self::_encode(init.is_sign_negative(), regime, exp.into(), mantissa)
            }
        }

        impl From<$name> for f64 {
            fn from(init: $name) -> f64 {
                let (sign, regime, exp, mantissa): (bool, i16, $internal, $internal) =
                    match init.decode() {
                        Err(PositDecodeError::Zero) => return 0.,
                        Err(PositDecodeError::NaR) => return f64::NAN,
                        Ok(v) => v,
                    };
                let sign = if sign { 0x80000000_00000000u64 } else { 0u64 };
                let exp = $name::exp(regime, exp);
                let (exp, mantissa) = match (exp > 1023, exp < -1074, exp < -1022) {
                    (true, _, _) => return f64::MAX,
                    (_, true, _) => return f64::MIN,
                    (_, _, true) => (0u64, ((mantissa >> 1) | $nar) >> (-1023 - exp) as usize),
                    _ => (((exp + 1023) as u64) << 52, mantissa),
                };
                let mut m = [0u8; 8];
                let _ = mantissa
                    .to_be_bytes()
                    .iter()
                    .enumerate()
                    .filter(|&(i, _)| i < 8)
                    .map(|(i, e)| m[i] = *e)
                    .collect::<()>();
                f64::from_bits(sign | exp | u64::from_be_bytes(m) >> 12)
            }
        }

        impl From<f64> for $name {
            fn from(init: f64) -> $name {
                if init == 0. {
                    return Self::ZERO;
                }
                if init.is_infinite() || init.is_nan() {
                    return Self::NAR;
                }
                let bits = (if init.is_sign_negative() { -init } else { init }).to_bits();
                let mut mantissa = [0u8; $bits * 2 / 8];
                let _ = (bits << 12)
                    .to_be_bytes()
                    .iter()
                    .enumerate()
                    .filter(|&(i, _)| i < $bits * 2 / 8)
                    .map(|(i, e)| mantissa[i] = *e)
                    .collect::<()>();
                let (mantissa, init_exp) = match init.is_normal() {
                    true => ($guard::from_be_bytes(mantissa), (bits >> 52) as i16 - 1023),
                    false => {
                        let m = $guard::from_be_bytes(mantissa);
                        let shift = m.leading_zeros() + 1;
                        (m << shift as usize, -1022 - shift as i16)
                    }
                };
                let (regime, exp) = Self::regime(init_exp);
                Self::_encode(init.is_sign_negative(), regime, exp.into(), mantissa)
            }
        }
    };
}

construct_posit!(Posit8, 8, 0, u8, 0, u8::MAX, 0x80, u16, 0, u16::MAX, to_u8, into_u8);
construct_posit!(Posit16, 16, 1, u16, 0, u16::MAX, 0x8000, u32, 0, u32::MAX, to_u16, into_u16);
construct_posit!(Posit32, 32, 2, u32, 0, u32::MAX, 0x8000_0000, u64, 0, u64::MAX, to_u32, into_u32);
construct_posit!(
    Posit64,
    64,
    3,
    u64,
    0,
    u64::MAX,
    0x8000_0000_0000_0000,
    u128,
    0,
    u128::MAX,
    to_u64,
    into_u64
);
construct_posit!(
    Posit128,
    128,
    4,
    u128,
    0,
    u128::MAX,
    0x8000_0000_0000_0000_0000_0000_0000_0000,
    u256,
    u256::ZERO,
    u256::MAX,
    to_u128,
    into_u128
);
construct_posit!(
    Posit256,
    256,
    5,
    u256,
    u256::ZERO,
    u256::MAX,
    u256::from_inner([0, 0, 0, 0x8000_0000_0000_0000]),
    u512,
    u512::ZERO,
    u512::MAX,
    to_u256,
    into_u256
);
construct_posit!(
    Posit512,
    512,
    6,
    u512,
    u512::ZERO,
    u512::MAX,
    u512::from_inner([0, 0, 0, 0, 0, 0, 0, 0x8000_0000_0000_0000]),
    u1024,
    u1024::ZERO,
    u1024::MAX,
    to_u512,
    into_u512
);

