//! Stand-in for the (network only) `fixed` crate fork: 128 bit binary fixed point numbers.
//!
//! Semantics follow fixed 1.11 with `debug-assert-in-release`:
//! - arithmetic overflow panics, checked_* return None
//! - multiplication rounds towards -infinity, division truncates towards zero
//! - float conversion rounds to nearest, ties to even
//! - conversion to integers rounds down (floor)
#![allow(clippy::all)]

use core::cmp::Ordering;

pub mod wide;
use wide::*;

/// Sources for from_num() and targets for to_num() / comparisons.
///
/// Everything goes through a "exact binary" description: sign, magnitude and the number of
/// fractional bits, or a float.
#[derive(Clone, Copy, Debug)]
pub enum Exact {
    /// value = (-1)^neg * mag * 2^-frac
    Bin { neg: bool, mag: u128, frac: u32 },
    NegInf,
    PosInf,
    NaN,
}


/// Three way compare of two exact values (None when NaN)
pub fn exact_cmp(a: Exact, b: Exact) -> Option<Ordering> {
    use Exact::*;
    Some(match (a, b) {
        (NaN, _) | (_, NaN) => return None,
        (NegInf, NegInf) | (PosInf, PosInf) => Ordering::Equal,
        (NegInf, _) | (_, PosInf) => Ordering::Less,
        (PosInf, _) | (_, NegInf) => Ordering::Greater,
        (
            Bin { neg: an, mag: am, frac: af },
            Bin { neg: bn, mag: bm, frac: bf },
        ) => {
            let az = am == 0;
            let bz = bm == 0;
            if az && bz {
                return Some(Ordering::Equal);
            }
            if az {
                return Some(if bn { Ordering::Greater } else { Ordering::Less });
            }
            if bz {
                return Some(if an { Ordering::Less } else { Ordering::Greater });
            }
            if an != bn {
                return Some(if an { Ordering::Less } else { Ordering::Greater });
            }
            let m = cmp_mag(am, af, bm, bf);
            if an {
                m.reverse()
            } else {
                m
            }
        }
    })
}

/// compare am*2^-af with bm*2^-bf, both nonzero
fn cmp_mag(am: u128, af: u32, bm: u128, bf: u32) -> Ordering {
    if af == bf {
        return am.cmp(&bm);
    }
    // position of the top bit relative to the binary point
    let at = 128i64 - am.leading_zeros() as i64 - af as i64;
    let bt = 128i64 - bm.leading_zeros() as i64 - bf as i64;
    if at != bt {
        return at.cmp(&bt);
    }
    // same top bit: left-align both and compare
    (am << am.leading_zeros()).cmp(&(bm << bm.leading_zeros()))
}

pub trait ToFixed: Copy {
    fn exact(self) -> Exact;
    /// true if inexact conversions need rounding to nearest instead of floor
    const ROUND_NEAREST: bool;
}

pub trait FromFixed: Sized {
    fn from_exact_checked(e: Exact) -> Option<Self>;
    fn from_exact_saturating(e: Exact) -> Self;
    fn from_exact_wrapping(e: Exact) -> Self;
}

/// floor(mag * 2^-frac) with sign => (neg, magnitude) of the integer result
#[inline]
fn floor_int(neg: bool, mag: u128, frac: u32) -> (bool, u128) {
    if frac == 0 {
        return (neg && mag != 0, mag);
    }
    if frac >= 128 {
        let ip = 0u128;
        return if neg && mag != 0 { (true, 1) } else { (false, ip) };
    }
    let ip = mag >> frac;
    let rest = mag & ((1u128 << frac) - 1);
    if neg {
        let v = if rest != 0 { ip + 1 } else { ip };
        (v != 0, v)
    } else {
        (false, ip)
    }
}

macro_rules! impl_int {
    ($($t:ty: $signed:expr),*) => {$(
        impl ToFixed for $t {
            const ROUND_NEAREST: bool = false;
            #[inline]
            #[allow(unused_comparisons)]
            fn exact(self) -> Exact {
                let neg = self < 0;
                let mag: u128 = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                Exact::Bin { neg, mag, frac: 0 }
            }
        }
        impl FromFixed for $t {
            #[inline]
            fn from_exact_checked(e: Exact) -> Option<Self> {
                match e {
                    Exact::Bin { neg, mag, frac } => {
                        let (neg, v) = floor_int(neg, mag, frac);
                        if neg {
                            if !$signed { return None; }
                            let lim = (<$t>::MIN as i128).unsigned_abs();
                            if v > lim { return None; }
                            Some((v as i128).wrapping_neg() as $t)
                        } else {
                            if v > <$t>::MAX as u128 { return None; }
                            Some(v as $t)
                        }
                    }
                    _ => None,
                }
            }
            fn from_exact_saturating(e: Exact) -> Self {
                match Self::from_exact_checked(e) {
                    Some(v) => v,
                    None => match e {
                        Exact::Bin { neg: true, .. } | Exact::NegInf => <$t>::MIN,
                        Exact::NaN => panic!("NaN"),
                        _ => <$t>::MAX,
                    }
                }
            }
            fn from_exact_wrapping(e: Exact) -> Self {
                match e {
                    Exact::Bin { neg, mag, frac } => {
                        let (neg, v) = floor_int(neg, mag, frac);
                        if neg { (v as $t).wrapping_neg() } else { v as $t }
                    }
                    _ => panic!("not finite"),
                }
            }
        }
    )*};
}
impl_int!(i8: true, i16: true, i32: true, i64: true, i128: true, isize: true,
          u8: false, u16: false, u32: false, u64: false, u128: false, usize: false);

impl ToFixed for bool {
    const ROUND_NEAREST: bool = false;
    fn exact(self) -> Exact {
        Exact::Bin { neg: false, mag: self as u128, frac: 0 }
    }
}

fn exact_from_f64(v: f64) -> Exact {
    if v.is_nan() {
        return Exact::NaN;
    }
    if v.is_infinite() {
        return if v < 0.0 { Exact::NegInf } else { Exact::PosInf };
    }
    let bits = v.to_bits();
    let neg = (bits >> 63) != 0;
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let man = bits & ((1u64 << 52) - 1);
    let (m, e) = if exp == 0 { (man, -1074) } else { (man | (1u64 << 52), exp - 1075) };
    if m == 0 {
        return Exact::Bin { neg: false, mag: 0, frac: 0 };
    }
    if e >= 0 {
        // too large values become infinities: everything here is limited to 128 bits
        if (64 - m.leading_zeros() as i64) + e > 128 {
            return if neg { Exact::NegInf } else { Exact::PosInf };
        }
        Exact::Bin { neg, mag: (m as u128) << e, frac: 0 }
    } else {
        Exact::Bin { neg, mag: m as u128, frac: (-e) as u32 }
    }
}

fn exact_to_f64(e: Exact) -> f64 {
    match e {
        Exact::Bin { neg, mag, frac } => {
            // u128 -> f64 rounds to nearest even; the scaling is exact for normal results
            let v = mag as f64;
            let v = scale2(v, -(frac as i32));
            if neg {
                -v
            } else {
                v
            }
        }
        Exact::NegInf => f64::NEG_INFINITY,
        Exact::PosInf => f64::INFINITY,
        Exact::NaN => f64::NAN,
    }
}

fn exact_to_f32(e: Exact) -> f32 {
    match e {
        Exact::Bin { neg, mag, frac } => {
            let v = (mag as f32) as f64;
            let v = if mag > (1u128 << 127) { mag as f64 } else { v };
            let v = scale2(v, -(frac as i32)) as f32;
            if neg {
                -v
            } else {
                v
            }
        }
        Exact::NegInf => f32::NEG_INFINITY,
        Exact::PosInf => f32::INFINITY,
        Exact::NaN => f32::NAN,
    }
}

fn scale2(mut v: f64, mut e: i32) -> f64 {
    while e < -1000 {
        v *= f64::from_bits(((1023 - 1000) as u64) << 52);
        e += 1000;
    }
    v * f64::from_bits(((1023 + e) as u64) << 52)
}

impl ToFixed for f64 {
    const ROUND_NEAREST: bool = true;
    fn exact(self) -> Exact {
        exact_from_f64(self)
    }
}
impl ToFixed for f32 {
    const ROUND_NEAREST: bool = true;
    fn exact(self) -> Exact {
        exact_from_f64(self as f64)
    }
}
impl FromFixed for f64 {
    fn from_exact_checked(e: Exact) -> Option<Self> {
        Some(exact_to_f64(e))
    }
    fn from_exact_saturating(e: Exact) -> Self {
        exact_to_f64(e)
    }
    fn from_exact_wrapping(e: Exact) -> Self {
        exact_to_f64(e)
    }
}
impl FromFixed for f32 {
    fn from_exact_checked(e: Exact) -> Option<Self> {
        Some(exact_to_f32(e))
    }
    fn from_exact_saturating(e: Exact) -> Self {
        exact_to_f32(e)
    }
    fn from_exact_wrapping(e: Exact) -> Self {
        exact_to_f32(e)
    }
}

/// Scale an exact value to `frac` fractional bits: (neg, magnitude) or None on overflow of u128
#[inline]
fn rescale(e: Exact, frac: u32, nearest: bool) -> Option<(bool, u128)> {
    match e {
        Exact::Bin { neg, mag, frac: f } => {
            if mag == 0 {
                return Some((false, 0));
            }
            if f <= frac {
                let s = frac - f;
                if s > mag.leading_zeros() {
                    return None;
                }
                Some((neg, mag << s))
            } else {
                let s = f - frac;
                if nearest {
                    if s >= 128 {
                        // value < 1/2 ulp unless s == 128 and the top bit is set
                        if s == 128 && mag > (1u128 << 127) {
                            return Some((neg, 1));
                        }
                        return Some((false, 0));
                    }
                    let ip = mag >> s;
                    let rest = mag & ((1u128 << s) - 1);
                    let half = 1u128 << (s - 1);
                    let up = rest > half || (rest == half && (ip & 1) == 1);
                    let v = if up { ip.checked_add(1)? } else { ip };
                    Some((neg && v != 0, v))
                } else {
                    Some(floor_int(neg, mag, s))
                }
            }
        }
        _ => None,
    }
}

macro_rules! common_impl {
    ($F:ident, $B:ty, $frac:expr, $signed:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        #[repr(transparent)]
        pub struct $F {
            bits: $B,
        }

        impl $F {
            pub const ZERO: Self = Self { bits: 0 };
            pub const DELTA: Self = Self { bits: 1 };
            pub const ONE: Self = Self { bits: 1 << $frac };
            pub const MIN: Self = Self { bits: <$B>::MIN };
            pub const MAX: Self = Self { bits: <$B>::MAX };
            pub const FRAC_NBITS: u32 = $frac;
            pub const INT_NBITS: u32 = 128 - $frac;
            pub const IS_SIGNED: bool = $signed;

            #[inline]
            pub const fn from_bits(bits: $B) -> Self {
                Self { bits }
            }
            #[inline]
            pub const fn to_bits(self) -> $B {
                self.bits
            }
            #[inline]
            pub fn to_le_bytes(self) -> [u8; 16] {
                self.bits.to_le_bytes()
            }
            #[inline]
            pub fn from_le_bytes(b: [u8; 16]) -> Self {
                Self { bits: <$B>::from_le_bytes(b) }
            }
            #[inline]
            pub fn to_be_bytes(self) -> [u8; 16] {
                self.bits.to_be_bytes()
            }
            #[inline]
            pub fn from_be_bytes(b: [u8; 16]) -> Self {
                Self { bits: <$B>::from_be_bytes(b) }
            }
            #[inline]
            pub const fn is_zero(self) -> bool {
                self.bits == 0
            }
            #[inline]
            pub fn from_num<Src: ToFixed>(src: Src) -> Self {
                match Self::checked_from_num(src) {
                    Some(v) => v,
                    None => panic!("overflow"),
                }
            }
            pub fn unwrapped_from_num<Src: ToFixed>(src: Src) -> Self {
                Self::checked_from_num(src).expect("overflow")
            }
            pub fn saturating_from_num<Src: ToFixed>(src: Src) -> Self {
                match Self::checked_from_num(src) {
                    Some(v) => v,
                    None => match src.exact() {
                        Exact::Bin { neg: true, .. } | Exact::NegInf => Self::MIN,
                        Exact::NaN => panic!("NaN"),
                        _ => Self::MAX,
                    },
                }
            }
            #[inline]
            pub fn to_num<Dst: FromFixed>(self) -> Dst {
                match Dst::from_exact_checked(self.exact()) {
                    Some(v) => v,
                    None => panic!("overflow"),
                }
            }
            #[inline]
            pub fn checked_to_num<Dst: FromFixed>(self) -> Option<Dst> {
                Dst::from_exact_checked(self.exact())
            }
            pub fn saturating_to_num<Dst: FromFixed>(self) -> Dst {
                Dst::from_exact_saturating(self.exact())
            }
            pub fn wrapping_to_num<Dst: FromFixed>(self) -> Dst {
                Dst::from_exact_wrapping(self.exact())
            }
            pub fn unwrapped_to_num<Dst: FromFixed>(self) -> Dst {
                Dst::from_exact_checked(self.exact()).expect("overflow")
            }
            #[inline]
            pub fn checked_add(self, rhs: Self) -> Option<Self> {
                self.bits.checked_add(rhs.bits).map(Self::from_bits)
            }
            #[inline]
            pub fn checked_sub(self, rhs: Self) -> Option<Self> {
                self.bits.checked_sub(rhs.bits).map(Self::from_bits)
            }
            #[inline]
            pub fn saturating_add(self, rhs: Self) -> Self {
                Self::from_bits(self.bits.saturating_add(rhs.bits))
            }
            #[inline]
            pub fn saturating_sub(self, rhs: Self) -> Self {
                Self::from_bits(self.bits.saturating_sub(rhs.bits))
            }
            #[inline]
            pub fn wrapping_add(self, rhs: Self) -> Self {
                Self::from_bits(self.bits.wrapping_add(rhs.bits))
            }
            #[inline]
            pub fn wrapping_sub(self, rhs: Self) -> Self {
                Self::from_bits(self.bits.wrapping_sub(rhs.bits))
            }
            pub fn overflowing_add(self, rhs: Self) -> (Self, bool) {
                let (b, o) = self.bits.overflowing_add(rhs.bits);
                (Self::from_bits(b), o)
            }
            pub fn overflowing_sub(self, rhs: Self) -> (Self, bool) {
                let (b, o) = self.bits.overflowing_sub(rhs.bits);
                (Self::from_bits(b), o)
            }
            #[inline]
            pub fn checked_neg(self) -> Option<Self> {
                self.bits.checked_neg().map(Self::from_bits)
            }
            #[inline]
            pub fn checked_mul_int(self, rhs: $B) -> Option<Self> {
                self.bits.checked_mul(rhs).map(Self::from_bits)
            }
            pub fn saturating_mul_int(self, rhs: $B) -> Self {
                Self::from_bits(self.bits.saturating_mul(rhs))
            }
            pub fn wrapping_mul_int(self, rhs: $B) -> Self {
                Self::from_bits(self.bits.wrapping_mul(rhs))
            }
            #[inline]
            pub fn checked_div_int(self, rhs: $B) -> Option<Self> {
                self.bits.checked_div(rhs).map(Self::from_bits)
            }
            pub fn checked_rem(self, rhs: Self) -> Option<Self> {
                if rhs.bits == 0 {
                    return None;
                }
                Some(Self::from_bits(self.bits.wrapping_rem(rhs.bits)))
            }
            pub fn checked_recip(self) -> Option<Self> {
                Self::ONE.checked_div(self)
            }
            pub fn recip(self) -> Self {
                Self::ONE / self
            }
            pub fn saturating_mul(self, rhs: Self) -> Self {
                match self.checked_mul(rhs) {
                    Some(v) => v,
                    None => {
                        if self.is_neg_() != rhs.is_neg_() {
                            Self::MIN
                        } else {
                            Self::MAX
                        }
                    }
                }
            }
            pub fn saturating_div(self, rhs: Self) -> Self {
                if rhs.bits == 0 {
                    panic!("division by zero");
                }
                match self.checked_div(rhs) {
                    Some(v) => v,
                    None => {
                        if self.is_neg_() != rhs.is_neg_() {
                            Self::MIN
                        } else {
                            Self::MAX
                        }
                    }
                }
            }
            pub fn unwrapped_add(self, rhs: Self) -> Self {
                self.checked_add(rhs).expect("overflow")
            }
            pub fn unwrapped_sub(self, rhs: Self) -> Self {
                self.checked_sub(rhs).expect("overflow")
            }
            pub fn unwrapped_mul(self, rhs: Self) -> Self {
                self.checked_mul(rhs).expect("overflow")
            }
            pub fn unwrapped_div(self, rhs: Self) -> Self {
                self.checked_div(rhs).expect("overflow")
            }
            pub fn leading_zeros(self) -> u32 {
                self.bits.leading_zeros()
            }
            pub fn trailing_zeros(self) -> u32 {
                self.bits.trailing_zeros()
            }
            pub fn count_ones(self) -> u32 {
                self.bits.count_ones()
            }
            pub fn mul_add(self, mul: Self, add: Self) -> Self {
                self * mul + add
            }
            pub fn clamp(self, min: Self, max: Self) -> Self {
                Ord::clamp(self, min, max)
            }
            /// round towards -infinity
            #[inline]
            pub fn floor(self) -> Self {
                Self::from_bits(self.bits & !(Self::ONE.bits - 1))
            }
            #[inline]
            pub fn checked_floor(self) -> Option<Self> {
                Some(self.floor())
            }
            #[inline]
            pub fn checked_ceil(self) -> Option<Self> {
                if self.bits & (Self::ONE.bits - 1) == 0 {
                    Some(self)
                } else {
                    self.floor().checked_add(Self::ONE)
                }
            }
            #[inline]
            pub fn ceil(self) -> Self {
                self.checked_ceil().expect("overflow")
            }
            pub fn saturating_ceil(self) -> Self {
                self.checked_ceil().unwrap_or(Self::MAX)
            }
            pub fn int(self) -> Self {
                self.floor()
            }
            pub fn frac(self) -> Self {
                Self::from_bits(self.bits & (Self::ONE.bits - 1))
            }
            /// round to nearest, ties away from zero
            pub fn round(self) -> Self {
                self.checked_round().expect("overflow")
            }
            pub fn checked_round(self) -> Option<Self> {
                let half = Self::ONE.bits >> 1;
                let fl = self.floor();
                let fr = self.bits & (Self::ONE.bits - 1);
                if fr > half || (fr == half && !self.is_neg_()) {
                    fl.checked_add(Self::ONE)
                } else {
                    Some(fl)
                }
            }
            pub fn round_ties_to_even(self) -> Self {
                let half = Self::ONE.bits >> 1;
                let fl = self.floor();
                let fr = self.bits & (Self::ONE.bits - 1);
                let odd = (fl.bits >> $frac) & 1 == 1;
                if fr > half || (fr == half && odd) {
                    fl + Self::ONE
                } else {
                    fl
                }
            }
            pub fn round_to_zero(self) -> Self {
                if self.is_neg_() {
                    self.ceil()
                } else {
                    self.floor()
                }
            }
        }

        impl ToFixed for $F {
            const ROUND_NEAREST: bool = false;
            #[inline]
            fn exact(self) -> Exact {
                let (neg, mag) = self.split_();
                Exact::Bin { neg, mag, frac: $frac }
            }
        }

        impl core::ops::Add for $F {
            type Output = Self;
            #[inline]
            fn add(self, rhs: Self) -> Self {
                match self.bits.checked_add(rhs.bits) {
                    Some(b) => Self::from_bits(b),
                    None => panic!("attempt to add with overflow"),
                }
            }
        }
        impl core::ops::Sub for $F {
            type Output = Self;
            #[inline]
            fn sub(self, rhs: Self) -> Self {
                match self.bits.checked_sub(rhs.bits) {
                    Some(b) => Self::from_bits(b),
                    None => panic!("attempt to subtract with overflow"),
                }
            }
        }
        impl core::ops::Mul for $F {
            type Output = Self;
            #[inline]
            fn mul(self, rhs: Self) -> Self {
                match self.checked_mul(rhs) {
                    Some(v) => v,
                    None => panic!("overflow"),
                }
            }
        }
        impl core::ops::Div for $F {
            type Output = Self;
            #[inline]
            fn div(self, rhs: Self) -> Self {
                if rhs.bits == 0 {
                    panic!("division by zero");
                }
                match self.checked_div(rhs) {
                    Some(v) => v,
                    None => panic!("overflow"),
                }
            }
        }
        impl core::ops::Rem for $F {
            type Output = Self;
            fn rem(self, rhs: Self) -> Self {
                self.checked_rem(rhs).expect("division by zero")
            }
        }
        impl core::ops::Mul<$B> for $F {
            type Output = Self;
            fn mul(self, rhs: $B) -> Self {
                self.checked_mul_int(rhs).expect("overflow")
            }
        }
        impl core::ops::Mul<$F> for $B {
            type Output = $F;
            fn mul(self, rhs: $F) -> $F {
                rhs * self
            }
        }
        impl core::ops::Div<$B> for $F {
            type Output = Self;
            fn div(self, rhs: $B) -> Self {
                self.checked_div_int(rhs).expect("overflow")
            }
        }
        impl core::ops::BitAnd for $F {
            type Output = Self;
            fn bitand(self, r: Self) -> Self {
                Self::from_bits(self.bits & r.bits)
            }
        }
        impl core::ops::BitOr for $F {
            type Output = Self;
            fn bitor(self, r: Self) -> Self {
                Self::from_bits(self.bits | r.bits)
            }
        }
        impl core::ops::BitXor for $F {
            type Output = Self;
            fn bitxor(self, r: Self) -> Self {
                Self::from_bits(self.bits ^ r.bits)
            }
        }
        impl core::ops::Not for $F {
            type Output = Self;
            fn not(self) -> Self {
                Self::from_bits(!self.bits)
            }
        }
        ref_ops!($F, Add, add, $F);
        ref_ops!($F, Sub, sub, $F);
        ref_ops!($F, Mul, mul, $F);
        ref_ops!($F, Div, div, $F);
        ref_ops!($F, Rem, rem, $F);
        ref_ops!($F, Mul, mul, $B);
        ref_ops!($F, Div, div, $B);
        assign_ops!($F, AddAssign, add_assign, +, $F);
        assign_ops!($F, SubAssign, sub_assign, -, $F);
        assign_ops!($F, MulAssign, mul_assign, *, $F);
        assign_ops!($F, DivAssign, div_assign, /, $F);
        assign_ops!($F, RemAssign, rem_assign, %, $F);
        assign_ops!($F, MulAssign, mul_assign, *, $B);
        assign_ops!($F, DivAssign, div_assign, /, $B);

        shift_ops!($F: i8, i16, i32, i64, u8, u16, u32, u64, usize);

        impl core::iter::Sum for $F {
            fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
                iter.fold(Self::ZERO, |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $F> for $F {
            fn sum<I: Iterator<Item = &'a $F>>(iter: I) -> Self {
                iter.fold(Self::ZERO, |a, b| a + *b)
            }
        }
        impl core::iter::Product for $F {
            fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
                iter.fold(Self::ONE, |a, b| a * b)
            }
        }

        cmp_prims!($F: i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);

        impl core::fmt::Display for $F {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                let (neg, mag) = self.split_();
                fmt_fixed(neg, mag, $frac, f)
            }
        }
        impl core::fmt::Debug for $F {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                core::fmt::Display::fmt(self, f)
            }
        }
        impl core::fmt::LowerHex for $F {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                core::fmt::LowerHex::fmt(&self.bits, f)
            }
        }
        impl core::str::FromStr for $F {
            type Err = ParseFixedError;
            fn from_str(s: &str) -> Result<Self, ParseFixedError> {
                let (neg, mag) = parse_fixed(s, $frac)?;
                Self::from_split_(neg, mag).ok_or(ParseFixedError("overflow"))
            }
        }

        #[cfg(feature = "borsh")]
        impl borsh::BorshSerialize for $F {
            fn serialize<W: borsh::maybestd::io::Write>(
                &self,
                w: &mut W,
            ) -> borsh::maybestd::io::Result<()> {
                borsh::BorshSerialize::serialize(&self.bits, w)
            }
        }
        #[cfg(feature = "borsh")]
        impl borsh::BorshDeserialize for $F {
            fn deserialize_reader<R: borsh::maybestd::io::Read>(
                r: &mut R,
            ) -> borsh::maybestd::io::Result<Self> {
                Ok(Self::from_bits(<$B as borsh::BorshDeserialize>::deserialize_reader(r)?))
            }
        }
        #[cfg(feature = "serde")]
        impl serde::Serialize for $F {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.bits.serialize(s)
            }
        }
        #[cfg(feature = "serde")]
        impl<'de> serde::Deserialize<'de> for $F {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Ok(Self::from_bits(<$B as serde::Deserialize>::deserialize(d)?))
            }
        }
        #[cfg(feature = "bytemuck")]
        unsafe impl bytemuck::Zeroable for $F {}
        #[cfg(feature = "bytemuck")]
        unsafe impl bytemuck::Pod for $F {}
        #[cfg(feature = "bytemuck")]
        unsafe impl bytemuck::TransparentWrapper<$B> for $F {}
    };
}

macro_rules! ref_ops {
    ($F:ident, $Tr:ident, $m:ident, $R:ty) => {
        impl<'a> core::ops::$Tr<&'a $R> for $F {
            type Output = $F;
            #[inline]
            fn $m(self, rhs: &'a $R) -> $F {
                core::ops::$Tr::$m(self, *rhs)
            }
        }
        impl<'a> core::ops::$Tr<$R> for &'a $F {
            type Output = $F;
            #[inline]
            fn $m(self, rhs: $R) -> $F {
                core::ops::$Tr::$m(*self, rhs)
            }
        }
        impl<'a, 'b> core::ops::$Tr<&'a $R> for &'b $F {
            type Output = $F;
            #[inline]
            fn $m(self, rhs: &'a $R) -> $F {
                core::ops::$Tr::$m(*self, *rhs)
            }
        }
    };
}
macro_rules! assign_ops {
    ($F:ident, $Tr:ident, $m:ident, $op:tt, $R:ty) => {
        impl core::ops::$Tr<$R> for $F {
            #[inline]
            fn $m(&mut self, rhs: $R) {
                *self = *self $op rhs;
            }
        }
        impl<'a> core::ops::$Tr<&'a $R> for $F {
            #[inline]
            fn $m(&mut self, rhs: &'a $R) {
                *self = *self $op *rhs;
            }
        }
    };
}
macro_rules! shift_ops {
    ($F:ident: $($t:ty),*) => {$(
        impl core::ops::Shl<$t> for $F {
            type Output = Self;
            fn shl(self, r: $t) -> Self {
                Self::from_bits(self.bits << r)
            }
        }
        impl core::ops::Shr<$t> for $F {
            type Output = Self;
            fn shr(self, r: $t) -> Self {
                Self::from_bits(self.bits >> r)
            }
        }
        impl core::ops::ShlAssign<$t> for $F {
            fn shl_assign(&mut self, r: $t) {
                self.bits <<= r;
            }
        }
        impl core::ops::ShrAssign<$t> for $F {
            fn shr_assign(&mut self, r: $t) {
                self.bits >>= r;
            }
        }
    )*};
}
macro_rules! cmp_prims {
    ($F:ident: $($t:ty),*) => {$(
        impl PartialEq<$t> for $F {
            #[inline]
            fn eq(&self, o: &$t) -> bool {
                exact_cmp(self.exact(), o.exact()) == Some(Ordering::Equal)
            }
        }
        impl PartialEq<$F> for $t {
            #[inline]
            fn eq(&self, o: &$F) -> bool {
                exact_cmp(self.exact(), o.exact()) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd<$t> for $F {
            #[inline]
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                exact_cmp(self.exact(), o.exact())
            }
        }
        impl PartialOrd<$F> for $t {
            #[inline]
            fn partial_cmp(&self, o: &$F) -> Option<Ordering> {
                exact_cmp(self.exact(), o.exact())
            }
        }
    )*};
}

macro_rules! signed_fixed {
    ($F:ident, $frac:expr) => {
        common_impl!($F, i128, $frac, true);
        impl $F {
            pub const NEG_ONE: Self = Self { bits: -(1i128 << $frac) };
            #[inline]
            fn is_neg_(self) -> bool {
                self.bits < 0
            }
            #[inline]
            fn split_(self) -> (bool, u128) {
                (self.bits < 0, self.bits.unsigned_abs())
            }
            #[inline]
            fn from_split_(neg: bool, mag: u128) -> Option<Self> {
                if neg {
                    if mag > 1u128 << 127 {
                        None
                    } else {
                        Some(Self::from_bits((mag as i128).wrapping_neg()))
                    }
                } else if mag > i128::MAX as u128 {
                    None
                } else {
                    Some(Self::from_bits(mag as i128))
                }
            }
            #[inline]
            pub fn checked_from_num<Src: ToFixed>(src: Src) -> Option<Self> {
                let e = src.exact();
                let (neg, mag) = rescale(e, $frac, Src::ROUND_NEAREST)?;
                Self::from_split_(neg, mag)
            }
            #[inline]
            pub const fn is_negative(self) -> bool {
                self.bits < 0
            }
            #[inline]
            pub const fn is_positive(self) -> bool {
                self.bits > 0
            }
            #[inline]
            pub fn abs(self) -> Self {
                match self.bits.checked_abs() {
                    Some(b) => Self::from_bits(b),
                    None => panic!("attempt to negate with overflow"),
                }
            }
            pub fn checked_abs(self) -> Option<Self> {
                self.bits.checked_abs().map(Self::from_bits)
            }
            pub fn saturating_abs(self) -> Self {
                Self::from_bits(self.bits.saturating_abs())
            }
            pub fn saturating_neg(self) -> Self {
                Self::from_bits(self.bits.saturating_neg())
            }
            pub fn wrapping_neg(self) -> Self {
                Self::from_bits(self.bits.wrapping_neg())
            }
            pub fn unsigned_abs_bits(self) -> u128 {
                self.bits.unsigned_abs()
            }
            pub fn signum(self) -> Self {
                match self.bits.cmp(&0) {
                    Ordering::Less => Self::NEG_ONE,
                    Ordering::Equal => Self::ZERO,
                    Ordering::Greater => Self::ONE,
                }
            }
            pub fn abs_diff_bits(self, o: Self) -> u128 {
                self.bits.abs_diff(o.bits)
            }
            /// floor(a * b / 2^frac)
            #[inline]
            pub fn checked_mul(self, rhs: Self) -> Option<Self> {
                if let Some(p) = self.bits.checked_mul(rhs.bits) {
                    // >> on i128 rounds to -inf
                    return Some(Self::from_bits(p >> $frac));
                }
                let neg = (self.bits < 0) != (rhs.bits < 0);
                let (hi, lo) = mul_wide(self.bits.unsigned_abs(), rhs.bits.unsigned_abs());
                if hi >> $frac != 0 {
                    return None;
                }
                let mut q = (hi << (128 - $frac)) | (lo >> $frac);
                let rest = lo & ((1u128 << $frac) - 1);
                if neg && rest != 0 {
                    q = q.checked_add(1)?;
                }
                Self::from_split_(neg, q)
            }
            #[inline]
            pub fn wrapping_mul(self, rhs: Self) -> Self {
                let neg = (self.bits < 0) != (rhs.bits < 0);
                let (hi, lo) = mul_wide(self.bits.unsigned_abs(), rhs.bits.unsigned_abs());
                let mut q = (hi << (128 - $frac)) | (lo >> $frac);
                if neg {
                    if lo & ((1u128 << $frac) - 1) != 0 {
                        q = q.wrapping_add(1);
                    }
                    q = q.wrapping_neg();
                }
                Self::from_bits(q as i128)
            }
            /// trunc(a * 2^frac / b)
            #[inline]
            pub fn checked_div(self, rhs: Self) -> Option<Self> {
                if rhs.bits == 0 {
                    return None;
                }
                let neg = (self.bits < 0) != (rhs.bits < 0);
                let a = self.bits.unsigned_abs();
                let b = rhs.bits.unsigned_abs();
                if a.leading_zeros() >= $frac {
                    let q = (a << $frac) / b;
                    return Self::from_split_(neg, q);
                }
                let hi = a >> (128 - $frac);
                let lo = a << $frac;
                if hi >= b {
                    return None;
                }
                let q = div_wide(hi, lo, b);
                Self::from_split_(neg, q)
            }
        }
        impl core::ops::Neg for $F {
            type Output = Self;
            #[inline]
            fn neg(self) -> Self {
                match self.bits.checked_neg() {
                    Some(b) => Self::from_bits(b),
                    None => panic!("attempt to negate with overflow"),
                }
            }
        }
        impl<'a> core::ops::Neg for &'a $F {
            type Output = $F;
            #[inline]
            fn neg(self) -> $F {
                -*self
            }
        }
    };
}

macro_rules! unsigned_fixed {
    ($F:ident, $frac:expr) => {
        common_impl!($F, u128, $frac, false);
        impl $F {
            #[inline]
            fn is_neg_(self) -> bool {
                false
            }
            #[inline]
            fn split_(self) -> (bool, u128) {
                (false, self.bits)
            }
            #[inline]
            fn from_split_(neg: bool, mag: u128) -> Option<Self> {
                if neg && mag != 0 {
                    None
                } else {
                    Some(Self::from_bits(mag))
                }
            }
            #[inline]
            pub fn checked_from_num<Src: ToFixed>(src: Src) -> Option<Self> {
                let e = src.exact();
                let (neg, mag) = rescale(e, $frac, Src::ROUND_NEAREST)?;
                Self::from_split_(neg, mag)
            }
            #[inline]
            pub fn checked_mul(self, rhs: Self) -> Option<Self> {
                let (hi, lo) = mul_wide(self.bits, rhs.bits);
                if hi >> $frac != 0 {
                    return None;
                }
                Some(Self::from_bits((hi << (128 - $frac)) | (lo >> $frac)))
            }
            pub fn wrapping_mul(self, rhs: Self) -> Self {
                let (hi, lo) = mul_wide(self.bits, rhs.bits);
                Self::from_bits((hi << (128 - $frac)) | (lo >> $frac))
            }
            #[inline]
            pub fn checked_div(self, rhs: Self) -> Option<Self> {
                if rhs.bits == 0 {
                    return None;
                }
                let hi = self.bits >> (128 - $frac);
                let lo = self.bits << $frac;
                if hi >= rhs.bits {
                    return None;
                }
                Some(Self::from_bits(div_wide(hi, lo, rhs.bits)))
            }
        }
    };
}

signed_fixed!(I80F48, 48);
signed_fixed!(I64F64, 64);
unsigned_fixed!(U80F48, 48);
unsigned_fixed!(U64F64, 64);

macro_rules! from_ints {
    ($F:ident: $($t:ty),*) => {$(
        impl From<$t> for $F {
            #[inline]
            fn from(v: $t) -> Self {
                Self::from_num(v)
            }
        }
    )*};
}
from_ints!(I80F48: i8, i16, i32, i64, u8, u16, u32, u64, bool);
from_ints!(I64F64: i8, i16, i32, i64, u8, u16, u32, bool);
from_ints!(U80F48: u8, u16, u32, u64, bool);
from_ints!(U64F64: u8, u16, u32, u64, bool);

macro_rules! from_fixed_impl {
    ($($F:ident),*) => {$(
        impl FromFixed for $F {
            fn from_exact_checked(e: Exact) -> Option<Self> {
                let (n, m) = rescale(e, Self::FRAC_NBITS, false)?;
                Self::from_split_(n, m)
            }
            fn from_exact_saturating(e: Exact) -> Self {
                match Self::from_exact_checked(e) {
                    Some(v) => v,
                    None => match e {
                        Exact::Bin { neg: true, .. } | Exact::NegInf => Self::MIN,
                        Exact::NaN => panic!("NaN"),
                        _ => Self::MAX,
                    },
                }
            }
            fn from_exact_wrapping(e: Exact) -> Self {
                Self::from_exact_checked(e).expect("wrapping fixed-to-fixed overflow unsupported")
            }
        }
    )*};
}
from_fixed_impl!(I80F48, I64F64, U80F48, U64F64);

macro_rules! cross_cmp {
    ($A:ident, $B:ident) => {
        impl PartialEq<$B> for $A {
            fn eq(&self, o: &$B) -> bool {
                exact_cmp(self.exact(), o.exact()) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd<$B> for $A {
            fn partial_cmp(&self, o: &$B) -> Option<Ordering> {
                exact_cmp(self.exact(), o.exact())
            }
        }
    };
}
cross_cmp!(I80F48, U64F64);
cross_cmp!(U64F64, I80F48);
cross_cmp!(I80F48, I64F64);
cross_cmp!(I64F64, I80F48);
cross_cmp!(I80F48, U80F48);
cross_cmp!(U80F48, I80F48);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseFixedError(&'static str);
impl core::fmt::Display for ParseFixedError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for ParseFixedError {}

fn parse_fixed(s: &str, frac: u32) -> Result<(bool, u128), ParseFixedError> {
    let (neg, s) = if let Some(r) = s.strip_prefix('-') {
        (true, r)
    } else if let Some(r) = s.strip_prefix('+') {
        (false, r)
    } else {
        (false, s)
    };
    let (ip, fp) = match s.split_once('.') {
        Some((a, b)) => (a, b),
        None => (s, ""),
    };
    if ip.is_empty() && fp.is_empty() {
        return Err(ParseFixedError("invalid"));
    }
    let mut i: u128 = 0;
    for c in ip.chars().filter(|c| *c != '_') {
        let d = c.to_digit(10).ok_or(ParseFixedError("invalid digit"))? as u128;
        i = i
            .checked_mul(10)
            .and_then(|v| v.checked_add(d))
            .ok_or(ParseFixedError("overflow"))?;
    }
    if frac > 0 && i >> (128 - frac) != 0 {
        return Err(ParseFixedError("overflow"));
    }
    // fraction: binary expansion by repeated doubling of the decimal digits
    let mut digits: Vec<u8> = Vec::new();
    for c in fp.chars().filter(|c| *c != '_') {
        digits.push(c.to_digit(10).ok_or(ParseFixedError("invalid digit"))? as u8);
    }
    let mut f: u128 = 0;
    for _ in 0..frac {
        let mut carry = 0;
        for d in digits.iter_mut().rev() {
            let v = *d * 2 + carry;
            *d = v % 10;
            carry = v / 10;
        }
        f = (f << 1) | carry as u128;
    }
    let mut mag = (i << frac) | f;
    // round to nearest, ties to even
    let first = digits.first().copied().unwrap_or(0);
    let rest_zero = digits.iter().skip(1).all(|d| *d == 0);
    let up = first > 5 || (first == 5 && (!rest_zero || mag & 1 == 1));
    if up {
        mag = mag.checked_add(1).ok_or(ParseFixedError("overflow"))?;
    }
    Ok((neg && mag != 0, mag))
}

fn fmt_fixed(neg: bool, mag: u128, frac: u32, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    let mut ip = mag >> frac;
    let fmask = (1u128 << frac) - 1;
    let mut fp = mag & fmask;
    let maxd = match f.precision() {
        Some(p) => p,
        None => ((frac as f64) * 0.30103).ceil() as usize,
    };
    let mut digits = String::new();
    // work on up to 64 fractional bits: *10 fits
    for _ in 0..maxd {
        fp *= 10;
        let d = (fp >> frac) as u8;
        fp &= fmask;
        digits.push((b'0' + d) as char);
    }
    // round half up on the remainder
    if fp << 1 >= (1u128 << frac) && fp != 0 {
        let mut b: Vec<u8> = digits.into_bytes();
        let mut i = b.len();
        let mut carry = true;
        while carry && i > 0 {
            i -= 1;
            if b[i] == b'9' {
                b[i] = b'0';
            } else {
                b[i] += 1;
                carry = false;
            }
        }
        if carry {
            ip += 1;
        }
        digits = String::from_utf8(b).unwrap();
    }
    if f.precision().is_none() {
        while digits.ends_with('0') {
            digits.pop();
        }
    }
    let s = if digits.is_empty() { format!("{}", ip) } else { format!("{}.{}", ip, digits) };
    f.pad_integral(!neg, "", &s)
}

pub mod types {
    pub use crate::I64F64;
    pub use crate::I80F48;
    pub use crate::U64F64;
    pub use crate::U80F48;
}
pub mod traits {
    pub use crate::{FromFixed, ToFixed};
}
pub mod prelude {
    pub use crate::{FromFixed, ToFixed};
}
