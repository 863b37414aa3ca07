//! Entry points whose monomorphised MIR (together with everything they reach
//! in pgnumeric, core, alloc and std) is what the analyses read.  Nothing in
//! this crate is ever executed.
#![allow(clippy::all)]
#![allow(non_snake_case)]
use pgnumeric::*;
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;

mod ser;
pub use ser::*;

// ---------------------------------------------------------------- events
// Calls to functions named event_* are recorded by the analysis.
#[inline(never)]
pub fn event_hash_u8(_v: u8) {}
#[inline(never)]
pub fn event_hash_u16(_v: u16) {}
#[inline(never)]
pub fn event_hash_u32(_v: u32) {}
#[inline(never)]
pub fn event_hash_u64(_v: u64) {}
#[inline(never)]
pub fn event_hash_u128(_v: u128) {}
#[inline(never)]
pub fn event_hash_usize(_v: usize) {}
#[inline(never)]
pub fn event_hash_i8(_v: i8) {}
#[inline(never)]
pub fn event_hash_i16(_v: i16) {}
#[inline(never)]
pub fn event_hash_i32(_v: i32) {}
#[inline(never)]
pub fn event_hash_i64(_v: i64) {}
#[inline(never)]
pub fn event_hash_i128(_v: i128) {}
#[inline(never)]
pub fn event_hash_isize(_v: isize) {}
#[inline(never)]
pub fn event_hash_bytes(_v: &[u8]) {}

pub struct RecHasher;
impl Hasher for RecHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { event_hash_bytes(b) }
    fn write_u8(&mut self, v: u8) { event_hash_u8(v) }
    fn write_u16(&mut self, v: u16) { event_hash_u16(v) }
    fn write_u32(&mut self, v: u32) { event_hash_u32(v) }
    fn write_u64(&mut self, v: u64) { event_hash_u64(v) }
    fn write_u128(&mut self, v: u128) { event_hash_u128(v) }
    fn write_usize(&mut self, v: usize) { event_hash_usize(v) }
    fn write_i8(&mut self, v: i8) { event_hash_i8(v) }
    fn write_i16(&mut self, v: i16) { event_hash_i16(v) }
    fn write_i32(&mut self, v: i32) { event_hash_i32(v) }
    fn write_i64(&mut self, v: i64) { event_hash_i64(v) }
    fn write_i128(&mut self, v: i128) { event_hash_i128(v) }
    fn write_isize(&mut self, v: isize) { event_hash_isize(v) }
}
pub fn root_hash_n(a: &Numeric, h: &mut RecHasher) { a.hash(h) }
pub fn root_hash_b(a: &NumericBuf, h: &mut RecHasher) { a.hash(h) }

// ---------------------------------------------------------------- unary
macro_rules! un { ($($root:ident, $m:ident;)*) => { $( pub fn $root(a: &Numeric) -> NumericBuf { a.$m() } )* } }
un! {
    root_negate, negate; root_signum, signum; root_inc, inc; root_ceil, ceil; root_floor, floor;
    root_abs, abs; root_sqrt, sqrt; root_ln, ln; root_log2, log2; root_log10, log10;
    root_to_owned, to_owned;
}
macro_rules! unb { ($($root:ident, $m:ident;)*) => { $( pub fn $root(a: &NumericBuf) -> NumericBuf { a.$m() } )* } }
unb! {
    root_b_negate, negate; root_b_signum, signum; root_b_inc, inc; root_b_ceil, ceil; root_b_floor, floor;
    root_b_abs, abs; root_clone, clone;
}
pub fn root_exp(a: &Numeric) -> Option<NumericBuf> { a.exp() }
pub fn root_log(a: &Numeric, b: &Numeric) -> NumericBuf { a.log(b) }
pub fn root_pow(a: &Numeric, b: &Numeric) -> Option<NumericBuf> { a.pow(b) }
pub fn root_round(a: &Numeric, s: i32) -> NumericBuf { a.round(s) }
pub fn root_trunc(a: &Numeric, s: i32) -> NumericBuf { a.trunc(s) }
pub fn root_is_nan(a: &Numeric) -> bool { a.is_nan() }
pub fn root_is_negative(a: &Numeric) -> bool { a.is_negative() }
pub fn root_is_positive(a: &Numeric) -> bool { a.is_positive() }
pub fn root_scale(a: &Numeric) -> Option<i32> { a.scale() }
pub fn root_b_is_nan(a: &NumericBuf) -> bool { a.is_nan() }
pub fn root_b_is_negative(a: &NumericBuf) -> bool { a.is_negative() }
pub fn root_b_is_positive(a: &NumericBuf) -> bool { a.is_positive() }
pub fn root_b_scale(a: &NumericBuf) -> Option<i32> { a.scale() }
pub fn root_normalize(a: &Numeric) -> String { a.normalize() }
pub fn root_n_as_bytes(a: &Numeric) -> &[u8] { a.as_bytes() }
pub fn root_nan_ref() -> &'static Numeric { Numeric::nan() }
pub fn root_zero_ref() -> &'static Numeric { Numeric::zero() }
pub unsafe fn root_from_bytes_unchecked(b: &[u8]) -> &Numeric { Numeric::from_bytes_unchecked(b) }

// ---------------------------------------------------------------- owned
pub fn root_nan() -> NumericBuf { NumericBuf::nan() }
pub fn root_zero() -> NumericBuf { NumericBuf::zero() }
pub fn root_negate_mut(a: &mut NumericBuf) { a.negate_mut() }
pub fn root_abs_mut(a: &mut NumericBuf) { a.abs_mut() }
pub fn root_round_mut(a: &mut NumericBuf, s: i32) { a.round_mut(s) }
pub fn root_trunc_mut(a: &mut NumericBuf, s: i32) { a.trunc_mut(s) }
pub fn root_factorial(n: i64) -> Option<NumericBuf> { NumericBuf::factorial(n) }
pub fn root_apply_typmod(a: &mut NumericBuf, t: Typmod) -> bool { a.apply_typmod(t) }
pub fn root_b_as_bytes(a: &NumericBuf) -> &[u8] { a.as_bytes() }
pub fn root_as_numeric(a: &NumericBuf) -> &Numeric { a.as_numeric() }
pub fn root_deref(a: &NumericBuf) -> &Numeric { Deref::deref(a) }
pub fn root_as_ref(a: &NumericBuf) -> &Numeric { a.as_ref() }
pub fn root_borrow(a: &NumericBuf) -> &Numeric { a.borrow() }
pub fn root_drop(a: NumericBuf) { drop(a) }
pub fn root_cow_owned(a: NumericBuf) -> Cow<'static, Numeric> { a.into() }
pub fn root_cow_buf(a: &NumericBuf) -> Cow<'_, Numeric> { a.into() }
pub fn root_cow_num(a: &Numeric) -> Cow<'_, Numeric> { a.into() }

// ---------------------------------------------------------------- checked ops
macro_rules! bin { ($($root:ident, $m:ident;)*) => { $( pub fn $root(a: &Numeric, b: &Numeric) -> Option<NumericBuf> { a.$m(b) } )* } }
bin! {
    root_checked_add, checked_add; root_checked_sub, checked_sub; root_checked_mul, checked_mul;
    root_checked_div, checked_div; root_checked_div_trunc, checked_div_trunc; root_checked_rem, checked_rem;
}

// ---------------------------------------------------------------- operators
macro_rules! ops { ($($Tr:ident, $m:ident, $Ta:ident, $ma:ident, $bb:ident $br:ident $bn:ident $rb:ident $rr:ident $rn:ident $nb:ident $nr:ident $nn:ident $ab:ident $ar:ident $an:ident;)*) => { $(
    pub fn $bb(a: NumericBuf, b: NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $br(a: NumericBuf, b: &NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $bn(a: NumericBuf, b: &Numeric) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $rb(a: &NumericBuf, b: NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $rr(a: &NumericBuf, b: &NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $rn(a: &NumericBuf, b: &Numeric) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $nb(a: &Numeric, b: NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $nr(a: &Numeric, b: &NumericBuf) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $nn(a: &Numeric, b: &Numeric) -> NumericBuf { $Tr::$m(a, b) }
    pub fn $ab(a: &mut NumericBuf, b: NumericBuf) { $Ta::$ma(a, b) }
    pub fn $ar(a: &mut NumericBuf, b: &NumericBuf) { $Ta::$ma(a, b) }
    pub fn $an(a: &mut NumericBuf, b: &Numeric) { $Ta::$ma(a, b) }
)* } }
ops! {
    Add, add, AddAssign, add_assign, root_add_bb root_add_br root_add_bn root_add_rb root_add_rr root_add_rn root_add_nb root_add_nr root_add_nn root_add_assign_b root_add_assign_r root_add_assign_n;
    Sub, sub, SubAssign, sub_assign, root_sub_bb root_sub_br root_sub_bn root_sub_rb root_sub_rr root_sub_rn root_sub_nb root_sub_nr root_sub_nn root_sub_assign_b root_sub_assign_r root_sub_assign_n;
    Mul, mul, MulAssign, mul_assign, root_mul_bb root_mul_br root_mul_bn root_mul_rb root_mul_rr root_mul_rn root_mul_nb root_mul_nr root_mul_nn root_mul_assign_b root_mul_assign_r root_mul_assign_n;
    Div, div, DivAssign, div_assign, root_div_bb root_div_br root_div_bn root_div_rb root_div_rr root_div_rn root_div_nb root_div_nr root_div_nn root_div_assign_b root_div_assign_r root_div_assign_n;
    Rem, rem, RemAssign, rem_assign, root_rem_bb root_rem_br root_rem_bn root_rem_rb root_rem_rr root_rem_rn root_rem_nb root_rem_nr root_rem_nn root_rem_assign_b root_rem_assign_r root_rem_assign_n;
}
pub fn root_neg_b(a: NumericBuf) -> NumericBuf { -a }
pub fn root_neg_r(a: &NumericBuf) -> NumericBuf { -a }
pub fn root_neg_n(a: &Numeric) -> NumericBuf { -a }

// ---------------------------------------------------------------- comparisons
// Forms: b = NumericBuf, n = Numeric; x_y compares x with y; _r marks an extra reference.
macro_rules! cmps { ($($A:ty, $B:ty, $eq:ident $pc:ident $lt:ident $le:ident $gt:ident $ge:ident $ne:ident;)*) => { $(
    pub fn $eq(a: &$A, b: &$B) -> bool { PartialEq::eq(a, b) }
    pub fn $ne(a: &$A, b: &$B) -> bool { PartialEq::ne(a, b) }
    pub fn $pc(a: &$A, b: &$B) -> Option<Ordering> { PartialOrd::partial_cmp(a, b) }
    pub fn $lt(a: &$A, b: &$B) -> bool { PartialOrd::lt(a, b) }
    pub fn $le(a: &$A, b: &$B) -> bool { PartialOrd::le(a, b) }
    pub fn $gt(a: &$A, b: &$B) -> bool { PartialOrd::gt(a, b) }
    pub fn $ge(a: &$A, b: &$B) -> bool { PartialOrd::ge(a, b) }
)* } }
cmps! {
    NumericBuf, NumericBuf, root_eq_b_b root_pcmp_b_b root_lt_b_b root_le_b_b root_gt_b_b root_ge_b_b root_ne_b_b;
    Numeric, Numeric, root_eq_n_n root_pcmp_n_n root_lt_n_n root_le_n_n root_gt_n_n root_ge_n_n root_ne_n_n;
    NumericBuf, Numeric, root_eq_b_n root_pcmp_b_n root_lt_b_n root_le_b_n root_gt_b_n root_ge_b_n root_ne_b_n;
    Numeric, NumericBuf, root_eq_n_b root_pcmp_n_b root_lt_n_b root_le_n_b root_gt_n_b root_ge_n_b root_ne_n_b;
}
macro_rules! cmpr { ($($A:ty, $B:ty, $eq:ident $pc:ident;)*) => { $(
    pub fn $eq(a: &$A, b: &$B) -> bool { PartialEq::eq(a, b) }
    pub fn $pc(a: &$A, b: &$B) -> Option<Ordering> { PartialOrd::partial_cmp(a, b) }
)* } }
cmpr! {
    NumericBuf, &Numeric, root_eq_b_rn root_pcmp_b_rn;
    &Numeric, NumericBuf, root_eq_rn_b root_pcmp_rn_b;
    &Numeric, Numeric, root_eq_rn_n root_pcmp_rn_n;
    Numeric, &Numeric, root_eq_n_rn root_pcmp_n_rn;
    &NumericBuf, NumericBuf, root_eq_rb_b root_pcmp_rb_b;
    NumericBuf, &NumericBuf, root_eq_b_rb root_pcmp_b_rb;
}
pub fn root_cmp_n(a: &Numeric, b: &Numeric) -> Ordering { Ord::cmp(a, b) }
pub fn root_cmp_b(a: &NumericBuf, b: &NumericBuf) -> Ordering { Ord::cmp(a, b) }

// ---------------------------------------------------------------- text
pub fn root_fmt_n(a: &Numeric, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(a, f) }
pub fn root_fmt_b(a: &NumericBuf, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(a, f) }
pub fn root_lexp_n(a: &Numeric, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerExp::fmt(a, f) }
pub fn root_lexp_b(a: &NumericBuf, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerExp::fmt(a, f) }
pub fn root_uexp_n(a: &Numeric, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperExp::fmt(a, f) }
pub fn root_uexp_b(a: &NumericBuf, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperExp::fmt(a, f) }
pub fn root_debug_b(a: &NumericBuf, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(a, f) }
pub fn root_parse(s: &str) -> Result<NumericBuf, NumericParseError> { s.parse() }

// ---------------------------------------------------------------- integers
macro_rules! ints { ($($t:ty, $from:ident $tb:ident $tr:ident $tn:ident;)*) => { $(
    pub fn $from(v: $t) -> NumericBuf { NumericBuf::from(v) }
    pub fn $tb(a: NumericBuf) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
    pub fn $tr(a: &NumericBuf) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
    pub fn $tn(a: &Numeric) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
)* } }
ints! {
    i8, root_from_i8 root_to_i8_b root_to_i8_r root_to_i8_n;
    i16, root_from_i16 root_to_i16_b root_to_i16_r root_to_i16_n;
    i32, root_from_i32 root_to_i32_b root_to_i32_r root_to_i32_n;
    i64, root_from_i64 root_to_i64_b root_to_i64_r root_to_i64_n;
    i128, root_from_i128 root_to_i128_b root_to_i128_r root_to_i128_n;
    isize, root_from_isize root_to_isize_b root_to_isize_r root_to_isize_n;
    u8, root_from_u8 root_to_u8_b root_to_u8_r root_to_u8_n;
    u16, root_from_u16 root_to_u16_b root_to_u16_r root_to_u16_n;
    u32, root_from_u32 root_to_u32_b root_to_u32_r root_to_u32_n;
    u64, root_from_u64 root_to_u64_b root_to_u64_r root_to_u64_n;
    u128, root_from_u128 root_to_u128_b root_to_u128_r root_to_u128_n;
    usize, root_from_usize root_to_usize_b root_to_usize_r root_to_usize_n;
}
pub fn root_from_bool(v: bool) -> NumericBuf { NumericBuf::from(v) }

// ---------------------------------------------------------------- floats
macro_rules! floats { ($($t:ty, $from:ident $tb:ident $tr:ident $tn:ident;)*) => { $(
    pub fn $from(v: $t) -> Result<NumericBuf, NumericTryFromError> { NumericBuf::try_from(v) }
    pub fn $tb(a: NumericBuf) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
    pub fn $tr(a: &NumericBuf) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
    pub fn $tn(a: &Numeric) -> Result<$t, NumericTryFromError> { <$t>::try_from(a) }
)* } }
floats! {
    f32, root_from_f32 root_to_f32_b root_to_f32_r root_to_f32_n;
    f64, root_from_f64 root_to_f64_b root_to_f64_r root_to_f64_n;
}

// ---------------------------------------------------------------- typmod
pub fn root_typmod_new(p: i32, s: i32) -> Option<Typmod> { Typmod::new(p, s) }
pub fn root_typmod_with_precision(p: i32) -> Option<Typmod> { Typmod::with_precision(p) }
pub unsafe fn root_typmod_new_unchecked(p: i32, s: i32) -> Typmod { Typmod::new_unchecked(p, s) }
pub unsafe fn root_typmod_with_precision_unchecked(p: i32) -> Typmod { Typmod::with_precision_unchecked(p) }
pub unsafe fn root_typmod_from_value(v: i32) -> Typmod { Typmod::from_value_unchecked(v) }
pub fn root_typmod_value(t: Typmod) -> i32 { t.value() }
pub fn root_typmod_extract(t: Typmod) -> (i32, i32) { t.extract() }
pub fn root_typmod_default() -> Typmod { Typmod::default() }
pub fn root_typmod_eq(a: &Typmod, b: &Typmod) -> bool { a == b }
pub fn root_typmod_fmt(t: &Typmod, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(t, f) }
pub fn root_typmod_roundtrip(p: i32, s: i32) -> Option<(i32, i32)> { Typmod::new(p, s).map(|t| t.extract()) }
pub fn root_typmod_roundtrip1(p: i32) -> Option<(i32, i32)> { Typmod::with_precision(p).map(|t| t.extract()) }
pub fn root_typmod_raw(p: i32, s: i32) -> Option<i32> { Typmod::new(p, s).map(|t| t.value()) }
pub fn root_typmod_raw1(p: i32) -> Option<i32> { Typmod::with_precision(p).map(|t| t.value()) }
pub fn root_typmod_raw_default() -> i32 { Typmod::default().value() }
pub unsafe fn root_typmod_rebuild(v: i32) -> i32 { Typmod::from_value_unchecked(v).value() }
pub fn root_typmod_apply(a: &mut NumericBuf, p: i32, s: i32) -> bool {
    match Typmod::new(p, s) { Some(t) => a.apply_typmod(t), None => false }
}
pub fn root_typmod_apply_default(a: &mut NumericBuf) -> bool { a.apply_typmod(Typmod::default()) }

// ---------------------------------------------------------------- errors
pub fn root_err_parse_fmt(e: &NumericParseError, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(e, f) }
pub fn root_err_try_fmt(e: &NumericTryFromError, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(e, f) }
pub fn root_err_conv(e: NumericParseError) -> NumericTryFromError { NumericTryFromError::from(e) }
pub fn root_err_conv_float(e: std::num::ParseFloatError) -> NumericTryFromError { NumericTryFromError::from(e) }

// ---------------------------------------------------------------- round trips
pub fn root_chain_as_numeric(a: &Numeric) -> bool {
    // an owned copy observed through its borrowed view
    let b = a.to_owned();
    b.as_numeric().is_nan()
}
