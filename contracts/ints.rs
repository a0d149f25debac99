// generated by gen_ints.py
use vstd::prelude::*;
use vstd::arithmetic::power::pow;
pub assume_specification<T>[core::convert::identity](x: T) -> (r: T)
    ensures r == x,
;
pub assume_specification[u8::overflowing_add](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= (a + b) <= u8::MAX), r.0 == (if (a + b) > u8::MAX { (a + b) - 0x100 } else if (a + b) < u8::MIN { (a + b) + 0x100 } else { (a + b) }),
;
pub assume_specification[u8::overflowing_sub](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= (a - b) <= u8::MAX), r.0 == (if (a - b) > u8::MAX { (a - b) - 0x100 } else if (a - b) < u8::MIN { (a - b) + 0x100 } else { (a - b) }),
;
pub assume_specification[u8::overflowing_mul](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= a * b <= u8::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[u8::wrapping_neg](a: u8) -> (r: u8)
    ensures r == (if a == 0 { 0int } else { 0x100 - a }),
;
pub assume_specification[u8::abs_diff](a: u8, b: u8) -> (r: u8)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[u8::is_power_of_two](a: u8) -> (r: bool)
    ensures r == (a != 0 && (a & ((a - 1) as u8)) == 0),
;
pub assume_specification[u8::div_ceil](a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int),
;
pub assume_specification[u8::next_multiple_of](a: u8, b: u8) -> (r: u8)
    requires b != 0, ((a + b - 1) / (b as int)) * b <= u8::MAX,
    ensures r == ((a + b - 1) / (b as int)) * b,
;
pub assume_specification[u8::rem_euclid](a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == (a as int) % (b as int),
;
pub assume_specification[u8::div_euclid](a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == (a as int) / (b as int),
;
pub assume_specification[u8::checked_pow](a: u8, e: u32) -> (r: Option<u8>)
    ensures r is Some == (u8::MIN <= pow(a as int, e as nat) <= u8::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[u8::checked_shl](a: u8, k: u32) -> (r: Option<u8>)
    ensures r is Some == (k < 8), r is Some ==> r->0 == a << k,
;
pub assume_specification[u8::checked_shr](a: u8, k: u32) -> (r: Option<u8>)
    ensures r is Some == (k < 8), r is Some ==> r->0 == a >> k,
;
pub assume_specification[u16::overflowing_add](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= (a + b) <= u16::MAX), r.0 == (if (a + b) > u16::MAX { (a + b) - 0x10000 } else if (a + b) < u16::MIN { (a + b) + 0x10000 } else { (a + b) }),
;
pub assume_specification[u16::overflowing_sub](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= (a - b) <= u16::MAX), r.0 == (if (a - b) > u16::MAX { (a - b) - 0x10000 } else if (a - b) < u16::MIN { (a - b) + 0x10000 } else { (a - b) }),
;
pub assume_specification[u16::overflowing_mul](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= a * b <= u16::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[u16::wrapping_neg](a: u16) -> (r: u16)
    ensures r == (if a == 0 { 0int } else { 0x10000 - a }),
;
pub assume_specification[u16::abs_diff](a: u16, b: u16) -> (r: u16)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[u16::is_power_of_two](a: u16) -> (r: bool)
    ensures r == (a != 0 && (a & ((a - 1) as u16)) == 0),
;
pub assume_specification[u16::div_ceil](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int),
;
pub assume_specification[u16::next_multiple_of](a: u16, b: u16) -> (r: u16)
    requires b != 0, ((a + b - 1) / (b as int)) * b <= u16::MAX,
    ensures r == ((a + b - 1) / (b as int)) * b,
;
pub assume_specification[u16::rem_euclid](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == (a as int) % (b as int),
;
pub assume_specification[u16::div_euclid](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == (a as int) / (b as int),
;
pub assume_specification[u16::checked_pow](a: u16, e: u32) -> (r: Option<u16>)
    ensures r is Some == (u16::MIN <= pow(a as int, e as nat) <= u16::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[u16::checked_shl](a: u16, k: u32) -> (r: Option<u16>)
    ensures r is Some == (k < 16), r is Some ==> r->0 == a << k,
;
pub assume_specification[u16::checked_shr](a: u16, k: u32) -> (r: Option<u16>)
    ensures r is Some == (k < 16), r is Some ==> r->0 == a >> k,
;
pub fn u16_to_le_bytes(a: u16) -> (r: [u8; 2])
    ensures r@ == seq![(a >> 0) as u8, (a >> 8) as u8],
{ [(a >> 0) as u8, (a >> 8) as u8] }
pub fn u16_to_be_bytes(a: u16) -> (r: [u8; 2])
    ensures r@ == seq![(a >> 8) as u8, (a >> 0) as u8],
{ [(a >> 8) as u8, (a >> 0) as u8] }
pub assume_specification[u32::overflowing_add](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= (a + b) <= u32::MAX), r.0 == (if (a + b) > u32::MAX { (a + b) - 0x100000000 } else if (a + b) < u32::MIN { (a + b) + 0x100000000 } else { (a + b) }),
;
pub assume_specification[u32::overflowing_sub](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= (a - b) <= u32::MAX), r.0 == (if (a - b) > u32::MAX { (a - b) - 0x100000000 } else if (a - b) < u32::MIN { (a - b) + 0x100000000 } else { (a - b) }),
;
pub assume_specification[u32::overflowing_mul](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= a * b <= u32::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[u32::wrapping_neg](a: u32) -> (r: u32)
    ensures r == (if a == 0 { 0int } else { 0x100000000 - a }),
;
pub assume_specification[u32::abs_diff](a: u32, b: u32) -> (r: u32)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[u32::is_power_of_two](a: u32) -> (r: bool)
    ensures r == (a != 0 && (a & ((a - 1) as u32)) == 0),
;
pub assume_specification[u32::div_ceil](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int),
;
pub assume_specification[u32::next_multiple_of](a: u32, b: u32) -> (r: u32)
    requires b != 0, ((a + b - 1) / (b as int)) * b <= u32::MAX,
    ensures r == ((a + b - 1) / (b as int)) * b,
;
pub assume_specification[u32::rem_euclid](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (a as int) % (b as int),
;
pub assume_specification[u32::div_euclid](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (a as int) / (b as int),
;
pub assume_specification[u32::checked_pow](a: u32, e: u32) -> (r: Option<u32>)
    ensures r is Some == (u32::MIN <= pow(a as int, e as nat) <= u32::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[u32::checked_shl](a: u32, k: u32) -> (r: Option<u32>)
    ensures r is Some == (k < 32), r is Some ==> r->0 == a << k,
;
pub assume_specification[u32::checked_shr](a: u32, k: u32) -> (r: Option<u32>)
    ensures r is Some == (k < 32), r is Some ==> r->0 == a >> k,
;
pub fn u32_to_le_bytes(a: u32) -> (r: [u8; 4])
    ensures r@ == seq![(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8],
{ [(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8] }
pub fn u32_to_be_bytes(a: u32) -> (r: [u8; 4])
    ensures r@ == seq![(a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8],
{ [(a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8] }
pub assume_specification[u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= (a + b) <= u64::MAX), r.0 == (if (a + b) > u64::MAX { (a + b) - 0x10000000000000000 } else if (a + b) < u64::MIN { (a + b) + 0x10000000000000000 } else { (a + b) }),
;
pub assume_specification[u64::overflowing_sub](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= (a - b) <= u64::MAX), r.0 == (if (a - b) > u64::MAX { (a - b) - 0x10000000000000000 } else if (a - b) < u64::MIN { (a - b) + 0x10000000000000000 } else { (a - b) }),
;
pub assume_specification[u64::overflowing_mul](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= a * b <= u64::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[u64::wrapping_neg](a: u64) -> (r: u64)
    ensures r == (if a == 0 { 0int } else { 0x10000000000000000 - a }),
;
pub assume_specification[u64::abs_diff](a: u64, b: u64) -> (r: u64)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[u64::is_power_of_two](a: u64) -> (r: bool)
    ensures r == (a != 0 && (a & ((a - 1) as u64)) == 0),
;
pub assume_specification[u64::div_ceil](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int),
;
pub assume_specification[u64::next_multiple_of](a: u64, b: u64) -> (r: u64)
    requires b != 0, ((a + b - 1) / (b as int)) * b <= u64::MAX,
    ensures r == ((a + b - 1) / (b as int)) * b,
;
pub assume_specification[u64::rem_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a as int) % (b as int),
;
pub assume_specification[u64::div_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a as int) / (b as int),
;
pub assume_specification[u64::checked_pow](a: u64, e: u32) -> (r: Option<u64>)
    ensures r is Some == (u64::MIN <= pow(a as int, e as nat) <= u64::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[u64::checked_shl](a: u64, k: u32) -> (r: Option<u64>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a << k,
;
pub assume_specification[u64::checked_shr](a: u64, k: u32) -> (r: Option<u64>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a >> k,
;
pub fn u64_to_le_bytes(a: u64) -> (r: [u8; 8])
    ensures r@ == seq![(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8],
{ [(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8] }
pub fn u64_to_be_bytes(a: u64) -> (r: [u8; 8])
    ensures r@ == seq![(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8],
{ [(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8] }
pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= (a + b) <= usize::MAX), r.0 == (if (a + b) > usize::MAX { (a + b) - 0x10000000000000000 } else if (a + b) < usize::MIN { (a + b) + 0x10000000000000000 } else { (a + b) }),
;
pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= (a - b) <= usize::MAX), r.0 == (if (a - b) > usize::MAX { (a - b) - 0x10000000000000000 } else if (a - b) < usize::MIN { (a - b) + 0x10000000000000000 } else { (a - b) }),
;
pub assume_specification[usize::overflowing_mul](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= a * b <= usize::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[usize::wrapping_neg](a: usize) -> (r: usize)
    ensures r == (if a == 0 { 0int } else { 0x10000000000000000 - a }),
;
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[usize::is_power_of_two](a: usize) -> (r: bool)
    ensures r == (a != 0 && (a & ((a - 1) as usize)) == 0),
;
pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int),
;
pub assume_specification[usize::next_multiple_of](a: usize, b: usize) -> (r: usize)
    requires b != 0, ((a + b - 1) / (b as int)) * b <= usize::MAX,
    ensures r == ((a + b - 1) / (b as int)) * b,
;
pub assume_specification[usize::rem_euclid](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a as int) % (b as int),
;
pub assume_specification[usize::div_euclid](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a as int) / (b as int),
;
pub assume_specification[usize::checked_pow](a: usize, e: u32) -> (r: Option<usize>)
    ensures r is Some == (usize::MIN <= pow(a as int, e as nat) <= usize::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[usize::checked_shl](a: usize, k: u32) -> (r: Option<usize>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a << k,
;
pub assume_specification[usize::checked_shr](a: usize, k: u32) -> (r: Option<usize>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a >> k,
;
pub fn usize_to_le_bytes(a: usize) -> (r: [u8; 8])
    ensures r@ == seq![(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8],
{ [(a >> 0) as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8] }
pub fn usize_to_be_bytes(a: usize) -> (r: [u8; 8])
    ensures r@ == seq![(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8],
{ [(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, (a >> 0) as u8] }
pub assume_specification[i8::overflowing_add](a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= (a + b) <= i8::MAX), r.0 == (if (a + b) > i8::MAX { (a + b) - 0x100 } else if (a + b) < i8::MIN { (a + b) + 0x100 } else { (a + b) }),
;
pub assume_specification[i8::overflowing_sub](a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= (a - b) <= i8::MAX), r.0 == (if (a - b) > i8::MAX { (a - b) - 0x100 } else if (a - b) < i8::MIN { (a - b) + 0x100 } else { (a - b) }),
;
pub assume_specification[i8::overflowing_mul](a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= a * b <= i8::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[i8::saturating_add](a: i8, b: i8) -> (r: i8)
    ensures r == (if (a + b) > i8::MAX { i8::MAX as int } else if (a + b) < i8::MIN { i8::MIN as int } else { (a + b) }),
;
pub assume_specification[i8::saturating_sub](a: i8, b: i8) -> (r: i8)
    ensures r == (if (a - b) > i8::MAX { i8::MAX as int } else if (a - b) < i8::MIN { i8::MIN as int } else { (a - b) }),
;
pub assume_specification[i8::saturating_mul](a: i8, b: i8) -> (r: i8)
    ensures r == (if (a * b) > i8::MAX { i8::MAX as int } else if (a * b) < i8::MIN { i8::MIN as int } else { (a * b) }),
;
pub assume_specification[i8::wrapping_neg](a: i8) -> (r: i8)
    ensures r == (if a == i8::MIN { a as int } else { -a }),
;
pub assume_specification[i8::wrapping_abs](a: i8) -> (r: i8)
    ensures r == (if a == i8::MIN || a >= 0 { a as int } else { -a }),
;
pub assume_specification[i8::checked_neg](a: i8) -> (r: Option<i8>)
    ensures a == i8::MIN ==> r is None, a != i8::MIN ==> r is Some && r->0 == -a,
;
pub assume_specification[i8::checked_abs](a: i8) -> (r: Option<i8>)
    ensures a == i8::MIN ==> r is None, a != i8::MIN ==> r is Some && r->0 == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i8::unsigned_abs](a: i8) -> (r: u8)
    ensures r == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i8::abs_diff](a: i8, b: i8) -> (r: u8)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[i8::signum](a: i8) -> (r: i8)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }),
;
pub assume_specification[i8::is_negative](a: i8) -> (r: bool)
    ensures r == (a < 0),
;
pub assume_specification[i8::is_positive](a: i8) -> (r: bool)
    ensures r == (a > 0),
;
pub assume_specification[i8::rem_euclid](a: i8, b: i8) -> (r: i8)
    requires b != 0, !(a == i8::MIN && b == -1),
    ensures r == (a as int) % (b as int),
;
pub assume_specification[i8::div_euclid](a: i8, b: i8) -> (r: i8)
    requires b != 0, !(a == i8::MIN && b == -1),
    ensures r == (a as int) / (b as int),
;
pub assume_specification[i8::checked_pow](a: i8, e: u32) -> (r: Option<i8>)
    ensures r is Some == (i8::MIN <= pow(a as int, e as nat) <= i8::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[i8::checked_shl](a: i8, k: u32) -> (r: Option<i8>)
    ensures r is Some == (k < 8), r is Some ==> r->0 == a << k,
;
pub assume_specification[i8::checked_shr](a: i8, k: u32) -> (r: Option<i8>)
    ensures r is Some == (k < 8), r is Some ==> r->0 == a >> k,
;
pub assume_specification[i16::overflowing_add](a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= (a + b) <= i16::MAX), r.0 == (if (a + b) > i16::MAX { (a + b) - 0x10000 } else if (a + b) < i16::MIN { (a + b) + 0x10000 } else { (a + b) }),
;
pub assume_specification[i16::overflowing_sub](a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= (a - b) <= i16::MAX), r.0 == (if (a - b) > i16::MAX { (a - b) - 0x10000 } else if (a - b) < i16::MIN { (a - b) + 0x10000 } else { (a - b) }),
;
pub assume_specification[i16::overflowing_mul](a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= a * b <= i16::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[i16::saturating_add](a: i16, b: i16) -> (r: i16)
    ensures r == (if (a + b) > i16::MAX { i16::MAX as int } else if (a + b) < i16::MIN { i16::MIN as int } else { (a + b) }),
;
pub assume_specification[i16::saturating_sub](a: i16, b: i16) -> (r: i16)
    ensures r == (if (a - b) > i16::MAX { i16::MAX as int } else if (a - b) < i16::MIN { i16::MIN as int } else { (a - b) }),
;
pub assume_specification[i16::saturating_mul](a: i16, b: i16) -> (r: i16)
    ensures r == (if (a * b) > i16::MAX { i16::MAX as int } else if (a * b) < i16::MIN { i16::MIN as int } else { (a * b) }),
;
pub assume_specification[i16::wrapping_neg](a: i16) -> (r: i16)
    ensures r == (if a == i16::MIN { a as int } else { -a }),
;
pub assume_specification[i16::wrapping_abs](a: i16) -> (r: i16)
    ensures r == (if a == i16::MIN || a >= 0 { a as int } else { -a }),
;
pub assume_specification[i16::checked_neg](a: i16) -> (r: Option<i16>)
    ensures a == i16::MIN ==> r is None, a != i16::MIN ==> r is Some && r->0 == -a,
;
pub assume_specification[i16::checked_abs](a: i16) -> (r: Option<i16>)
    ensures a == i16::MIN ==> r is None, a != i16::MIN ==> r is Some && r->0 == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i16::unsigned_abs](a: i16) -> (r: u16)
    ensures r == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i16::abs_diff](a: i16, b: i16) -> (r: u16)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[i16::signum](a: i16) -> (r: i16)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }),
;
pub assume_specification[i16::is_negative](a: i16) -> (r: bool)
    ensures r == (a < 0),
;
pub assume_specification[i16::is_positive](a: i16) -> (r: bool)
    ensures r == (a > 0),
;
pub assume_specification[i16::rem_euclid](a: i16, b: i16) -> (r: i16)
    requires b != 0, !(a == i16::MIN && b == -1),
    ensures r == (a as int) % (b as int),
;
pub assume_specification[i16::div_euclid](a: i16, b: i16) -> (r: i16)
    requires b != 0, !(a == i16::MIN && b == -1),
    ensures r == (a as int) / (b as int),
;
pub assume_specification[i16::checked_pow](a: i16, e: u32) -> (r: Option<i16>)
    ensures r is Some == (i16::MIN <= pow(a as int, e as nat) <= i16::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[i16::checked_shl](a: i16, k: u32) -> (r: Option<i16>)
    ensures r is Some == (k < 16), r is Some ==> r->0 == a << k,
;
pub assume_specification[i16::checked_shr](a: i16, k: u32) -> (r: Option<i16>)
    ensures r is Some == (k < 16), r is Some ==> r->0 == a >> k,
;
pub assume_specification[i32::overflowing_add](a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= (a + b) <= i32::MAX), r.0 == (if (a + b) > i32::MAX { (a + b) - 0x100000000 } else if (a + b) < i32::MIN { (a + b) + 0x100000000 } else { (a + b) }),
;
pub assume_specification[i32::overflowing_sub](a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= (a - b) <= i32::MAX), r.0 == (if (a - b) > i32::MAX { (a - b) - 0x100000000 } else if (a - b) < i32::MIN { (a - b) + 0x100000000 } else { (a - b) }),
;
pub assume_specification[i32::overflowing_mul](a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= a * b <= i32::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[i32::saturating_add](a: i32, b: i32) -> (r: i32)
    ensures r == (if (a + b) > i32::MAX { i32::MAX as int } else if (a + b) < i32::MIN { i32::MIN as int } else { (a + b) }),
;
pub assume_specification[i32::saturating_sub](a: i32, b: i32) -> (r: i32)
    ensures r == (if (a - b) > i32::MAX { i32::MAX as int } else if (a - b) < i32::MIN { i32::MIN as int } else { (a - b) }),
;
pub assume_specification[i32::saturating_mul](a: i32, b: i32) -> (r: i32)
    ensures r == (if (a * b) > i32::MAX { i32::MAX as int } else if (a * b) < i32::MIN { i32::MIN as int } else { (a * b) }),
;
pub assume_specification[i32::wrapping_neg](a: i32) -> (r: i32)
    ensures r == (if a == i32::MIN { a as int } else { -a }),
;
pub assume_specification[i32::wrapping_abs](a: i32) -> (r: i32)
    ensures r == (if a == i32::MIN || a >= 0 { a as int } else { -a }),
;
pub assume_specification[i32::checked_neg](a: i32) -> (r: Option<i32>)
    ensures a == i32::MIN ==> r is None, a != i32::MIN ==> r is Some && r->0 == -a,
;
pub assume_specification[i32::checked_abs](a: i32) -> (r: Option<i32>)
    ensures a == i32::MIN ==> r is None, a != i32::MIN ==> r is Some && r->0 == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i32::unsigned_abs](a: i32) -> (r: u32)
    ensures r == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i32::abs_diff](a: i32, b: i32) -> (r: u32)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[i32::signum](a: i32) -> (r: i32)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }),
;
pub assume_specification[i32::is_negative](a: i32) -> (r: bool)
    ensures r == (a < 0),
;
pub assume_specification[i32::is_positive](a: i32) -> (r: bool)
    ensures r == (a > 0),
;
pub assume_specification[i32::rem_euclid](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == (a as int) % (b as int),
;
pub assume_specification[i32::div_euclid](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == (a as int) / (b as int),
;
pub assume_specification[i32::checked_pow](a: i32, e: u32) -> (r: Option<i32>)
    ensures r is Some == (i32::MIN <= pow(a as int, e as nat) <= i32::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[i32::checked_shl](a: i32, k: u32) -> (r: Option<i32>)
    ensures r is Some == (k < 32), r is Some ==> r->0 == a << k,
;
pub assume_specification[i32::checked_shr](a: i32, k: u32) -> (r: Option<i32>)
    ensures r is Some == (k < 32), r is Some ==> r->0 == a >> k,
;
pub assume_specification[i64::overflowing_add](a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= (a + b) <= i64::MAX), r.0 == (if (a + b) > i64::MAX { (a + b) - 0x10000000000000000 } else if (a + b) < i64::MIN { (a + b) + 0x10000000000000000 } else { (a + b) }),
;
pub assume_specification[i64::overflowing_sub](a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= (a - b) <= i64::MAX), r.0 == (if (a - b) > i64::MAX { (a - b) - 0x10000000000000000 } else if (a - b) < i64::MIN { (a - b) + 0x10000000000000000 } else { (a - b) }),
;
pub assume_specification[i64::overflowing_mul](a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= a * b <= i64::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[i64::saturating_add](a: i64, b: i64) -> (r: i64)
    ensures r == (if (a + b) > i64::MAX { i64::MAX as int } else if (a + b) < i64::MIN { i64::MIN as int } else { (a + b) }),
;
pub assume_specification[i64::saturating_sub](a: i64, b: i64) -> (r: i64)
    ensures r == (if (a - b) > i64::MAX { i64::MAX as int } else if (a - b) < i64::MIN { i64::MIN as int } else { (a - b) }),
;
pub assume_specification[i64::saturating_mul](a: i64, b: i64) -> (r: i64)
    ensures r == (if (a * b) > i64::MAX { i64::MAX as int } else if (a * b) < i64::MIN { i64::MIN as int } else { (a * b) }),
;
pub assume_specification[i64::wrapping_neg](a: i64) -> (r: i64)
    ensures r == (if a == i64::MIN { a as int } else { -a }),
;
pub assume_specification[i64::wrapping_abs](a: i64) -> (r: i64)
    ensures r == (if a == i64::MIN || a >= 0 { a as int } else { -a }),
;
pub assume_specification[i64::checked_neg](a: i64) -> (r: Option<i64>)
    ensures a == i64::MIN ==> r is None, a != i64::MIN ==> r is Some && r->0 == -a,
;
pub assume_specification[i64::checked_abs](a: i64) -> (r: Option<i64>)
    ensures a == i64::MIN ==> r is None, a != i64::MIN ==> r is Some && r->0 == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i64::unsigned_abs](a: i64) -> (r: u64)
    ensures r == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[i64::abs_diff](a: i64, b: i64) -> (r: u64)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[i64::signum](a: i64) -> (r: i64)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }),
;
pub assume_specification[i64::is_negative](a: i64) -> (r: bool)
    ensures r == (a < 0),
;
pub assume_specification[i64::is_positive](a: i64) -> (r: bool)
    ensures r == (a > 0),
;
pub assume_specification[i64::rem_euclid](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == (a as int) % (b as int),
;
pub assume_specification[i64::div_euclid](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == (a as int) / (b as int),
;
pub assume_specification[i64::checked_pow](a: i64, e: u32) -> (r: Option<i64>)
    ensures r is Some == (i64::MIN <= pow(a as int, e as nat) <= i64::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[i64::checked_shl](a: i64, k: u32) -> (r: Option<i64>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a << k,
;
pub assume_specification[i64::checked_shr](a: i64, k: u32) -> (r: Option<i64>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a >> k,
;
pub assume_specification[isize::overflowing_add](a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= (a + b) <= isize::MAX), r.0 == (if (a + b) > isize::MAX { (a + b) - 0x10000000000000000 } else if (a + b) < isize::MIN { (a + b) + 0x10000000000000000 } else { (a + b) }),
;
pub assume_specification[isize::overflowing_sub](a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= (a - b) <= isize::MAX), r.0 == (if (a - b) > isize::MAX { (a - b) - 0x10000000000000000 } else if (a - b) < isize::MIN { (a - b) + 0x10000000000000000 } else { (a - b) }),
;
pub assume_specification[isize::overflowing_mul](a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= a * b <= isize::MAX), !r.1 ==> r.0 == a * b,
;
pub assume_specification[isize::saturating_add](a: isize, b: isize) -> (r: isize)
    ensures r == (if (a + b) > isize::MAX { isize::MAX as int } else if (a + b) < isize::MIN { isize::MIN as int } else { (a + b) }),
;
pub assume_specification[isize::saturating_sub](a: isize, b: isize) -> (r: isize)
    ensures r == (if (a - b) > isize::MAX { isize::MAX as int } else if (a - b) < isize::MIN { isize::MIN as int } else { (a - b) }),
;
pub assume_specification[isize::saturating_mul](a: isize, b: isize) -> (r: isize)
    ensures r == (if (a * b) > isize::MAX { isize::MAX as int } else if (a * b) < isize::MIN { isize::MIN as int } else { (a * b) }),
;
pub assume_specification[isize::wrapping_neg](a: isize) -> (r: isize)
    ensures r == (if a == isize::MIN { a as int } else { -a }),
;
pub assume_specification[isize::wrapping_abs](a: isize) -> (r: isize)
    ensures r == (if a == isize::MIN || a >= 0 { a as int } else { -a }),
;
pub assume_specification[isize::checked_neg](a: isize) -> (r: Option<isize>)
    ensures a == isize::MIN ==> r is None, a != isize::MIN ==> r is Some && r->0 == -a,
;
pub assume_specification[isize::checked_abs](a: isize) -> (r: Option<isize>)
    ensures a == isize::MIN ==> r is None, a != isize::MIN ==> r is Some && r->0 == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[isize::unsigned_abs](a: isize) -> (r: usize)
    ensures r == (if a < 0 { -a } else { a as int }),
;
pub assume_specification[isize::abs_diff](a: isize, b: isize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[isize::signum](a: isize) -> (r: isize)
    ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int }),
;
pub assume_specification[isize::is_negative](a: isize) -> (r: bool)
    ensures r == (a < 0),
;
pub assume_specification[isize::is_positive](a: isize) -> (r: bool)
    ensures r == (a > 0),
;
pub assume_specification[isize::rem_euclid](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r == (a as int) % (b as int),
;
pub assume_specification[isize::div_euclid](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r == (a as int) / (b as int),
;
pub assume_specification[isize::checked_pow](a: isize, e: u32) -> (r: Option<isize>)
    ensures r is Some == (isize::MIN <= pow(a as int, e as nat) <= isize::MAX), r is Some ==> r->0 == pow(a as int, e as nat),
;
pub assume_specification[isize::checked_shl](a: isize, k: u32) -> (r: Option<isize>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a << k,
;
pub assume_specification[isize::checked_shr](a: isize, k: u32) -> (r: Option<isize>)
    ensures r is Some == (k < 64), r is Some ==> r->0 == a >> k,
;
pub assume_specification[u8::is_ascii](c: &u8) -> (r: bool)
    ensures r == (*c < 128),
;
pub assume_specification[u8::is_ascii_lowercase](c: &u8) -> (r: bool)
    ensures r == ((97 <= *c <= 122)),
;
pub assume_specification[u8::is_ascii_uppercase](c: &u8) -> (r: bool)
    ensures r == ((65 <= *c <= 90)),
;
pub assume_specification[u8::is_ascii_alphabetic](c: &u8) -> (r: bool)
    ensures r == ((97 <= *c <= 122) || (65 <= *c <= 90)),
;
pub assume_specification[u8::is_ascii_alphanumeric](c: &u8) -> (r: bool)
    ensures r == ((97 <= *c <= 122) || (65 <= *c <= 90) || (48 <= *c <= 57)),
;
pub assume_specification[u8::is_ascii_graphic](c: &u8) -> (r: bool)
    ensures r == ((33 <= *c <= 126)),
;
pub assume_specification[u8::is_ascii_control](c: &u8) -> (r: bool)
    ensures r == (*c < 32 || *c == 127),
;
pub assume_specification[u8::is_ascii_hexdigit](c: &u8) -> (r: bool)
    ensures r == ((48 <= *c <= 57) || (97 <= *c <= 102) || (65 <= *c <= 70)),
;
pub assume_specification[u8::is_ascii_punctuation](c: &u8) -> (r: bool)
    ensures r == ((33 <= *c <= 126) && !(97 <= *c <= 122) && !(65 <= *c <= 90) && !(48 <= *c <= 57)),
;
pub assume_specification[u8::is_ascii_whitespace](c: &u8) -> (r: bool)
    ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13),
;
pub assume_specification[char::is_ascii](c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 128),
;
pub assume_specification[char::is_ascii_lowercase](c: &char) -> (r: bool)
    ensures r == ((97 <= (*c as u32) <= 122)),
;
pub assume_specification[char::is_ascii_uppercase](c: &char) -> (r: bool)
    ensures r == ((65 <= (*c as u32) <= 90)),
;
pub assume_specification[char::is_ascii_alphabetic](c: &char) -> (r: bool)
    ensures r == ((97 <= (*c as u32) <= 122) || (65 <= (*c as u32) <= 90)),
;
pub assume_specification[char::is_ascii_alphanumeric](c: &char) -> (r: bool)
    ensures r == ((97 <= (*c as u32) <= 122) || (65 <= (*c as u32) <= 90) || (48 <= (*c as u32) <= 57)),
;
pub assume_specification[char::is_ascii_graphic](c: &char) -> (r: bool)
    ensures r == ((33 <= (*c as u32) <= 126)),
;
pub assume_specification[char::is_ascii_control](c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 32 || (*c as u32) == 127),
;
pub assume_specification[char::is_ascii_hexdigit](c: &char) -> (r: bool)
    ensures r == ((48 <= (*c as u32) <= 57) || (97 <= (*c as u32) <= 102) || (65 <= (*c as u32) <= 70)),
;
pub assume_specification[char::is_ascii_punctuation](c: &char) -> (r: bool)
    ensures r == ((33 <= (*c as u32) <= 126) && !(97 <= (*c as u32) <= 122) && !(65 <= (*c as u32) <= 90) && !(48 <= (*c as u32) <= 57)),
;
pub assume_specification[char::is_ascii_whitespace](c: &char) -> (r: bool)
    ensures r == ((*c as u32) == 32 || (*c as u32) == 9 || (*c as u32) == 10 || (*c as u32) == 12 || (*c as u32) == 13),
;
pub assume_specification[char::is_ascii_digit](c: &char) -> (r: bool)
    ensures r == ((48 <= (*c as u32) <= 57)),
;
pub assume_specification[u8::to_ascii_lowercase](c: &u8) -> (r: u8)
    ensures r == (if (65 <= *c <= 90) { *c + 32 } else { *c as int }),
;
pub assume_specification[u8::to_ascii_uppercase](c: &u8) -> (r: u8)
    ensures r == (if (97 <= *c <= 122) { *c - 32 } else { *c as int }),
;
