// generated by gen_bits.py
use vstd::prelude::*;
pub broadcast proof fn shl_u8_1(v: u8)
    requires v < 128u8,
    ensures #[trigger] (v << 1) == v * 2,
{ assert((v << 1) == v * 2) by(bit_vector) requires v < 128u8; }
pub broadcast proof fn shr_u8_1(v: u8)
    ensures #[trigger] (v >> 1) == v / 2,
{ assert((v >> 1) == v / 2) by(bit_vector); }
pub broadcast proof fn low_u8_1(v: u8)
    ensures #[trigger] (v & 1) == v % 2,
{ assert((v & 1) == v % 2) by(bit_vector); }
pub broadcast proof fn shl_u8_2(v: u8)
    requires v < 64u8,
    ensures #[trigger] (v << 2) == v * 4,
{ assert((v << 2) == v * 4) by(bit_vector) requires v < 64u8; }
pub broadcast proof fn shr_u8_2(v: u8)
    ensures #[trigger] (v >> 2) == v / 4,
{ assert((v >> 2) == v / 4) by(bit_vector); }
pub broadcast proof fn low_u8_2(v: u8)
    ensures #[trigger] (v & 3) == v % 4,
{ assert((v & 3) == v % 4) by(bit_vector); }
pub broadcast proof fn shl_u8_3(v: u8)
    requires v < 32u8,
    ensures #[trigger] (v << 3) == v * 8,
{ assert((v << 3) == v * 8) by(bit_vector) requires v < 32u8; }
pub broadcast proof fn shr_u8_3(v: u8)
    ensures #[trigger] (v >> 3) == v / 8,
{ assert((v >> 3) == v / 8) by(bit_vector); }
pub broadcast proof fn low_u8_3(v: u8)
    ensures #[trigger] (v & 7) == v % 8,
{ assert((v & 7) == v % 8) by(bit_vector); }
pub broadcast proof fn shl_u8_4(v: u8)
    requires v < 16u8,
    ensures #[trigger] (v << 4) == v * 16,
{ assert((v << 4) == v * 16) by(bit_vector) requires v < 16u8; }
pub broadcast proof fn shr_u8_4(v: u8)
    ensures #[trigger] (v >> 4) == v / 16,
{ assert((v >> 4) == v / 16) by(bit_vector); }
pub broadcast proof fn low_u8_4(v: u8)
    ensures #[trigger] (v & 15) == v % 16,
{ assert((v & 15) == v % 16) by(bit_vector); }
pub broadcast proof fn shl_u8_5(v: u8)
    requires v < 8u8,
    ensures #[trigger] (v << 5) == v * 32,
{ assert((v << 5) == v * 32) by(bit_vector) requires v < 8u8; }
pub broadcast proof fn shr_u8_5(v: u8)
    ensures #[trigger] (v >> 5) == v / 32,
{ assert((v >> 5) == v / 32) by(bit_vector); }
pub broadcast proof fn low_u8_5(v: u8)
    ensures #[trigger] (v & 31) == v % 32,
{ assert((v & 31) == v % 32) by(bit_vector); }
pub broadcast proof fn shl_u8_6(v: u8)
    requires v < 4u8,
    ensures #[trigger] (v << 6) == v * 64,
{ assert((v << 6) == v * 64) by(bit_vector) requires v < 4u8; }
pub broadcast proof fn shr_u8_6(v: u8)
    ensures #[trigger] (v >> 6) == v / 64,
{ assert((v >> 6) == v / 64) by(bit_vector); }
pub broadcast proof fn low_u8_6(v: u8)
    ensures #[trigger] (v & 63) == v % 64,
{ assert((v & 63) == v % 64) by(bit_vector); }
pub broadcast proof fn shl_u8_7(v: u8)
    requires v < 2u8,
    ensures #[trigger] (v << 7) == v * 128,
{ assert((v << 7) == v * 128) by(bit_vector) requires v < 2u8; }
pub broadcast proof fn shr_u8_7(v: u8)
    ensures #[trigger] (v >> 7) == v / 128,
{ assert((v >> 7) == v / 128) by(bit_vector); }
pub broadcast proof fn low_u8_7(v: u8)
    ensures #[trigger] (v & 127) == v % 128,
{ assert((v & 127) == v % 128) by(bit_vector); }
pub broadcast proof fn bit_u8_1(v: u8)
    ensures #[trigger] (v & 2) == (v / 2) % 2 * 2,
{ assert((v & 2) == (v / 2) % 2 * 2) by(bit_vector); }
pub broadcast proof fn bit_u8_2(v: u8)
    ensures #[trigger] (v & 4) == (v / 4) % 2 * 4,
{ assert((v & 4) == (v / 4) % 2 * 4) by(bit_vector); }
pub broadcast proof fn bit_u8_3(v: u8)
    ensures #[trigger] (v & 8) == (v / 8) % 2 * 8,
{ assert((v & 8) == (v / 8) % 2 * 8) by(bit_vector); }
pub broadcast proof fn bit_u8_4(v: u8)
    ensures #[trigger] (v & 16) == (v / 16) % 2 * 16,
{ assert((v & 16) == (v / 16) % 2 * 16) by(bit_vector); }
pub broadcast proof fn bit_u8_5(v: u8)
    ensures #[trigger] (v & 32) == (v / 32) % 2 * 32,
{ assert((v & 32) == (v / 32) % 2 * 32) by(bit_vector); }
pub broadcast proof fn bit_u8_6(v: u8)
    ensures #[trigger] (v & 64) == (v / 64) % 2 * 64,
{ assert((v & 64) == (v / 64) % 2 * 64) by(bit_vector); }
pub broadcast proof fn bit_u8_7(v: u8)
    ensures #[trigger] (v & 128) == (v / 128) % 2 * 128,
{ assert((v & 128) == (v / 128) % 2 * 128) by(bit_vector); }
pub broadcast proof fn shl_u16_1(v: u16)
    requires v < 32768u16,
    ensures #[trigger] (v << 1) == v * 2,
{ assert((v << 1) == v * 2) by(bit_vector) requires v < 32768u16; }
pub broadcast proof fn shr_u16_1(v: u16)
    ensures #[trigger] (v >> 1) == v / 2,
{ assert((v >> 1) == v / 2) by(bit_vector); }
pub broadcast proof fn low_u16_1(v: u16)
    ensures #[trigger] (v & 1) == v % 2,
{ assert((v & 1) == v % 2) by(bit_vector); }
pub broadcast proof fn shl_u16_2(v: u16)
    requires v < 16384u16,
    ensures #[trigger] (v << 2) == v * 4,
{ assert((v << 2) == v * 4) by(bit_vector) requires v < 16384u16; }
pub broadcast proof fn shr_u16_2(v: u16)
    ensures #[trigger] (v >> 2) == v / 4,
{ assert((v >> 2) == v / 4) by(bit_vector); }
pub broadcast proof fn low_u16_2(v: u16)
    ensures #[trigger] (v & 3) == v % 4,
{ assert((v & 3) == v % 4) by(bit_vector); }
pub broadcast proof fn shl_u16_3(v: u16)
    requires v < 8192u16,
    ensures #[trigger] (v << 3) == v * 8,
{ assert((v << 3) == v * 8) by(bit_vector) requires v < 8192u16; }
pub broadcast proof fn shr_u16_3(v: u16)
    ensures #[trigger] (v >> 3) == v / 8,
{ assert((v >> 3) == v / 8) by(bit_vector); }
pub broadcast proof fn low_u16_3(v: u16)
    ensures #[trigger] (v & 7) == v % 8,
{ assert((v & 7) == v % 8) by(bit_vector); }
pub broadcast proof fn shl_u16_4(v: u16)
    requires v < 4096u16,
    ensures #[trigger] (v << 4) == v * 16,
{ assert((v << 4) == v * 16) by(bit_vector) requires v < 4096u16; }
pub broadcast proof fn shr_u16_4(v: u16)
    ensures #[trigger] (v >> 4) == v / 16,
{ assert((v >> 4) == v / 16) by(bit_vector); }
pub broadcast proof fn low_u16_4(v: u16)
    ensures #[trigger] (v & 15) == v % 16,
{ assert((v & 15) == v % 16) by(bit_vector); }
pub broadcast proof fn shl_u16_5(v: u16)
    requires v < 2048u16,
    ensures #[trigger] (v << 5) == v * 32,
{ assert((v << 5) == v * 32) by(bit_vector) requires v < 2048u16; }
pub broadcast proof fn shr_u16_5(v: u16)
    ensures #[trigger] (v >> 5) == v / 32,
{ assert((v >> 5) == v / 32) by(bit_vector); }
pub broadcast proof fn low_u16_5(v: u16)
    ensures #[trigger] (v & 31) == v % 32,
{ assert((v & 31) == v % 32) by(bit_vector); }
pub broadcast proof fn shl_u16_6(v: u16)
    requires v < 1024u16,
    ensures #[trigger] (v << 6) == v * 64,
{ assert((v << 6) == v * 64) by(bit_vector) requires v < 1024u16; }
pub broadcast proof fn shr_u16_6(v: u16)
    ensures #[trigger] (v >> 6) == v / 64,
{ assert((v >> 6) == v / 64) by(bit_vector); }
pub broadcast proof fn low_u16_6(v: u16)
    ensures #[trigger] (v & 63) == v % 64,
{ assert((v & 63) == v % 64) by(bit_vector); }
pub broadcast proof fn shl_u16_7(v: u16)
    requires v < 512u16,
    ensures #[trigger] (v << 7) == v * 128,
{ assert((v << 7) == v * 128) by(bit_vector) requires v < 512u16; }
pub broadcast proof fn shr_u16_7(v: u16)
    ensures #[trigger] (v >> 7) == v / 128,
{ assert((v >> 7) == v / 128) by(bit_vector); }
pub broadcast proof fn low_u16_7(v: u16)
    ensures #[trigger] (v & 127) == v % 128,
{ assert((v & 127) == v % 128) by(bit_vector); }
pub broadcast proof fn shl_u16_8(v: u16)
    requires v < 256u16,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires v < 256u16; }
pub broadcast proof fn shr_u16_8(v: u16)
    ensures #[trigger] (v >> 8) == v / 256,
{ assert((v >> 8) == v / 256) by(bit_vector); }
pub broadcast proof fn low_u16_8(v: u16)
    ensures #[trigger] (v & 255) == v % 256,
{ assert((v & 255) == v % 256) by(bit_vector); }
pub broadcast proof fn bit_u16_1(v: u16)
    ensures #[trigger] (v & 2) == (v / 2) % 2 * 2,
{ assert((v & 2) == (v / 2) % 2 * 2) by(bit_vector); }
pub broadcast proof fn bit_u16_2(v: u16)
    ensures #[trigger] (v & 4) == (v / 4) % 2 * 4,
{ assert((v & 4) == (v / 4) % 2 * 4) by(bit_vector); }
pub broadcast proof fn bit_u16_3(v: u16)
    ensures #[trigger] (v & 8) == (v / 8) % 2 * 8,
{ assert((v & 8) == (v / 8) % 2 * 8) by(bit_vector); }
pub broadcast proof fn bit_u16_4(v: u16)
    ensures #[trigger] (v & 16) == (v / 16) % 2 * 16,
{ assert((v & 16) == (v / 16) % 2 * 16) by(bit_vector); }
pub broadcast proof fn bit_u16_5(v: u16)
    ensures #[trigger] (v & 32) == (v / 32) % 2 * 32,
{ assert((v & 32) == (v / 32) % 2 * 32) by(bit_vector); }
pub broadcast proof fn bit_u16_6(v: u16)
    ensures #[trigger] (v & 64) == (v / 64) % 2 * 64,
{ assert((v & 64) == (v / 64) % 2 * 64) by(bit_vector); }
pub broadcast proof fn bit_u16_7(v: u16)
    ensures #[trigger] (v & 128) == (v / 128) % 2 * 128,
{ assert((v & 128) == (v / 128) % 2 * 128) by(bit_vector); }
pub broadcast proof fn or_u16_7(v: u16, b: u16)
    requires v % 128 == 0, b < 128,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 128 == 0, b < 128; }
pub broadcast proof fn or_u16_8(v: u16, b: u16)
    requires v % 256 == 0, b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, b < 256; }
pub broadcast proof fn shl_u32_1(v: u32)
    requires v < 2147483648u32,
    ensures #[trigger] (v << 1) == v * 2,
{ assert((v << 1) == v * 2) by(bit_vector) requires v < 2147483648u32; }
pub broadcast proof fn shr_u32_1(v: u32)
    ensures #[trigger] (v >> 1) == v / 2,
{ assert((v >> 1) == v / 2) by(bit_vector); }
pub broadcast proof fn low_u32_1(v: u32)
    ensures #[trigger] (v & 1) == v % 2,
{ assert((v & 1) == v % 2) by(bit_vector); }
pub broadcast proof fn shl_u32_2(v: u32)
    requires v < 1073741824u32,
    ensures #[trigger] (v << 2) == v * 4,
{ assert((v << 2) == v * 4) by(bit_vector) requires v < 1073741824u32; }
pub broadcast proof fn shr_u32_2(v: u32)
    ensures #[trigger] (v >> 2) == v / 4,
{ assert((v >> 2) == v / 4) by(bit_vector); }
pub broadcast proof fn low_u32_2(v: u32)
    ensures #[trigger] (v & 3) == v % 4,
{ assert((v & 3) == v % 4) by(bit_vector); }
pub broadcast proof fn shl_u32_3(v: u32)
    requires v < 536870912u32,
    ensures #[trigger] (v << 3) == v * 8,
{ assert((v << 3) == v * 8) by(bit_vector) requires v < 536870912u32; }
pub broadcast proof fn shr_u32_3(v: u32)
    ensures #[trigger] (v >> 3) == v / 8,
{ assert((v >> 3) == v / 8) by(bit_vector); }
pub broadcast proof fn low_u32_3(v: u32)
    ensures #[trigger] (v & 7) == v % 8,
{ assert((v & 7) == v % 8) by(bit_vector); }
pub broadcast proof fn shl_u32_4(v: u32)
    requires v < 268435456u32,
    ensures #[trigger] (v << 4) == v * 16,
{ assert((v << 4) == v * 16) by(bit_vector) requires v < 268435456u32; }
pub broadcast proof fn shr_u32_4(v: u32)
    ensures #[trigger] (v >> 4) == v / 16,
{ assert((v >> 4) == v / 16) by(bit_vector); }
pub broadcast proof fn low_u32_4(v: u32)
    ensures #[trigger] (v & 15) == v % 16,
{ assert((v & 15) == v % 16) by(bit_vector); }
pub broadcast proof fn shl_u32_5(v: u32)
    requires v < 134217728u32,
    ensures #[trigger] (v << 5) == v * 32,
{ assert((v << 5) == v * 32) by(bit_vector) requires v < 134217728u32; }
pub broadcast proof fn shr_u32_5(v: u32)
    ensures #[trigger] (v >> 5) == v / 32,
{ assert((v >> 5) == v / 32) by(bit_vector); }
pub broadcast proof fn low_u32_5(v: u32)
    ensures #[trigger] (v & 31) == v % 32,
{ assert((v & 31) == v % 32) by(bit_vector); }
pub broadcast proof fn shl_u32_6(v: u32)
    requires v < 67108864u32,
    ensures #[trigger] (v << 6) == v * 64,
{ assert((v << 6) == v * 64) by(bit_vector) requires v < 67108864u32; }
pub broadcast proof fn shr_u32_6(v: u32)
    ensures #[trigger] (v >> 6) == v / 64,
{ assert((v >> 6) == v / 64) by(bit_vector); }
pub broadcast proof fn low_u32_6(v: u32)
    ensures #[trigger] (v & 63) == v % 64,
{ assert((v & 63) == v % 64) by(bit_vector); }
pub broadcast proof fn shl_u32_7(v: u32)
    requires v < 33554432u32,
    ensures #[trigger] (v << 7) == v * 128,
{ assert((v << 7) == v * 128) by(bit_vector) requires v < 33554432u32; }
pub broadcast proof fn shr_u32_7(v: u32)
    ensures #[trigger] (v >> 7) == v / 128,
{ assert((v >> 7) == v / 128) by(bit_vector); }
pub broadcast proof fn low_u32_7(v: u32)
    ensures #[trigger] (v & 127) == v % 128,
{ assert((v & 127) == v % 128) by(bit_vector); }
pub broadcast proof fn shl_u32_8(v: u32)
    requires v < 16777216u32,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires v < 16777216u32; }
pub broadcast proof fn shr_u32_8(v: u32)
    ensures #[trigger] (v >> 8) == v / 256,
{ assert((v >> 8) == v / 256) by(bit_vector); }
pub broadcast proof fn low_u32_8(v: u32)
    ensures #[trigger] (v & 255) == v % 256,
{ assert((v & 255) == v % 256) by(bit_vector); }
pub broadcast proof fn shl_u32_16(v: u32)
    requires v < 65536u32,
    ensures #[trigger] (v << 16) == v * 65536,
{ assert((v << 16) == v * 65536) by(bit_vector) requires v < 65536u32; }
pub broadcast proof fn shr_u32_16(v: u32)
    ensures #[trigger] (v >> 16) == v / 65536,
{ assert((v >> 16) == v / 65536) by(bit_vector); }
pub broadcast proof fn low_u32_16(v: u32)
    ensures #[trigger] (v & 65535) == v % 65536,
{ assert((v & 65535) == v % 65536) by(bit_vector); }
pub broadcast proof fn shl_u32_24(v: u32)
    requires v < 256u32,
    ensures #[trigger] (v << 24) == v * 16777216,
{ assert((v << 24) == v * 16777216) by(bit_vector) requires v < 256u32; }
pub broadcast proof fn shr_u32_24(v: u32)
    ensures #[trigger] (v >> 24) == v / 16777216,
{ assert((v >> 24) == v / 16777216) by(bit_vector); }
pub broadcast proof fn low_u32_24(v: u32)
    ensures #[trigger] (v & 16777215) == v % 16777216,
{ assert((v & 16777215) == v % 16777216) by(bit_vector); }
pub broadcast proof fn bit_u32_1(v: u32)
    ensures #[trigger] (v & 2) == (v / 2) % 2 * 2,
{ assert((v & 2) == (v / 2) % 2 * 2) by(bit_vector); }
pub broadcast proof fn bit_u32_2(v: u32)
    ensures #[trigger] (v & 4) == (v / 4) % 2 * 4,
{ assert((v & 4) == (v / 4) % 2 * 4) by(bit_vector); }
pub broadcast proof fn bit_u32_3(v: u32)
    ensures #[trigger] (v & 8) == (v / 8) % 2 * 8,
{ assert((v & 8) == (v / 8) % 2 * 8) by(bit_vector); }
pub broadcast proof fn bit_u32_4(v: u32)
    ensures #[trigger] (v & 16) == (v / 16) % 2 * 16,
{ assert((v & 16) == (v / 16) % 2 * 16) by(bit_vector); }
pub broadcast proof fn bit_u32_5(v: u32)
    ensures #[trigger] (v & 32) == (v / 32) % 2 * 32,
{ assert((v & 32) == (v / 32) % 2 * 32) by(bit_vector); }
pub broadcast proof fn bit_u32_6(v: u32)
    ensures #[trigger] (v & 64) == (v / 64) % 2 * 64,
{ assert((v & 64) == (v / 64) % 2 * 64) by(bit_vector); }
pub broadcast proof fn bit_u32_7(v: u32)
    ensures #[trigger] (v & 128) == (v / 128) % 2 * 128,
{ assert((v & 128) == (v / 128) % 2 * 128) by(bit_vector); }
pub broadcast proof fn or_u32_7(v: u32, b: u32)
    requires v % 128 == 0, b < 128,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 128 == 0, b < 128; }
pub broadcast proof fn or_u32_8(v: u32, b: u32)
    requires v % 256 == 0, b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, b < 256; }
pub broadcast proof fn or_u32_16(v: u32, b: u32)
    requires v % 65536 == 0, b < 65536,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 65536 == 0, b < 65536; }
pub broadcast proof fn or_u32_24(v: u32, b: u32)
    requires v % 16777216 == 0, b < 16777216,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 16777216 == 0, b < 16777216; }
pub broadcast proof fn shl_u64_1(v: u64)
    requires v < 9223372036854775808u64,
    ensures #[trigger] (v << 1) == v * 2,
{ assert((v << 1) == v * 2) by(bit_vector) requires v < 9223372036854775808u64; }
pub broadcast proof fn shr_u64_1(v: u64)
    ensures #[trigger] (v >> 1) == v / 2,
{ assert((v >> 1) == v / 2) by(bit_vector); }
pub broadcast proof fn low_u64_1(v: u64)
    ensures #[trigger] (v & 1) == v % 2,
{ assert((v & 1) == v % 2) by(bit_vector); }
pub broadcast proof fn shl_u64_2(v: u64)
    requires v < 4611686018427387904u64,
    ensures #[trigger] (v << 2) == v * 4,
{ assert((v << 2) == v * 4) by(bit_vector) requires v < 4611686018427387904u64; }
pub broadcast proof fn shr_u64_2(v: u64)
    ensures #[trigger] (v >> 2) == v / 4,
{ assert((v >> 2) == v / 4) by(bit_vector); }
pub broadcast proof fn low_u64_2(v: u64)
    ensures #[trigger] (v & 3) == v % 4,
{ assert((v & 3) == v % 4) by(bit_vector); }
pub broadcast proof fn shl_u64_3(v: u64)
    requires v < 2305843009213693952u64,
    ensures #[trigger] (v << 3) == v * 8,
{ assert((v << 3) == v * 8) by(bit_vector) requires v < 2305843009213693952u64; }
pub broadcast proof fn shr_u64_3(v: u64)
    ensures #[trigger] (v >> 3) == v / 8,
{ assert((v >> 3) == v / 8) by(bit_vector); }
pub broadcast proof fn low_u64_3(v: u64)
    ensures #[trigger] (v & 7) == v % 8,
{ assert((v & 7) == v % 8) by(bit_vector); }
pub broadcast proof fn shl_u64_4(v: u64)
    requires v < 1152921504606846976u64,
    ensures #[trigger] (v << 4) == v * 16,
{ assert((v << 4) == v * 16) by(bit_vector) requires v < 1152921504606846976u64; }
pub broadcast proof fn shr_u64_4(v: u64)
    ensures #[trigger] (v >> 4) == v / 16,
{ assert((v >> 4) == v / 16) by(bit_vector); }
pub broadcast proof fn low_u64_4(v: u64)
    ensures #[trigger] (v & 15) == v % 16,
{ assert((v & 15) == v % 16) by(bit_vector); }
pub broadcast proof fn shl_u64_5(v: u64)
    requires v < 576460752303423488u64,
    ensures #[trigger] (v << 5) == v * 32,
{ assert((v << 5) == v * 32) by(bit_vector) requires v < 576460752303423488u64; }
pub broadcast proof fn shr_u64_5(v: u64)
    ensures #[trigger] (v >> 5) == v / 32,
{ assert((v >> 5) == v / 32) by(bit_vector); }
pub broadcast proof fn low_u64_5(v: u64)
    ensures #[trigger] (v & 31) == v % 32,
{ assert((v & 31) == v % 32) by(bit_vector); }
pub broadcast proof fn shl_u64_6(v: u64)
    requires v < 288230376151711744u64,
    ensures #[trigger] (v << 6) == v * 64,
{ assert((v << 6) == v * 64) by(bit_vector) requires v < 288230376151711744u64; }
pub broadcast proof fn shr_u64_6(v: u64)
    ensures #[trigger] (v >> 6) == v / 64,
{ assert((v >> 6) == v / 64) by(bit_vector); }
pub broadcast proof fn low_u64_6(v: u64)
    ensures #[trigger] (v & 63) == v % 64,
{ assert((v & 63) == v % 64) by(bit_vector); }
pub broadcast proof fn shl_u64_7(v: u64)
    requires v < 144115188075855872u64,
    ensures #[trigger] (v << 7) == v * 128,
{ assert((v << 7) == v * 128) by(bit_vector) requires v < 144115188075855872u64; }
pub broadcast proof fn shr_u64_7(v: u64)
    ensures #[trigger] (v >> 7) == v / 128,
{ assert((v >> 7) == v / 128) by(bit_vector); }
pub broadcast proof fn low_u64_7(v: u64)
    ensures #[trigger] (v & 127) == v % 128,
{ assert((v & 127) == v % 128) by(bit_vector); }
pub broadcast proof fn shl_u64_8(v: u64)
    requires v < 72057594037927936u64,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires v < 72057594037927936u64; }
pub broadcast proof fn shr_u64_8(v: u64)
    ensures #[trigger] (v >> 8) == v / 256,
{ assert((v >> 8) == v / 256) by(bit_vector); }
pub broadcast proof fn low_u64_8(v: u64)
    ensures #[trigger] (v & 255) == v % 256,
{ assert((v & 255) == v % 256) by(bit_vector); }
pub broadcast proof fn shl_u64_16(v: u64)
    requires v < 281474976710656u64,
    ensures #[trigger] (v << 16) == v * 65536,
{ assert((v << 16) == v * 65536) by(bit_vector) requires v < 281474976710656u64; }
pub broadcast proof fn shr_u64_16(v: u64)
    ensures #[trigger] (v >> 16) == v / 65536,
{ assert((v >> 16) == v / 65536) by(bit_vector); }
pub broadcast proof fn low_u64_16(v: u64)
    ensures #[trigger] (v & 65535) == v % 65536,
{ assert((v & 65535) == v % 65536) by(bit_vector); }
pub broadcast proof fn shl_u64_24(v: u64)
    requires v < 1099511627776u64,
    ensures #[trigger] (v << 24) == v * 16777216,
{ assert((v << 24) == v * 16777216) by(bit_vector) requires v < 1099511627776u64; }
pub broadcast proof fn shr_u64_24(v: u64)
    ensures #[trigger] (v >> 24) == v / 16777216,
{ assert((v >> 24) == v / 16777216) by(bit_vector); }
pub broadcast proof fn low_u64_24(v: u64)
    ensures #[trigger] (v & 16777215) == v % 16777216,
{ assert((v & 16777215) == v % 16777216) by(bit_vector); }
pub broadcast proof fn bit_u64_1(v: u64)
    ensures #[trigger] (v & 2) == (v / 2) % 2 * 2,
{ assert((v & 2) == (v / 2) % 2 * 2) by(bit_vector); }
pub broadcast proof fn bit_u64_2(v: u64)
    ensures #[trigger] (v & 4) == (v / 4) % 2 * 4,
{ assert((v & 4) == (v / 4) % 2 * 4) by(bit_vector); }
pub broadcast proof fn bit_u64_3(v: u64)
    ensures #[trigger] (v & 8) == (v / 8) % 2 * 8,
{ assert((v & 8) == (v / 8) % 2 * 8) by(bit_vector); }
pub broadcast proof fn bit_u64_4(v: u64)
    ensures #[trigger] (v & 16) == (v / 16) % 2 * 16,
{ assert((v & 16) == (v / 16) % 2 * 16) by(bit_vector); }
pub broadcast proof fn bit_u64_5(v: u64)
    ensures #[trigger] (v & 32) == (v / 32) % 2 * 32,
{ assert((v & 32) == (v / 32) % 2 * 32) by(bit_vector); }
pub broadcast proof fn bit_u64_6(v: u64)
    ensures #[trigger] (v & 64) == (v / 64) % 2 * 64,
{ assert((v & 64) == (v / 64) % 2 * 64) by(bit_vector); }
pub broadcast proof fn bit_u64_7(v: u64)
    ensures #[trigger] (v & 128) == (v / 128) % 2 * 128,
{ assert((v & 128) == (v / 128) % 2 * 128) by(bit_vector); }
pub broadcast proof fn or_u64_7(v: u64, b: u64)
    requires v % 128 == 0, b < 128,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 128 == 0, b < 128; }
pub broadcast proof fn or_u64_8(v: u64, b: u64)
    requires v % 256 == 0, b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, b < 256; }
pub broadcast proof fn or_u64_16(v: u64, b: u64)
    requires v % 65536 == 0, b < 65536,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 65536 == 0, b < 65536; }
pub broadcast proof fn or_u64_24(v: u64, b: u64)
    requires v % 16777216 == 0, b < 16777216,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 16777216 == 0, b < 16777216; }
pub broadcast proof fn shl_usize_1(v: usize)
    requires v < 9223372036854775808usize,
    ensures #[trigger] (v << 1) == v * 2,
{ assert((v << 1) == v * 2) by(bit_vector) requires v < 9223372036854775808usize; }
pub broadcast proof fn shr_usize_1(v: usize)
    ensures #[trigger] (v >> 1) == v / 2,
{ assert((v >> 1) == v / 2) by(bit_vector); }
pub broadcast proof fn low_usize_1(v: usize)
    ensures #[trigger] (v & 1) == v % 2,
{ assert((v & 1) == v % 2) by(bit_vector); }
pub broadcast proof fn shl_usize_2(v: usize)
    requires v < 4611686018427387904usize,
    ensures #[trigger] (v << 2) == v * 4,
{ assert((v << 2) == v * 4) by(bit_vector) requires v < 4611686018427387904usize; }
pub broadcast proof fn shr_usize_2(v: usize)
    ensures #[trigger] (v >> 2) == v / 4,
{ assert((v >> 2) == v / 4) by(bit_vector); }
pub broadcast proof fn low_usize_2(v: usize)
    ensures #[trigger] (v & 3) == v % 4,
{ assert((v & 3) == v % 4) by(bit_vector); }
pub broadcast proof fn shl_usize_3(v: usize)
    requires v < 2305843009213693952usize,
    ensures #[trigger] (v << 3) == v * 8,
{ assert((v << 3) == v * 8) by(bit_vector) requires v < 2305843009213693952usize; }
pub broadcast proof fn shr_usize_3(v: usize)
    ensures #[trigger] (v >> 3) == v / 8,
{ assert((v >> 3) == v / 8) by(bit_vector); }
pub broadcast proof fn low_usize_3(v: usize)
    ensures #[trigger] (v & 7) == v % 8,
{ assert((v & 7) == v % 8) by(bit_vector); }
pub broadcast proof fn shl_usize_4(v: usize)
    requires v < 1152921504606846976usize,
    ensures #[trigger] (v << 4) == v * 16,
{ assert((v << 4) == v * 16) by(bit_vector) requires v < 1152921504606846976usize; }
pub broadcast proof fn shr_usize_4(v: usize)
    ensures #[trigger] (v >> 4) == v / 16,
{ assert((v >> 4) == v / 16) by(bit_vector); }
pub broadcast proof fn low_usize_4(v: usize)
    ensures #[trigger] (v & 15) == v % 16,
{ assert((v & 15) == v % 16) by(bit_vector); }
pub broadcast proof fn shl_usize_5(v: usize)
    requires v < 576460752303423488usize,
    ensures #[trigger] (v << 5) == v * 32,
{ assert((v << 5) == v * 32) by(bit_vector) requires v < 576460752303423488usize; }
pub broadcast proof fn shr_usize_5(v: usize)
    ensures #[trigger] (v >> 5) == v / 32,
{ assert((v >> 5) == v / 32) by(bit_vector); }
pub broadcast proof fn low_usize_5(v: usize)
    ensures #[trigger] (v & 31) == v % 32,
{ assert((v & 31) == v % 32) by(bit_vector); }
pub broadcast proof fn shl_usize_6(v: usize)
    requires v < 288230376151711744usize,
    ensures #[trigger] (v << 6) == v * 64,
{ assert((v << 6) == v * 64) by(bit_vector) requires v < 288230376151711744usize; }
pub broadcast proof fn shr_usize_6(v: usize)
    ensures #[trigger] (v >> 6) == v / 64,
{ assert((v >> 6) == v / 64) by(bit_vector); }
pub broadcast proof fn low_usize_6(v: usize)
    ensures #[trigger] (v & 63) == v % 64,
{ assert((v & 63) == v % 64) by(bit_vector); }
pub broadcast proof fn shl_usize_7(v: usize)
    requires v < 144115188075855872usize,
    ensures #[trigger] (v << 7) == v * 128,
{ assert((v << 7) == v * 128) by(bit_vector) requires v < 144115188075855872usize; }
pub broadcast proof fn shr_usize_7(v: usize)
    ensures #[trigger] (v >> 7) == v / 128,
{ assert((v >> 7) == v / 128) by(bit_vector); }
pub broadcast proof fn low_usize_7(v: usize)
    ensures #[trigger] (v & 127) == v % 128,
{ assert((v & 127) == v % 128) by(bit_vector); }
pub broadcast proof fn shl_usize_8(v: usize)
    requires v < 72057594037927936usize,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires v < 72057594037927936usize; }
pub broadcast proof fn shr_usize_8(v: usize)
    ensures #[trigger] (v >> 8) == v / 256,
{ assert((v >> 8) == v / 256) by(bit_vector); }
pub broadcast proof fn low_usize_8(v: usize)
    ensures #[trigger] (v & 255) == v % 256,
{ assert((v & 255) == v % 256) by(bit_vector); }
pub broadcast proof fn shl_usize_16(v: usize)
    requires v < 281474976710656usize,
    ensures #[trigger] (v << 16) == v * 65536,
{ assert((v << 16) == v * 65536) by(bit_vector) requires v < 281474976710656usize; }
pub broadcast proof fn shr_usize_16(v: usize)
    ensures #[trigger] (v >> 16) == v / 65536,
{ assert((v >> 16) == v / 65536) by(bit_vector); }
pub broadcast proof fn low_usize_16(v: usize)
    ensures #[trigger] (v & 65535) == v % 65536,
{ assert((v & 65535) == v % 65536) by(bit_vector); }
pub broadcast proof fn shl_usize_24(v: usize)
    requires v < 1099511627776usize,
    ensures #[trigger] (v << 24) == v * 16777216,
{ assert((v << 24) == v * 16777216) by(bit_vector) requires v < 1099511627776usize; }
pub broadcast proof fn shr_usize_24(v: usize)
    ensures #[trigger] (v >> 24) == v / 16777216,
{ assert((v >> 24) == v / 16777216) by(bit_vector); }
pub broadcast proof fn low_usize_24(v: usize)
    ensures #[trigger] (v & 16777215) == v % 16777216,
{ assert((v & 16777215) == v % 16777216) by(bit_vector); }
pub broadcast proof fn bit_usize_1(v: usize)
    ensures #[trigger] (v & 2) == (v / 2) % 2 * 2,
{ assert((v & 2) == (v / 2) % 2 * 2) by(bit_vector); }
pub broadcast proof fn bit_usize_2(v: usize)
    ensures #[trigger] (v & 4) == (v / 4) % 2 * 4,
{ assert((v & 4) == (v / 4) % 2 * 4) by(bit_vector); }
pub broadcast proof fn bit_usize_3(v: usize)
    ensures #[trigger] (v & 8) == (v / 8) % 2 * 8,
{ assert((v & 8) == (v / 8) % 2 * 8) by(bit_vector); }
pub broadcast proof fn bit_usize_4(v: usize)
    ensures #[trigger] (v & 16) == (v / 16) % 2 * 16,
{ assert((v & 16) == (v / 16) % 2 * 16) by(bit_vector); }
pub broadcast proof fn bit_usize_5(v: usize)
    ensures #[trigger] (v & 32) == (v / 32) % 2 * 32,
{ assert((v & 32) == (v / 32) % 2 * 32) by(bit_vector); }
pub broadcast proof fn bit_usize_6(v: usize)
    ensures #[trigger] (v & 64) == (v / 64) % 2 * 64,
{ assert((v & 64) == (v / 64) % 2 * 64) by(bit_vector); }
pub broadcast proof fn bit_usize_7(v: usize)
    ensures #[trigger] (v & 128) == (v / 128) % 2 * 128,
{ assert((v & 128) == (v / 128) % 2 * 128) by(bit_vector); }
pub broadcast proof fn or_usize_7(v: usize, b: usize)
    requires v % 128 == 0, b < 128,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 128 == 0, b < 128; }
pub broadcast proof fn or_usize_8(v: usize, b: usize)
    requires v % 256 == 0, b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, b < 256; }
pub broadcast proof fn or_usize_16(v: usize, b: usize)
    requires v % 65536 == 0, b < 65536,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 65536 == 0, b < 65536; }
pub broadcast proof fn or_usize_24(v: usize, b: usize)
    requires v % 16777216 == 0, b < 16777216,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 16777216 == 0, b < 16777216; }
pub broadcast proof fn one_u8(n: u64)
    requires n < 8,
    ensures n == 0 ==> #[trigger] (1u8 << n) == 1u8, n == 1 ==> (1u8 << n) == 2u8, n == 2 ==> (1u8 << n) == 4u8, n == 3 ==> (1u8 << n) == 8u8, n == 4 ==> (1u8 << n) == 16u8, n == 5 ==> (1u8 << n) == 32u8, n == 6 ==> (1u8 << n) == 64u8, n == 7 ==> (1u8 << n) == 128u8,
{ assert((1u8 << 0u64) == 1u8 && (1u8 << 1u64) == 2u8 && (1u8 << 2u64) == 4u8 && (1u8 << 3u64) == 8u8 && (1u8 << 4u64) == 16u8 && (1u8 << 5u64) == 32u8 && (1u8 << 6u64) == 64u8 && (1u8 << 7u64) == 128u8) by(bit_vector); }
pub broadcast proof fn one_u16(n: u64)
    requires n < 16,
    ensures n == 0 ==> #[trigger] (1u16 << n) == 1u16, n == 1 ==> (1u16 << n) == 2u16, n == 2 ==> (1u16 << n) == 4u16, n == 3 ==> (1u16 << n) == 8u16, n == 4 ==> (1u16 << n) == 16u16, n == 5 ==> (1u16 << n) == 32u16, n == 6 ==> (1u16 << n) == 64u16, n == 7 ==> (1u16 << n) == 128u16, n == 8 ==> (1u16 << n) == 256u16, n == 9 ==> (1u16 << n) == 512u16, n == 10 ==> (1u16 << n) == 1024u16, n == 11 ==> (1u16 << n) == 2048u16, n == 12 ==> (1u16 << n) == 4096u16, n == 13 ==> (1u16 << n) == 8192u16, n == 14 ==> (1u16 << n) == 16384u16, n == 15 ==> (1u16 << n) == 32768u16,
{ assert((1u16 << 0u64) == 1u16 && (1u16 << 1u64) == 2u16 && (1u16 << 2u64) == 4u16 && (1u16 << 3u64) == 8u16 && (1u16 << 4u64) == 16u16 && (1u16 << 5u64) == 32u16 && (1u16 << 6u64) == 64u16 && (1u16 << 7u64) == 128u16 && (1u16 << 8u64) == 256u16 && (1u16 << 9u64) == 512u16 && (1u16 << 10u64) == 1024u16 && (1u16 << 11u64) == 2048u16 && (1u16 << 12u64) == 4096u16 && (1u16 << 13u64) == 8192u16 && (1u16 << 14u64) == 16384u16 && (1u16 << 15u64) == 32768u16) by(bit_vector); }
pub broadcast proof fn one_u32(n: u64)
    requires n < 32,
    ensures n == 0 ==> #[trigger] (1u32 << n) == 1u32, n == 1 ==> (1u32 << n) == 2u32, n == 2 ==> (1u32 << n) == 4u32, n == 3 ==> (1u32 << n) == 8u32, n == 4 ==> (1u32 << n) == 16u32, n == 5 ==> (1u32 << n) == 32u32, n == 6 ==> (1u32 << n) == 64u32, n == 7 ==> (1u32 << n) == 128u32, n == 8 ==> (1u32 << n) == 256u32, n == 9 ==> (1u32 << n) == 512u32, n == 10 ==> (1u32 << n) == 1024u32, n == 11 ==> (1u32 << n) == 2048u32, n == 12 ==> (1u32 << n) == 4096u32, n == 13 ==> (1u32 << n) == 8192u32, n == 14 ==> (1u32 << n) == 16384u32, n == 15 ==> (1u32 << n) == 32768u32, n == 16 ==> (1u32 << n) == 65536u32, n == 17 ==> (1u32 << n) == 131072u32, n == 18 ==> (1u32 << n) == 262144u32, n == 19 ==> (1u32 << n) == 524288u32, n == 20 ==> (1u32 << n) == 1048576u32, n == 21 ==> (1u32 << n) == 2097152u32, n == 22 ==> (1u32 << n) == 4194304u32, n == 23 ==> (1u32 << n) == 8388608u32, n == 24 ==> (1u32 << n) == 16777216u32, n == 25 ==> (1u32 << n) == 33554432u32, n == 26 ==> (1u32 << n) == 67108864u32, n == 27 ==> (1u32 << n) == 134217728u32, n == 28 ==> (1u32 << n) == 268435456u32, n == 29 ==> (1u32 << n) == 536870912u32, n == 30 ==> (1u32 << n) == 1073741824u32, n == 31 ==> (1u32 << n) == 2147483648u32,
{ assert((1u32 << 0u64) == 1u32 && (1u32 << 1u64) == 2u32 && (1u32 << 2u64) == 4u32 && (1u32 << 3u64) == 8u32 && (1u32 << 4u64) == 16u32 && (1u32 << 5u64) == 32u32 && (1u32 << 6u64) == 64u32 && (1u32 << 7u64) == 128u32 && (1u32 << 8u64) == 256u32 && (1u32 << 9u64) == 512u32 && (1u32 << 10u64) == 1024u32 && (1u32 << 11u64) == 2048u32 && (1u32 << 12u64) == 4096u32 && (1u32 << 13u64) == 8192u32 && (1u32 << 14u64) == 16384u32 && (1u32 << 15u64) == 32768u32 && (1u32 << 16u64) == 65536u32 && (1u32 << 17u64) == 131072u32 && (1u32 << 18u64) == 262144u32 && (1u32 << 19u64) == 524288u32 && (1u32 << 20u64) == 1048576u32 && (1u32 << 21u64) == 2097152u32 && (1u32 << 22u64) == 4194304u32 && (1u32 << 23u64) == 8388608u32 && (1u32 << 24u64) == 16777216u32 && (1u32 << 25u64) == 33554432u32 && (1u32 << 26u64) == 67108864u32 && (1u32 << 27u64) == 134217728u32 && (1u32 << 28u64) == 268435456u32 && (1u32 << 29u64) == 536870912u32 && (1u32 << 30u64) == 1073741824u32 && (1u32 << 31u64) == 2147483648u32) by(bit_vector); }
pub broadcast proof fn one_u64(n: u64)
    requires n < 64,
    ensures n == 0 ==> #[trigger] (1u64 << n) == 1u64, n == 1 ==> (1u64 << n) == 2u64, n == 2 ==> (1u64 << n) == 4u64, n == 3 ==> (1u64 << n) == 8u64, n == 4 ==> (1u64 << n) == 16u64, n == 5 ==> (1u64 << n) == 32u64, n == 6 ==> (1u64 << n) == 64u64, n == 7 ==> (1u64 << n) == 128u64, n == 8 ==> (1u64 << n) == 256u64, n == 9 ==> (1u64 << n) == 512u64, n == 10 ==> (1u64 << n) == 1024u64, n == 11 ==> (1u64 << n) == 2048u64, n == 12 ==> (1u64 << n) == 4096u64, n == 13 ==> (1u64 << n) == 8192u64, n == 14 ==> (1u64 << n) == 16384u64, n == 15 ==> (1u64 << n) == 32768u64, n == 16 ==> (1u64 << n) == 65536u64, n == 17 ==> (1u64 << n) == 131072u64, n == 18 ==> (1u64 << n) == 262144u64, n == 19 ==> (1u64 << n) == 524288u64, n == 20 ==> (1u64 << n) == 1048576u64, n == 21 ==> (1u64 << n) == 2097152u64, n == 22 ==> (1u64 << n) == 4194304u64, n == 23 ==> (1u64 << n) == 8388608u64, n == 24 ==> (1u64 << n) == 16777216u64, n == 25 ==> (1u64 << n) == 33554432u64, n == 26 ==> (1u64 << n) == 67108864u64, n == 27 ==> (1u64 << n) == 134217728u64, n == 28 ==> (1u64 << n) == 268435456u64, n == 29 ==> (1u64 << n) == 536870912u64, n == 30 ==> (1u64 << n) == 1073741824u64, n == 31 ==> (1u64 << n) == 2147483648u64, n == 32 ==> (1u64 << n) == 4294967296u64, n == 33 ==> (1u64 << n) == 8589934592u64, n == 34 ==> (1u64 << n) == 17179869184u64, n == 35 ==> (1u64 << n) == 34359738368u64, n == 36 ==> (1u64 << n) == 68719476736u64, n == 37 ==> (1u64 << n) == 137438953472u64, n == 38 ==> (1u64 << n) == 274877906944u64, n == 39 ==> (1u64 << n) == 549755813888u64, n == 40 ==> (1u64 << n) == 1099511627776u64, n == 41 ==> (1u64 << n) == 2199023255552u64, n == 42 ==> (1u64 << n) == 4398046511104u64, n == 43 ==> (1u64 << n) == 8796093022208u64, n == 44 ==> (1u64 << n) == 17592186044416u64, n == 45 ==> (1u64 << n) == 35184372088832u64, n == 46 ==> (1u64 << n) == 70368744177664u64, n == 47 ==> (1u64 << n) == 140737488355328u64, n == 48 ==> (1u64 << n) == 281474976710656u64, n == 49 ==> (1u64 << n) == 562949953421312u64, n == 50 ==> (1u64 << n) == 1125899906842624u64, n == 51 ==> (1u64 << n) == 2251799813685248u64, n == 52 ==> (1u64 << n) == 4503599627370496u64, n == 53 ==> (1u64 << n) == 9007199254740992u64, n == 54 ==> (1u64 << n) == 18014398509481984u64, n == 55 ==> (1u64 << n) == 36028797018963968u64, n == 56 ==> (1u64 << n) == 72057594037927936u64, n == 57 ==> (1u64 << n) == 144115188075855872u64, n == 58 ==> (1u64 << n) == 288230376151711744u64, n == 59 ==> (1u64 << n) == 576460752303423488u64, n == 60 ==> (1u64 << n) == 1152921504606846976u64, n == 61 ==> (1u64 << n) == 2305843009213693952u64, n == 62 ==> (1u64 << n) == 4611686018427387904u64, n == 63 ==> (1u64 << n) == 9223372036854775808u64,
{ assert((1u64 << 0u64) == 1u64 && (1u64 << 1u64) == 2u64 && (1u64 << 2u64) == 4u64 && (1u64 << 3u64) == 8u64 && (1u64 << 4u64) == 16u64 && (1u64 << 5u64) == 32u64 && (1u64 << 6u64) == 64u64 && (1u64 << 7u64) == 128u64 && (1u64 << 8u64) == 256u64 && (1u64 << 9u64) == 512u64 && (1u64 << 10u64) == 1024u64 && (1u64 << 11u64) == 2048u64 && (1u64 << 12u64) == 4096u64 && (1u64 << 13u64) == 8192u64 && (1u64 << 14u64) == 16384u64 && (1u64 << 15u64) == 32768u64 && (1u64 << 16u64) == 65536u64 && (1u64 << 17u64) == 131072u64 && (1u64 << 18u64) == 262144u64 && (1u64 << 19u64) == 524288u64 && (1u64 << 20u64) == 1048576u64 && (1u64 << 21u64) == 2097152u64 && (1u64 << 22u64) == 4194304u64 && (1u64 << 23u64) == 8388608u64 && (1u64 << 24u64) == 16777216u64 && (1u64 << 25u64) == 33554432u64 && (1u64 << 26u64) == 67108864u64 && (1u64 << 27u64) == 134217728u64 && (1u64 << 28u64) == 268435456u64 && (1u64 << 29u64) == 536870912u64 && (1u64 << 30u64) == 1073741824u64 && (1u64 << 31u64) == 2147483648u64 && (1u64 << 32u64) == 4294967296u64 && (1u64 << 33u64) == 8589934592u64 && (1u64 << 34u64) == 17179869184u64 && (1u64 << 35u64) == 34359738368u64 && (1u64 << 36u64) == 68719476736u64 && (1u64 << 37u64) == 137438953472u64 && (1u64 << 38u64) == 274877906944u64 && (1u64 << 39u64) == 549755813888u64 && (1u64 << 40u64) == 1099511627776u64 && (1u64 << 41u64) == 2199023255552u64 && (1u64 << 42u64) == 4398046511104u64 && (1u64 << 43u64) == 8796093022208u64 && (1u64 << 44u64) == 17592186044416u64 && (1u64 << 45u64) == 35184372088832u64 && (1u64 << 46u64) == 70368744177664u64 && (1u64 << 47u64) == 140737488355328u64 && (1u64 << 48u64) == 281474976710656u64 && (1u64 << 49u64) == 562949953421312u64 && (1u64 << 50u64) == 1125899906842624u64 && (1u64 << 51u64) == 2251799813685248u64 && (1u64 << 52u64) == 4503599627370496u64 && (1u64 << 53u64) == 9007199254740992u64 && (1u64 << 54u64) == 18014398509481984u64 && (1u64 << 55u64) == 36028797018963968u64 && (1u64 << 56u64) == 72057594037927936u64 && (1u64 << 57u64) == 144115188075855872u64 && (1u64 << 58u64) == 288230376151711744u64 && (1u64 << 59u64) == 576460752303423488u64 && (1u64 << 60u64) == 1152921504606846976u64 && (1u64 << 61u64) == 2305843009213693952u64 && (1u64 << 62u64) == 4611686018427387904u64 && (1u64 << 63u64) == 9223372036854775808u64) by(bit_vector); }
pub broadcast proof fn one_usize(n: u64)
    requires n < 64,
    ensures n == 0 ==> #[trigger] (1usize << n) == 1usize, n == 1 ==> (1usize << n) == 2usize, n == 2 ==> (1usize << n) == 4usize, n == 3 ==> (1usize << n) == 8usize, n == 4 ==> (1usize << n) == 16usize, n == 5 ==> (1usize << n) == 32usize, n == 6 ==> (1usize << n) == 64usize, n == 7 ==> (1usize << n) == 128usize, n == 8 ==> (1usize << n) == 256usize, n == 9 ==> (1usize << n) == 512usize, n == 10 ==> (1usize << n) == 1024usize, n == 11 ==> (1usize << n) == 2048usize, n == 12 ==> (1usize << n) == 4096usize, n == 13 ==> (1usize << n) == 8192usize, n == 14 ==> (1usize << n) == 16384usize, n == 15 ==> (1usize << n) == 32768usize, n == 16 ==> (1usize << n) == 65536usize, n == 17 ==> (1usize << n) == 131072usize, n == 18 ==> (1usize << n) == 262144usize, n == 19 ==> (1usize << n) == 524288usize, n == 20 ==> (1usize << n) == 1048576usize, n == 21 ==> (1usize << n) == 2097152usize, n == 22 ==> (1usize << n) == 4194304usize, n == 23 ==> (1usize << n) == 8388608usize, n == 24 ==> (1usize << n) == 16777216usize, n == 25 ==> (1usize << n) == 33554432usize, n == 26 ==> (1usize << n) == 67108864usize, n == 27 ==> (1usize << n) == 134217728usize, n == 28 ==> (1usize << n) == 268435456usize, n == 29 ==> (1usize << n) == 536870912usize, n == 30 ==> (1usize << n) == 1073741824usize, n == 31 ==> (1usize << n) == 2147483648usize, n == 32 ==> (1usize << n) == 4294967296usize, n == 33 ==> (1usize << n) == 8589934592usize, n == 34 ==> (1usize << n) == 17179869184usize, n == 35 ==> (1usize << n) == 34359738368usize, n == 36 ==> (1usize << n) == 68719476736usize, n == 37 ==> (1usize << n) == 137438953472usize, n == 38 ==> (1usize << n) == 274877906944usize, n == 39 ==> (1usize << n) == 549755813888usize, n == 40 ==> (1usize << n) == 1099511627776usize, n == 41 ==> (1usize << n) == 2199023255552usize, n == 42 ==> (1usize << n) == 4398046511104usize, n == 43 ==> (1usize << n) == 8796093022208usize, n == 44 ==> (1usize << n) == 17592186044416usize, n == 45 ==> (1usize << n) == 35184372088832usize, n == 46 ==> (1usize << n) == 70368744177664usize, n == 47 ==> (1usize << n) == 140737488355328usize, n == 48 ==> (1usize << n) == 281474976710656usize, n == 49 ==> (1usize << n) == 562949953421312usize, n == 50 ==> (1usize << n) == 1125899906842624usize, n == 51 ==> (1usize << n) == 2251799813685248usize, n == 52 ==> (1usize << n) == 4503599627370496usize, n == 53 ==> (1usize << n) == 9007199254740992usize, n == 54 ==> (1usize << n) == 18014398509481984usize, n == 55 ==> (1usize << n) == 36028797018963968usize, n == 56 ==> (1usize << n) == 72057594037927936usize, n == 57 ==> (1usize << n) == 144115188075855872usize, n == 58 ==> (1usize << n) == 288230376151711744usize, n == 59 ==> (1usize << n) == 576460752303423488usize, n == 60 ==> (1usize << n) == 1152921504606846976usize, n == 61 ==> (1usize << n) == 2305843009213693952usize, n == 62 ==> (1usize << n) == 4611686018427387904usize, n == 63 ==> (1usize << n) == 9223372036854775808usize,
{ assert((1usize << 0u64) == 1usize && (1usize << 1u64) == 2usize && (1usize << 2u64) == 4usize && (1usize << 3u64) == 8usize && (1usize << 4u64) == 16usize && (1usize << 5u64) == 32usize && (1usize << 6u64) == 64usize && (1usize << 7u64) == 128usize && (1usize << 8u64) == 256usize && (1usize << 9u64) == 512usize && (1usize << 10u64) == 1024usize && (1usize << 11u64) == 2048usize && (1usize << 12u64) == 4096usize && (1usize << 13u64) == 8192usize && (1usize << 14u64) == 16384usize && (1usize << 15u64) == 32768usize && (1usize << 16u64) == 65536usize && (1usize << 17u64) == 131072usize && (1usize << 18u64) == 262144usize && (1usize << 19u64) == 524288usize && (1usize << 20u64) == 1048576usize && (1usize << 21u64) == 2097152usize && (1usize << 22u64) == 4194304usize && (1usize << 23u64) == 8388608usize && (1usize << 24u64) == 16777216usize && (1usize << 25u64) == 33554432usize && (1usize << 26u64) == 67108864usize && (1usize << 27u64) == 134217728usize && (1usize << 28u64) == 268435456usize && (1usize << 29u64) == 536870912usize && (1usize << 30u64) == 1073741824usize && (1usize << 31u64) == 2147483648usize && (1usize << 32u64) == 4294967296usize && (1usize << 33u64) == 8589934592usize && (1usize << 34u64) == 17179869184usize && (1usize << 35u64) == 34359738368usize && (1usize << 36u64) == 68719476736usize && (1usize << 37u64) == 137438953472usize && (1usize << 38u64) == 274877906944usize && (1usize << 39u64) == 549755813888usize && (1usize << 40u64) == 1099511627776usize && (1usize << 41u64) == 2199023255552usize && (1usize << 42u64) == 4398046511104usize && (1usize << 43u64) == 8796093022208usize && (1usize << 44u64) == 17592186044416usize && (1usize << 45u64) == 35184372088832usize && (1usize << 46u64) == 70368744177664usize && (1usize << 47u64) == 140737488355328usize && (1usize << 48u64) == 281474976710656usize && (1usize << 49u64) == 562949953421312usize && (1usize << 50u64) == 1125899906842624usize && (1usize << 51u64) == 2251799813685248usize && (1usize << 52u64) == 4503599627370496usize && (1usize << 53u64) == 9007199254740992usize && (1usize << 54u64) == 18014398509481984usize && (1usize << 55u64) == 36028797018963968usize && (1usize << 56u64) == 72057594037927936usize && (1usize << 57u64) == 144115188075855872usize && (1usize << 58u64) == 288230376151711744usize && (1usize << 59u64) == 576460752303423488usize && (1usize << 60u64) == 1152921504606846976usize && (1usize << 61u64) == 2305843009213693952usize && (1usize << 62u64) == 4611686018427387904usize && (1usize << 63u64) == 9223372036854775808usize) by(bit_vector); }
pub broadcast proof fn or_u32_5(v: u8, b: u8)
    requires v % 32 == 0, b < 32,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 32 == 0, b < 32; }
pub broadcast proof fn mask_u8_192(v: u8)
    ensures #[trigger] (v & 192) == (v / 64) % 4 * 64,
{ assert((v & 192) == (v / 64) % 4 * 64) by(bit_vector); }
pub broadcast proof fn mask_u8_224(v: u8)
    ensures #[trigger] (v & 224) == (v / 32) % 8 * 32,
{ assert((v & 224) == (v / 32) % 8 * 32) by(bit_vector); }
pub broadcast proof fn mask_u8_240(v: u8)
    ensures #[trigger] (v & 240) == (v / 16) % 16 * 16,
{ assert((v & 240) == (v / 16) % 16 * 16) by(bit_vector); }
pub broadcast proof fn mask_u8_96(v: u8)
    ensures #[trigger] (v & 96) == (v / 32) % 4 * 32,
{ assert((v & 96) == (v / 32) % 4 * 32) by(bit_vector); }
pub broadcast proof fn shl_i32_8(v: i32)
    requires -8388608 <= v < 8388608,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires -8388608i32 <= v < 8388608i32; }
pub broadcast proof fn shl_i32_16(v: i32)
    requires -32768 <= v < 32768,
    ensures #[trigger] (v << 16) == v * 65536,
{ assert((v << 16) == v * 65536) by(bit_vector) requires -32768i32 <= v < 32768i32; }
pub broadcast proof fn shl_i32_24(v: i32)
    requires -128 <= v < 128,
    ensures #[trigger] (v << 24) == v * 16777216,
{ assert((v << 24) == v * 16777216) by(bit_vector) requires -128i32 <= v < 128i32; }
pub broadcast proof fn or_i32_8(v: i32, b: i32)
    requires (v as int) % 256 == 0, 0 <= b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, 0i32 <= b < 256i32; }
pub broadcast proof fn or_i32_16(v: i32, b: i32)
    requires (v as int) % 65536 == 0, 0 <= b < 65536,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 65536 == 0, 0i32 <= b < 65536i32; }
pub broadcast proof fn or_i32_24(v: i32, b: i32)
    requires (v as int) % 16777216 == 0, 0 <= b < 16777216,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 16777216 == 0, 0i32 <= b < 16777216i32; }
pub broadcast proof fn shl_i64_8(v: i64)
    requires -36028797018963968 <= v < 36028797018963968,
    ensures #[trigger] (v << 8) == v * 256,
{ assert((v << 8) == v * 256) by(bit_vector) requires -36028797018963968i64 <= v < 36028797018963968i64; }
pub broadcast proof fn shl_i64_16(v: i64)
    requires -140737488355328 <= v < 140737488355328,
    ensures #[trigger] (v << 16) == v * 65536,
{ assert((v << 16) == v * 65536) by(bit_vector) requires -140737488355328i64 <= v < 140737488355328i64; }
pub broadcast proof fn shl_i64_24(v: i64)
    requires -549755813888 <= v < 549755813888,
    ensures #[trigger] (v << 24) == v * 16777216,
{ assert((v << 24) == v * 16777216) by(bit_vector) requires -549755813888i64 <= v < 549755813888i64; }
pub broadcast proof fn or_i64_8(v: i64, b: i64)
    requires (v as int) % 256 == 0, 0 <= b < 256,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 256 == 0, 0i64 <= b < 256i64; }
pub broadcast proof fn or_i64_16(v: i64, b: i64)
    requires (v as int) % 65536 == 0, 0 <= b < 65536,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 65536 == 0, 0i64 <= b < 65536i64; }
pub broadcast proof fn or_i64_24(v: i64, b: i64)
    requires (v as int) % 16777216 == 0, 0 <= b < 16777216,
    ensures #[trigger] (v | b) == v + b,
{ assert((v | b) == v + b) by(bit_vector) requires v % 16777216 == 0, 0i64 <= b < 16777216i64; }
pub broadcast proof fn shr_i32_8(v: i32)
    ensures #[trigger] (v >> 8) == v as int / 256,
{ let w = v >> 8; assert(w * 256 <= v && v - w * 256 < 256 && w >= -8388608 && w <= 8388608) by(bit_vector) requires w == v >> 8; }
pub broadcast proof fn shr_i32_16(v: i32)
    ensures #[trigger] (v >> 16) == v as int / 65536,
{ let w = v >> 16; assert(w * 65536 <= v && v - w * 65536 < 65536 && w >= -32768 && w <= 32768) by(bit_vector) requires w == v >> 16; }
pub broadcast proof fn shr_i32_24(v: i32)
    ensures #[trigger] (v >> 24) == v as int / 16777216,
{ let w = v >> 24; assert(w * 16777216 <= v && v - w * 16777216 < 16777216 && w >= -128 && w <= 128) by(bit_vector) requires w == v >> 24; }
pub broadcast proof fn shr_i64_8(v: i64)
    ensures #[trigger] (v >> 8) == v as int / 256,
{ let w = v >> 8; assert(w * 256 <= v && v - w * 256 < 256 && w >= -36028797018963968 && w <= 36028797018963968) by(bit_vector) requires w == v >> 8; }
pub broadcast proof fn shr_i64_16(v: i64)
    ensures #[trigger] (v >> 16) == v as int / 65536,
{ let w = v >> 16; assert(w * 65536 <= v && v - w * 65536 < 65536 && w >= -140737488355328 && w <= 140737488355328) by(bit_vector) requires w == v >> 16; }
pub broadcast proof fn shr_i64_24(v: i64)
    ensures #[trigger] (v >> 24) == v as int / 16777216,
{ let w = v >> 24; assert(w * 16777216 <= v && v - w * 16777216 < 16777216 && w >= -549755813888 && w <= 549755813888) by(bit_vector) requires w == v >> 24; }
pub broadcast proof fn cast_u8_i8(v: u8)
    ensures #[trigger] (v as i8) == (if v < 0x80 { v as int } else { v - 0x100 }),
{ assert((v as i8) == (if v < 0x80 { v as int } else { v - 0x100 })) by(bit_vector); }
pub broadcast proof fn cast_i8_u8(v: i8)
    ensures #[trigger] (v as u8) == (if v >= 0 { v as int } else { v + 0x100 }),
{ assert((v as u8) == (if v >= 0 { v as int } else { v + 0x100 })) by(bit_vector); }
pub broadcast proof fn cast_u16_i16(v: u16)
    ensures #[trigger] (v as i16) == (if v < 0x8000 { v as int } else { v - 0x10000 }),
{ assert((v as i16) == (if v < 0x8000 { v as int } else { v - 0x10000 })) by(bit_vector); }
pub broadcast proof fn cast_i16_u16(v: i16)
    ensures #[trigger] (v as u16) == (if v >= 0 { v as int } else { v + 0x10000 }),
{ assert((v as u16) == (if v >= 0 { v as int } else { v + 0x10000 })) by(bit_vector); }
pub broadcast proof fn cast_u32_i32(v: u32)
    ensures #[trigger] (v as i32) == (if v < 0x80000000 { v as int } else { v - 0x100000000 }),
{ assert((v as i32) == (if v < 0x80000000 { v as int } else { v - 0x100000000 })) by(bit_vector); }
pub broadcast proof fn cast_i32_u32(v: i32)
    ensures #[trigger] (v as u32) == (if v >= 0 { v as int } else { v + 0x100000000 }),
{ assert((v as u32) == (if v >= 0 { v as int } else { v + 0x100000000 })) by(bit_vector); }
pub broadcast proof fn cast_u64_i64(v: u64)
    ensures #[trigger] (v as i64) == (if v < 0x8000000000000000 { v as int } else { v - 0x10000000000000000 }),
{ assert((v as i64) == (if v < 0x8000000000000000 { v as int } else { v - 0x10000000000000000 })) by(bit_vector); }
pub broadcast proof fn cast_i64_u64(v: i64)
    ensures #[trigger] (v as u64) == (if v >= 0 { v as int } else { v + 0x10000000000000000 }),
{ assert((v as u64) == (if v >= 0 { v as int } else { v + 0x10000000000000000 })) by(bit_vector); }
pub broadcast proof fn cast_u16_u8(v: u16)
    ensures #[trigger] (v as u8) == (v % 0x100),
{ assert((v as u8) == (v % 0x100)) by(bit_vector); }
pub broadcast proof fn cast_u32_u8(v: u32)
    ensures #[trigger] (v as u8) == (v % 0x100),
{ assert((v as u8) == (v % 0x100)) by(bit_vector); }
pub broadcast proof fn cast_u32_u16(v: u32)
    ensures #[trigger] (v as u16) == (v % 0x10000),
{ assert((v as u16) == (v % 0x10000)) by(bit_vector); }
pub broadcast proof fn cast_u64_u8(v: u64)
    ensures #[trigger] (v as u8) == (v % 0x100),
{ assert((v as u8) == (v % 0x100)) by(bit_vector); }
pub broadcast proof fn cast_u64_u16(v: u64)
    ensures #[trigger] (v as u16) == (v % 0x10000),
{ assert((v as u16) == (v % 0x10000)) by(bit_vector); }
pub broadcast proof fn cast_u64_u32(v: u64)
    ensures #[trigger] (v as u32) == (v % 0x100000000),
{ assert((v as u32) == (v % 0x100000000)) by(bit_vector); }
pub broadcast group group_bits {
    shl_u8_1,
    shr_u8_1,
    low_u8_1,
    shl_u8_2,
    shr_u8_2,
    low_u8_2,
    shl_u8_3,
    shr_u8_3,
    low_u8_3,
    shl_u8_4,
    shr_u8_4,
    low_u8_4,
    shl_u8_5,
    shr_u8_5,
    low_u8_5,
    shl_u8_6,
    shr_u8_6,
    low_u8_6,
    shl_u8_7,
    shr_u8_7,
    low_u8_7,
    bit_u8_1,
    bit_u8_2,
    bit_u8_3,
    bit_u8_4,
    bit_u8_5,
    bit_u8_6,
    bit_u8_7,
    shl_u16_1,
    shr_u16_1,
    low_u16_1,
    shl_u16_2,
    shr_u16_2,
    low_u16_2,
    shl_u16_3,
    shr_u16_3,
    low_u16_3,
    shl_u16_4,
    shr_u16_4,
    low_u16_4,
    shl_u16_5,
    shr_u16_5,
    low_u16_5,
    shl_u16_6,
    shr_u16_6,
    low_u16_6,
    shl_u16_7,
    shr_u16_7,
    low_u16_7,
    shl_u16_8,
    shr_u16_8,
    low_u16_8,
    bit_u16_1,
    bit_u16_2,
    bit_u16_3,
    bit_u16_4,
    bit_u16_5,
    bit_u16_6,
    bit_u16_7,
    or_u16_7,
    or_u16_8,
    shl_u32_1,
    shr_u32_1,
    low_u32_1,
    shl_u32_2,
    shr_u32_2,
    low_u32_2,
    shl_u32_3,
    shr_u32_3,
    low_u32_3,
    shl_u32_4,
    shr_u32_4,
    low_u32_4,
    shl_u32_5,
    shr_u32_5,
    low_u32_5,
    shl_u32_6,
    shr_u32_6,
    low_u32_6,
    shl_u32_7,
    shr_u32_7,
    low_u32_7,
    shl_u32_8,
    shr_u32_8,
    low_u32_8,
    shl_u32_16,
    shr_u32_16,
    low_u32_16,
    shl_u32_24,
    shr_u32_24,
    low_u32_24,
    bit_u32_1,
    bit_u32_2,
    bit_u32_3,
    bit_u32_4,
    bit_u32_5,
    bit_u32_6,
    bit_u32_7,
    or_u32_7,
    or_u32_8,
    or_u32_16,
    or_u32_24,
    shl_u64_1,
    shr_u64_1,
    low_u64_1,
    shl_u64_2,
    shr_u64_2,
    low_u64_2,
    shl_u64_3,
    shr_u64_3,
    low_u64_3,
    shl_u64_4,
    shr_u64_4,
    low_u64_4,
    shl_u64_5,
    shr_u64_5,
    low_u64_5,
    shl_u64_6,
    shr_u64_6,
    low_u64_6,
    shl_u64_7,
    shr_u64_7,
    low_u64_7,
    shl_u64_8,
    shr_u64_8,
    low_u64_8,
    shl_u64_16,
    shr_u64_16,
    low_u64_16,
    shl_u64_24,
    shr_u64_24,
    low_u64_24,
    bit_u64_1,
    bit_u64_2,
    bit_u64_3,
    bit_u64_4,
    bit_u64_5,
    bit_u64_6,
    bit_u64_7,
    or_u64_7,
    or_u64_8,
    or_u64_16,
    or_u64_24,
    shl_usize_1,
    shr_usize_1,
    low_usize_1,
    shl_usize_2,
    shr_usize_2,
    low_usize_2,
    shl_usize_3,
    shr_usize_3,
    low_usize_3,
    shl_usize_4,
    shr_usize_4,
    low_usize_4,
    shl_usize_5,
    shr_usize_5,
    low_usize_5,
    shl_usize_6,
    shr_usize_6,
    low_usize_6,
    shl_usize_7,
    shr_usize_7,
    low_usize_7,
    shl_usize_8,
    shr_usize_8,
    low_usize_8,
    shl_usize_16,
    shr_usize_16,
    low_usize_16,
    shl_usize_24,
    shr_usize_24,
    low_usize_24,
    bit_usize_1,
    bit_usize_2,
    bit_usize_3,
    bit_usize_4,
    bit_usize_5,
    bit_usize_6,
    bit_usize_7,
    or_usize_7,
    or_usize_8,
    or_usize_16,
    or_usize_24,
    one_u8,
    one_u16,
    one_u32,
    one_u64,
    one_usize,
    or_u32_5,
    mask_u8_192,
    mask_u8_224,
    mask_u8_240,
    mask_u8_96,
    shl_i32_8,
    shl_i32_16,
    shl_i32_24,
    or_i32_8,
    or_i32_16,
    or_i32_24,
    shl_i64_8,
    shl_i64_16,
    shl_i64_24,
    or_i64_8,
    or_i64_16,
    or_i64_24,
    shr_i32_8,
    shr_i32_16,
    shr_i32_24,
    shr_i64_8,
    shr_i64_16,
    shr_i64_24,
    cast_u8_i8,
    cast_i8_u8,
    cast_u16_i16,
    cast_i16_u16,
    cast_u32_i32,
    cast_i32_u32,
    cast_u64_i64,
    cast_i64_u64,
    cast_u16_u8,
    cast_u32_u8,
    cast_u32_u16,
    cast_u64_u8,
    cast_u64_u16,
    cast_u64_u32,
}
