//! Reference semantics of the scalar numeric instructions, written from the specification's
//! definitions (integers in i128/u128 arithmetic where that makes the definition obvious, float
//! rounding on the bit level). Values are raw bits in a u128.
use crate::wasm::*;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Trap {
    Unreachable, MemOob, TableOob, DivZero, IntOverflow, InvalidConv, CallStack, ValueStack, UndefinedElem, UninitElem, IndirectMismatch, Oom,
    /// host function reported this error
    Host(String),
    /// reference interpreter ran out of its step budget (the case is discarded)
    Budget,
    Other(String),
}

pub const CNAN32: u32 = 0x7fc0_0000;
pub const CNAN64: u64 = 0x7ff8_0000_0000_0000;

fn f32b(b: u128) -> f32 { f32::from_bits(b as u32) }
fn f64b(b: u128) -> f64 { f64::from_bits(b as u64) }
pub fn c32(v: f32) -> u128 { if v.is_nan() { CNAN32 as u128 } else { v.to_bits() as u128 } }
pub fn c64(v: f64) -> u128 { if v.is_nan() { CNAN64 as u128 } else { v.to_bits() as u128 } }

/// Rounding modes on the bit pattern. kind: 0 ceil, 1 floor, 2 trunc, 3 nearest-even
fn round_bits(bits: u64, mant: u32, exp_bits: u32, kind: u8) -> u64 {
    let bias = (1i32 << (exp_bits - 1)) - 1;
    let sign = bits >> (mant + exp_bits) & 1;
    let e = ((bits >> mant) & ((1 << exp_bits) - 1)) as i32 - bias;
    let signbit = sign << (mant + exp_bits);
    if e >= mant as i32 { return bits; } // already integral, or inf / nan
    let magnitude = bits ^ signbit;
    if magnitude == 0 { return bits; }
    let one = (bias as u64) << mant;
    if e < 0 {
        // |x| < 1
        let up = match kind { 0 => sign == 0, 1 => sign == 1, 2 => false, _ => e == -1 && (bits & ((1 << mant) - 1)) != 0 };
        return signbit | if up { one } else { 0 };
    }
    let frac = mant as i32 - e; // number of fraction bits, 1..=mant
    let mask = (1u64 << frac) - 1;
    let rest = magnitude & mask;
    if rest == 0 { return bits; }
    let t = magnitude & !mask;
    let half = 1u64 << (frac - 1);
    let unit = 1u64 << frac;
    let up = match kind { 0 => sign == 0, 1 => sign == 1, 2 => false, _ => rest > half || (rest == half && (t & unit != 0 || (frac == mant as i32 && false))) };
    // for frac == mant the unit bit is the lowest exponent bit; |x| in [1,2): the integer part is 1, odd
    let up = if kind == 3 && rest == half && frac == mant as i32 { true } else { up };
    signbit | if up { t + unit } else { t }
}
pub fn round32(b: u32, kind: u8) -> u128 { if f32::from_bits(b).is_nan() { CNAN32 as u128 } else { round_bits(b as u64, 23, 8, kind) as u128 } }
pub fn round64(b: u64, kind: u8) -> u128 { if f64::from_bits(b).is_nan() { CNAN64 as u128 } else { round_bits(b, 52, 11, kind) as u128 } }

pub fn fmin32(a: f32, b: f32) -> u128 {
    if a.is_nan() || b.is_nan() { return CNAN32 as u128; }
    if a == 0.0 && b == 0.0 { return (a.to_bits() | b.to_bits()) as u128; }
    if a < b { a.to_bits() as u128 } else { b.to_bits() as u128 }
}
pub fn fmax32(a: f32, b: f32) -> u128 {
    if a.is_nan() || b.is_nan() { return CNAN32 as u128; }
    if a == 0.0 && b == 0.0 { return (a.to_bits() & b.to_bits()) as u128; }
    if a > b { a.to_bits() as u128 } else { b.to_bits() as u128 }
}
pub fn fmin64(a: f64, b: f64) -> u128 {
    if a.is_nan() || b.is_nan() { return CNAN64 as u128; }
    if a == 0.0 && b == 0.0 { return (a.to_bits() | b.to_bits()) as u128; }
    if a < b { a.to_bits() as u128 } else { b.to_bits() as u128 }
}
pub fn fmax64(a: f64, b: f64) -> u128 {
    if a.is_nan() || b.is_nan() { return CNAN64 as u128; }
    if a == 0.0 && b == 0.0 { return (a.to_bits() & b.to_bits()) as u128; }
    if a > b { a.to_bits() as u128 } else { b.to_bits() as u128 }
}

/// The integer nearest to zero of a finite float, exactly, as i128 (saturating far outside any integer range).
fn exact_trunc(v: f64) -> i128 {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32 - 1075;
    let m = (b & ((1 << 52) - 1)) | if (b >> 52) & 0x7ff != 0 { 1 << 52 } else { 0 };
    let mag: i128 = if e >= 0 { if e > 60 { 1i128 << 120 } else { (m as i128) << e } } else if e <= -64 { 0 } else { (m >> -e) as i128 };
    if b >> 63 != 0 { -mag } else { mag }
}
fn range(bits: u32, signed: bool) -> (i128, i128) {
    if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) }
}
fn trunc_trap(v: f64, bits: u32, signed: bool) -> Result<u128, Trap> {
    if v.is_nan() { return Err(Trap::InvalidConv); }
    if v.is_infinite() { return Err(Trap::IntOverflow); }
    let t = exact_trunc(v);
    let (lo, hi) = range(bits, signed);
    if t < lo || t > hi { return Err(Trap::IntOverflow); }
    Ok(t as u128 & ((1u128 << bits) - 1))
}
pub fn trunc_sat(v: f64, bits: u32, signed: bool) -> u128 {
    let (lo, hi) = range(bits, signed);
    let t = if v.is_nan() { 0 } else if v.is_infinite() { if v > 0.0 { hi } else { lo } } else { exact_trunc(v).clamp(lo, hi) };
    t as u128 & ((1u128 << bits) - 1)
}

/// Exact integer to float conversion with round-to-nearest-even, built from the magnitude.
fn int_to_float(v: i128, mant: u32, bias: i32) -> u64 {
    let exp_bits = if mant == 23 { 8 } else { 11 };
    let sign = (v < 0) as u64;
    let m = v.unsigned_abs();
    if m == 0 { return 0; }
    let top = 127 - m.leading_zeros() as i32;
    let mut e = top;
    let mut frac;
    if top <= mant as i32 { frac = m << (mant as i32 - top); } else {
        let sh = top - mant as i32;
        frac = m >> sh;
        let rest = m & ((1u128 << sh) - 1);
        let half = 1u128 << (sh - 1);
        if rest > half || (rest == half && frac & 1 == 1) { frac += 1; }
        if frac >> (mant + 1) != 0 { frac >>= 1; e += 1; }
    }
    sign << (mant + exp_bits) | (((e + bias) as u64) << mant) | (frac as u64 & ((1 << mant) - 1))
}
pub fn to_f32(v: i128) -> u128 { int_to_float(v, 23, 127) as u128 }
pub fn to_f64(v: i128) -> u128 { int_to_float(v, 52, 1023) as u128 }

fn iunop(k: u8, v: u128, bits: u32) -> u128 {
    let bit = |i: u32| v >> i & 1;
    match k {
        0 => (0..bits).rev().take_while(|i| bit(*i) == 0).count() as u128,
        1 => (0..bits).take_while(|i| bit(*i) == 0).count() as u128,
        _ => (0..bits).filter(|i| bit(*i) == 1).count() as u128,
    }
}
fn sx(v: u128, bits: u32) -> i128 { ((v as i128) << (128 - bits)) >> (128 - bits) }
fn ibin(k: u8, a: u128, b: u128, bits: u32) -> Result<u128, Trap> {
    let mask = (1u128 << bits) - 1;
    let (sa, sb) = (sx(a, bits), sx(b, bits));
    let n = (b % bits as u128) as u32;
    Ok(mask & match k {
        0 => a + b,
        1 => a.wrapping_sub(b),
        2 => a.wrapping_mul(b),
        3 => { if b == 0 { return Err(Trap::DivZero); } let q = sa / sb; if q > range(bits, true).1 { return Err(Trap::IntOverflow); } q as u128 }
        4 => { if b == 0 { return Err(Trap::DivZero); } a / b }
        5 => { if b == 0 { return Err(Trap::DivZero); } (sa % sb) as u128 }
        6 => { if b == 0 { return Err(Trap::DivZero); } a % b }
        7 => a & b, 8 => a | b, 9 => a ^ b,
        10 => a << n,
        11 => (sa >> n) as u128,
        12 => a >> n,
        13 => a << n | a >> (bits - n),
        _ => a >> n | a << (bits - n),
    })
}
fn icmp(k: u8, a: u128, b: u128, bits: u32) -> u128 {
    let (sa, sb) = (sx(a, bits), sx(b, bits));
    (match k { 0 => a == b, 1 => a != b, 2 => sa < sb, 3 => a < b, 4 => sa > sb, 5 => a > b, 6 => sa <= sb, 7 => a <= b, 8 => sa >= sb, _ => a >= b }) as u128
}

/// Evaluates one of 0x45..=0xc4. `b` is the second operand for binary operators.
pub fn num_op(op: u8, a: u128, b: u128) -> Result<u128, Trap> {
    Ok(match op {
        0x45 | 0x50 => (a == 0) as u128,
        0x46..=0x4f => icmp(op - 0x46, a, b, 32),
        0x51..=0x5a => icmp(op - 0x51, a, b, 64),
        0x5b..=0x60 => { let (x, y) = (f32b(a), f32b(b)); (match op { 0x5b => x == y, 0x5c => x != y, 0x5d => x < y, 0x5e => x > y, 0x5f => x <= y, _ => x >= y }) as u128 }
        0x61..=0x66 => { let (x, y) = (f64b(a), f64b(b)); (match op { 0x61 => x == y, 0x62 => x != y, 0x63 => x < y, 0x64 => x > y, 0x65 => x <= y, _ => x >= y }) as u128 }
        0x67..=0x69 => iunop(op - 0x67, a, 32),
        0x6a..=0x78 => ibin(op - 0x6a, a, b, 32)?,
        0x79..=0x7b => iunop(op - 0x79, a, 64),
        0x7c..=0x8a => ibin(op - 0x7c, a, b, 64)?,
        0x8b => a & 0x7fff_ffff, 0x8c => a ^ 0x8000_0000,
        0x8d..=0x90 => round32(a as u32, op - 0x8d),
        0x91 => c32(f32b(a).sqrt()),
        0x92 => c32(f32b(a) + f32b(b)), 0x93 => c32(f32b(a) - f32b(b)), 0x94 => c32(f32b(a) * f32b(b)), 0x95 => c32(f32b(a) / f32b(b)),
        0x96 => fmin32(f32b(a), f32b(b)), 0x97 => fmax32(f32b(a), f32b(b)), 0x98 => a & 0x7fff_ffff | b & 0x8000_0000,
        0x99 => a & (u64::MAX >> 1) as u128, 0x9a => a ^ (1u128 << 63),
        0x9b..=0x9e => round64(a as u64, op - 0x9b),
        0x9f => c64(f64b(a).sqrt()),
        0xa0 => c64(f64b(a) + f64b(b)), 0xa1 => c64(f64b(a) - f64b(b)), 0xa2 => c64(f64b(a) * f64b(b)), 0xa3 => c64(f64b(a) / f64b(b)),
        0xa4 => fmin64(f64b(a), f64b(b)), 0xa5 => fmax64(f64b(a), f64b(b)), 0xa6 => a & (u64::MAX >> 1) as u128 | b & (1u128 << 63),
        0xa7 => a & 0xffff_ffff,
        0xa8 | 0xa9 => trunc_trap(f32b(a) as f64, 32, op == 0xa8)?, 0xaa | 0xab => trunc_trap(f64b(a), 32, op == 0xaa)?,
        0xac => sx(a, 32) as u64 as u128, 0xad => a,
        0xae | 0xaf => trunc_trap(f32b(a) as f64, 64, op == 0xae)?, 0xb0 | 0xb1 => trunc_trap(f64b(a), 64, op == 0xb0)?,
        0xb2 => to_f32(sx(a, 32)), 0xb3 => to_f32(a as i128), 0xb4 => to_f32(sx(a, 64)), 0xb5 => to_f32(a as i128),
        0xb6 => c32(f64b(a) as f32),
        0xb7 => to_f64(sx(a, 32)), 0xb8 => to_f64(a as i128), 0xb9 => to_f64(sx(a, 64)), 0xba => to_f64(a as i128),
        0xbb => c64(f32b(a) as f64),
        0xbc..=0xbf => a,
        0xc0 => sx(a, 8) as u32 as u128, 0xc1 => sx(a, 16) as u32 as u128,
        0xc2 => sx(a, 8) as u64 as u128, 0xc3 => sx(a, 16) as u64 as u128, 0xc4 => sx(a, 32) as u64 as u128,
        _ => unreachable!(),
    })
}
pub fn sat_op(s: u8, a: u128) -> u128 {
    let v = if matches!(s, 0 | 1 | 4 | 5) { f32b(a) as f64 } else { f64b(a) };
    trunc_sat(v, if s < 4 { 32 } else { 64 }, s % 2 == 0)
}
/// i64.add128 / sub128 / mul_wide_s / mul_wide_u; returns (low, high).
pub fn wide_op(w: u8, a: &[u128]) -> (u128, u128) {
    let r = match w {
        19 => (a[1] << 64 | a[0]).wrapping_add(a[3] << 64 | a[2]),
        20 => (a[1] << 64 | a[0]).wrapping_sub(a[3] << 64 | a[2]),
        21 => sx(a[0], 64).wrapping_mul(sx(a[1], 64)) as u128,
        _ => a[0].wrapping_mul(a[1]),
    };
    (r & u64::MAX as u128, r >> 64)
}
pub fn is_binary(op: u8) -> bool { num_sig(op).0.len() == 2 }
