//! Reference semantics of the vector instructions, lane by lane, from the specification's definitions.
//! Lanes are extracted into u64/i64/f32/f64 and put back; nothing here operates on whole vectors except
//! the bitwise operators.
use crate::num::*;

fn lanes(v: u128, w: u32) -> Vec<u64> { (0..128 / w).map(|i| (v >> (i * w)) as u64 & mask(w)).collect() }
fn mask(w: u32) -> u64 { if w == 64 { u64::MAX } else { (1 << w) - 1 } }
fn join(ls: impl IntoIterator<Item = u64>, w: u32) -> u128 { ls.into_iter().enumerate().fold(0, |acc, (i, l)| acc | ((l & mask(w)) as u128) << (i as u32 * w)) }
fn s(l: u64, w: u32) -> i64 { ((l << (64 - w)) as i64) >> (64 - w) }
fn map1(a: u128, w: u32, f: impl Fn(u64) -> u64) -> u128 { join(lanes(a, w).into_iter().map(f), w) }
fn map2(a: u128, b: u128, w: u32, f: impl Fn(u64, u64) -> u64) -> u128 { join(lanes(a, w).into_iter().zip(lanes(b, w)).map(|(x, y)| f(x, y)), w) }
fn clampi(v: i64, w: u32, signed: bool) -> u64 {
    let (lo, hi) = if signed { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) } else { (0, (1i64 << w) - 1) };
    v.clamp(lo, hi) as u64 & mask(w)
}
fn cmp(k: u32, a: u64, b: u64, w: u32) -> u64 {
    let (x, y) = (s(a, w), s(b, w));
    let r = match k { 0 => a == b, 1 => a != b, 2 => x < y, 3 => a < b, 4 => x > y, 5 => a > b, 6 => x <= y, 7 => a <= b, 8 => x >= y, _ => a >= b };
    if r { mask(w) } else { 0 }
}
fn fcmp(k: u32, a: f64, b: f64) -> bool { match k { 0 => a == b, 1 => a != b, 2 => a < b, 3 => a > b, 4 => a <= b, _ => a >= b } }
fn extend(a: u128, from: u32, high: bool, signed: bool) -> u128 {
    let l = lanes(a, from);
    let n = l.len() / 2;
    join(l[if high { n..2 * n } else { 0..n }].iter().map(|v| if signed { s(*v, from) as u64 } else { *v }), from * 2)
}
fn narrow(a: u128, b: u128, from: u32, signed: bool) -> u128 {
    join(lanes(a, from).into_iter().chain(lanes(b, from)).map(|v| clampi(s(v, from), from / 2, signed)), from / 2)
}
fn extmul(a: u128, b: u128, from: u32, high: bool, signed: bool) -> u128 {
    let (x, y) = (extend(a, from, high, signed), extend(b, from, high, signed));
    map2(x, y, from * 2, |p, q| p.wrapping_mul(q))
}
fn extadd(a: u128, from: u32, signed: bool) -> u128 {
    let e = |v: u64| if signed { s(v, from) as u64 } else { v };
    join(lanes(a, from).chunks(2).map(|c| e(c[0]).wrapping_add(e(c[1]))), from * 2)
}
fn swizzle(a: u128, idx: u128) -> u128 { let l = lanes(a, 8); map1(idx, 8, |i| if i < 16 { l[i as usize] } else { 0 }) }
pub fn shuffle(a: u128, b: u128, idx: &[u8; 16]) -> u128 {
    let l: Vec<u64> = lanes(a, 8).into_iter().chain(lanes(b, 8)).collect();
    join(idx.iter().map(|i| l[*i as usize]), 8)
}
fn q15(a: u64, b: u64) -> i64 { (s(a, 16) * s(b, 16) + 0x4000) >> 15 }
fn intbin(k: u32, w: u32, a: u128, b: u128) -> u128 {
    map2(a, b, w, |x, y| match k {
        0 => x.wrapping_add(y), 1 => clampi(s(x, w) + s(y, w), w, true), 2 => clampi((x + y) as i64, w, false),
        3 => x.wrapping_sub(y), 4 => clampi(s(x, w) - s(y, w), w, true), 5 => clampi(x as i64 - y as i64, w, false),
        6 => x.wrapping_mul(y),
        7 => s(x, w).min(s(y, w)) as u64, 8 => x.min(y), 9 => s(x, w).max(s(y, w)) as u64, 10 => x.max(y),
        _ => (x + y + 1) / 2,
    })
}
fn shift(k: u32, w: u32, a: u128, n: u128) -> u128 {
    let n = (n as u32) % w;
    map1(a, w, |x| match k { 0 => x << n, 1 => (s(x, w) >> n) as u64, _ => x >> n })
}
fn f(x: u64) -> f32 { f32::from_bits(x as u32) }
fn d(x: u64) -> f64 { f64::from_bits(x) }

/// lane extraction (21..=34); `x` is the replacement value for replace_lane.
pub fn lane_op(sub: u32, lane: u8, v: u128, x: u128) -> u128 {
    let (w, kind) = match sub { 21 => (8, 's'), 22 => (8, 'u'), 23 => (8, 'r'), 24 => (16, 's'), 25 => (16, 'u'), 26 => (16, 'r'), 27 | 31 => (32, 'u'), 28 | 32 => (32, 'r'), 29 | 33 => (64, 'u'), _ => (64, 'r') };
    let mut l = lanes(v, w);
    match kind {
        's' => s(l[lane as usize], w) as u32 as u128,
        'u' => l[lane as usize] as u128,
        _ => { l[lane as usize] = x as u64 & mask(w); join(l, w) }
    }
}

/// What a `v128.loadX` produces from the bytes it read (little endian in `raw`), for subs 0..=10, 92, 93.
pub fn load_ext(sub: u32, raw: u128) -> u128 {
    match sub {
        0 | 92 | 93 => raw,
        1 | 2 => extend(raw, 8, false, sub == 1), 3 | 4 => extend(raw, 16, false, sub == 3), 5 | 6 => extend(raw, 32, false, sub == 5),
        7 => join(vec![raw as u64; 16], 8), 8 => join(vec![raw as u64; 8], 16), 9 => join(vec![raw as u64; 4], 32), 10 => join(vec![raw as u64; 2], 64),
        _ => unreachable!(),
    }
}

/// Result of a plain vector operator with operands a, b, c (in push order). Relaxed operators give the
/// set of allowed results; every other operator gives exactly one.
pub fn v_op(sub: u32, a: u128, b: u128, c: u128) -> Vec<u128> {
    vec![match sub {
        14 => swizzle(a, b),
        15 => join(vec![a as u64; 16], 8), 16 => join(vec![a as u64; 8], 16), 17 | 19 => join(vec![a as u64; 4], 32), 18 | 20 => join(vec![a as u64; 2], 64),
        35..=44 => map2(a, b, 8, |x, y| cmp(sub - 35, x, y, 8)),
        45..=54 => map2(a, b, 16, |x, y| cmp(sub - 45, x, y, 16)),
        55..=64 => map2(a, b, 32, |x, y| cmp(sub - 55, x, y, 32)),
        65..=70 => map2(a, b, 32, |x, y| if fcmp(sub - 65, f(x) as f64, f(y) as f64) { u32::MAX as u64 } else { 0 }),
        71..=76 => map2(a, b, 64, |x, y| if fcmp(sub - 71, d(x), d(y)) { u64::MAX } else { 0 }),
        77 => !a, 78 => a & b, 79 => a & !b, 80 => a | b, 81 => a ^ b, 82 => a & c | b & !c, 83 => (a != 0) as u128,
        94 => join(lanes(a, 64).into_iter().map(|x| c32(d(x) as f32) as u64), 32),
        95 => join(lanes(a, 32)[..2].iter().map(|x| c64(f(*x) as f64) as u64), 64),
        96 | 128 | 160 | 192 => { let w = 8 << ((sub - 96) / 32); map1(a, w, |x| s(x, w).wrapping_abs() as u64) }
        97 | 129 | 161 | 193 => { let w = 8 << ((sub - 97) / 32); map1(a, w, |x| (x as i64).wrapping_neg() as u64) }
        98 => map1(a, 8, |x| x.count_ones() as u64),
        99 | 131 | 163 | 195 => { let w = 8 << ((sub - 99) / 32); lanes(a, w).iter().all(|x| *x != 0) as u128 }
        100 | 132 | 164 | 196 => { let w = 8 << ((sub - 100) / 32); lanes(a, w).iter().enumerate().fold(0, |m, (i, x)| m | ((x >> (w - 1)) as u128 & 1) << i) }
        101 | 102 => narrow(a, b, 16, sub == 101), 133 | 134 => narrow(a, b, 32, sub == 133),
        103..=106 => map1(a, 32, |x| round32(x as u32, (sub - 103) as u8) as u64),
        107..=109 => shift(sub - 107, 8, a, b), 139..=141 => shift(sub - 139, 16, a, b), 171..=173 => shift(sub - 171, 32, a, b), 203..=205 => shift(sub - 203, 64, a, b),
        110..=115 => intbin(sub - 110, 8, a, b),
        116 | 117 => map1(a, 64, |x| round64(x, (sub - 116) as u8) as u64), 122 => map1(a, 64, |x| round64(x, 2) as u64), 148 => map1(a, 64, |x| round64(x, 3) as u64),
        118..=121 => intbin(sub - 118 + 7, 8, a, b), 123 => intbin(11, 8, a, b),
        124 | 125 => extadd(a, 8, sub == 124), 126 | 127 => extadd(a, 16, sub == 126),
        130 => map2(a, b, 16, |x, y| clampi(q15(x, y), 16, true)),
        135..=138 => extend(a, 8, sub % 2 == 0, sub < 137),
        142..=147 => intbin(sub - 142, 16, a, b), 149 => intbin(6, 16, a, b), 150..=153 => intbin(sub - 150 + 7, 16, a, b), 155 => intbin(11, 16, a, b),
        156..=159 => extmul(a, b, 8, sub % 2 == 1, sub < 158),
        167..=170 => extend(a, 16, sub % 2 == 0, sub < 169),
        174 => intbin(0, 32, a, b), 177 => intbin(3, 32, a, b), 181 => intbin(6, 32, a, b), 182..=185 => intbin(sub - 182 + 7, 32, a, b),
        186 => { let p: Vec<i64> = lanes(a, 16).into_iter().zip(lanes(b, 16)).map(|(x, y)| s(x, 16) * s(y, 16)).collect(); join(p.chunks(2).map(|c| (c[0] + c[1]) as u64), 32) }
        188..=191 => extmul(a, b, 16, sub % 2 == 1, sub < 190),
        199..=202 => extend(a, 32, sub % 2 == 0, sub < 201),
        206 => intbin(0, 64, a, b), 209 => intbin(3, 64, a, b), 213 => intbin(6, 64, a, b),
        214 | 215 => map2(a, b, 64, |x, y| cmp(sub - 214, x, y, 64)), 216..=219 => map2(a, b, 64, |x, y| cmp((sub - 216) * 2 + 2, x, y, 64)),
        220..=223 => extmul(a, b, 32, sub % 2 == 1, sub < 222),
        224 => map1(a, 32, |x| x & 0x7fff_ffff), 225 => map1(a, 32, |x| x ^ 0x8000_0000), 227 => map1(a, 32, |x| c32(f(x).sqrt()) as u64),
        228 => map2(a, b, 32, |x, y| c32(f(x) + f(y)) as u64), 229 => map2(a, b, 32, |x, y| c32(f(x) - f(y)) as u64), 230 => map2(a, b, 32, |x, y| c32(f(x) * f(y)) as u64), 231 => map2(a, b, 32, |x, y| c32(f(x) / f(y)) as u64),
        232 => map2(a, b, 32, |x, y| fmin32(f(x), f(y)) as u64), 233 => map2(a, b, 32, |x, y| fmax32(f(x), f(y)) as u64),
        234 => map2(a, b, 32, |x, y| if f(y) < f(x) { y } else { x }), 235 => map2(a, b, 32, |x, y| if f(x) < f(y) { y } else { x }),
        236 => map1(a, 64, |x| x & (u64::MAX >> 1)), 237 => map1(a, 64, |x| x ^ 1 << 63), 239 => map1(a, 64, |x| c64(d(x).sqrt()) as u64),
        240 => map2(a, b, 64, |x, y| c64(d(x) + d(y)) as u64), 241 => map2(a, b, 64, |x, y| c64(d(x) - d(y)) as u64), 242 => map2(a, b, 64, |x, y| c64(d(x) * d(y)) as u64), 243 => map2(a, b, 64, |x, y| c64(d(x) / d(y)) as u64),
        244 => map2(a, b, 64, |x, y| fmin64(d(x), d(y)) as u64), 245 => map2(a, b, 64, |x, y| fmax64(d(x), d(y)) as u64),
        246 => map2(a, b, 64, |x, y| if d(y) < d(x) { y } else { x }), 247 => map2(a, b, 64, |x, y| if d(x) < d(y) { y } else { x }),
        248 | 249 => map1(a, 32, |x| trunc_sat(f(x) as f64, 32, sub == 248) as u64),
        250 => map1(a, 32, |x| to_f32(s(x, 32) as i128) as u64), 251 => map1(a, 32, |x| to_f32(x as i128) as u64),
        252 | 253 => join(lanes(a, 64).into_iter().map(|x| trunc_sat(d(x), 32, sub == 252) as u64), 32),
        254 => join(lanes(a, 32)[..2].iter().map(|x| to_f64(s(*x, 32) as i128) as u64), 64), 255 => join(lanes(a, 32)[..2].iter().map(|x| to_f64(*x as i128) as u64), 64),
        256..=275 => return relaxed(sub, a, b, c),
        _ => panic!("v_op {sub}"),
    }]
}

/// Per-lane choice sets are combined as the spec does: the choice is fixed per operator, so all lanes
/// of one execution use the same alternative.
fn relaxed(sub: u32, a: u128, b: u128, c: u128) -> Vec<u128> {
    let mut r = match sub {
        256 => { let l = lanes(a, 8); vec![swizzle(a, b), map1(b, 8, |i| if i < 128 { l[(i & 15) as usize] } else { 0 })] }
        257 | 258 => { // f32x4: in range exact, NaN -> 0 or INT_MIN/UINT_MAX, out of range saturate or INT_MIN/UINT_MAX
            let signed = sub == 257;
            let alt = if signed { 0x8000_0000u64 } else { 0xffff_ffff };
            let sat = map1(a, 32, |x| trunc_sat(f(x) as f64, 32, signed) as u64);
            vec![sat, map1(a, 32, |x| if out_of_range(f(x) as f64, signed) { alt } else { trunc_sat(f(x) as f64, 32, signed) as u64 }),
                 map1(a, 32, |x| if f(x).is_nan() { alt } else { trunc_sat(f(x) as f64, 32, signed) as u64 })]
        }
        259 | 260 => {
            let signed = sub == 259;
            let alt = if signed { 0x8000_0000u64 } else { 0xffff_ffff };
            let g = |k: u8| join(lanes(a, 64).into_iter().map(|x| { let v = d(x); if k == 1 && out_of_range(v, signed) || k == 2 && v.is_nan() { alt } else { trunc_sat(v, 32, signed) as u64 } }), 32);
            vec![g(0), g(1), g(2)]
        }
        261 | 262 => { let m = |x: u64, y: u64, z: u64| { let (x, y, z) = (if sub == 262 { -f(x) } else { f(x) }, f(y), f(z)); [c32(x * y + z) as u64, c32(x.mul_add(y, z)) as u64] }; map3alt(a, b, c, 32, m) }
        263 | 264 => { let m = |x: u64, y: u64, z: u64| { let (x, y, z) = (if sub == 264 { -d(x) } else { d(x) }, d(y), d(z)); [c64(x * y + z) as u64, c64(x.mul_add(y, z)) as u64] }; map3alt(a, b, c, 64, m) }
        265..=268 => { let w = 8 << (sub - 265); vec![a & c | b & !c, join(lanes(a, w).into_iter().zip(lanes(b, w)).zip(lanes(c, w)).map(|((x, y), z)| if z >> (w - 1) & 1 == 1 { x } else { y }), w)] }
        269 => vec![v_op(232, a, b, c)[0], v_op(234, a, b, c)[0], map2(a, b, 32, |x, y| minmax_alt32(x, y, false))],
        270 => vec![v_op(233, a, b, c)[0], v_op(235, a, b, c)[0], map2(a, b, 32, |x, y| minmax_alt32(x, y, true))],
        271 => vec![v_op(244, a, b, c)[0], v_op(246, a, b, c)[0], map2(a, b, 64, |x, y| minmax_alt64(x, y, false))],
        272 => vec![v_op(245, a, b, c)[0], v_op(247, a, b, c)[0], map2(a, b, 64, |x, y| minmax_alt64(x, y, true))],
        273 => vec![v_op(130, a, b, c)[0], map2(a, b, 16, |x, y| q15(x, y) as u64)],
        274 => dot(a, b).to_vec(),
        275 => dot32(a, b).into_iter().map(|p| map2(p, c, 32, |x, y| x.wrapping_add(y))).collect(),
        _ => panic!(),
    };
    r.dedup();
    r
}
fn minmax_alt32(x: u64, y: u64, max: bool) -> u64 { let (p, q) = (f(x), f(y)); if p.is_nan() || q.is_nan() || p == q { y } else if (p < q) != max { x } else { y } }
fn minmax_alt64(x: u64, y: u64, max: bool) -> u64 { let (p, q) = (d(x), d(y)); if p.is_nan() || q.is_nan() || p == q { y } else if (p < q) != max { x } else { y } }
fn out_of_range(v: f64, signed: bool) -> bool { v.is_nan() || if signed { v <= -2147483649.0 || v >= 2147483648.0 } else { v <= -1.0 || v >= 4294967296.0 } }
fn map3alt(a: u128, b: u128, c: u128, w: u32, m: impl Fn(u64, u64, u64) -> [u64; 2]) -> Vec<u128> {
    (0..2).map(|k| join(lanes(a, w).into_iter().zip(lanes(b, w)).zip(lanes(c, w)).map(|((x, y), z)| m(x, y, z)[k]), w)).collect()
}
/// signed*signed, or signed*unsigned 7-bit second operand, each with wrapping or saturating addition
fn dot(a: u128, b: u128) -> [u128; 4] {
    let g = |uns: bool, sat: bool| {
        let p: Vec<i64> = lanes(a, 8).into_iter().zip(lanes(b, 8)).map(|(x, y)| s(x, 8) * if uns { y as i64 } else { s(y, 8) }).collect();
        join(p.chunks(2).map(|c| if sat { clampi(c[0] + c[1], 16, true) } else { (c[0] + c[1]) as u64 }), 16)
    };
    [g(false, false), g(false, true), g(true, false), g(true, true)]
}
fn dot32(a: u128, b: u128) -> Vec<u128> {
    let mut v: Vec<u128> = dot(a, b).into_iter().map(|p| extadd(p, 16, true)).collect();
    for uns in [false, true] {
        let p: Vec<i64> = lanes(a, 8).into_iter().zip(lanes(b, 8)).map(|(x, y)| s(x, 8) * if uns { y as i64 } else { s(y, 8) }).collect();
        v.push(join(p.chunks(4).map(|c| c.iter().sum::<i64>() as u64), 32));
    }
    v
}
