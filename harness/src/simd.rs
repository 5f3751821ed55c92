//! Vector semantics, written from the WebAssembly specification (fixed-width and relaxed SIMD).

use crate::num::*;
use crate::runner::{R, Stop};
use crate::val::*;

fn lanes(v: u128, w: u32) -> Vec<u64> {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    (0..128 / w).map(|i| (v >> (i * w)) as u64 & m).collect()
}
fn join(l: &[u64], w: u32) -> u128 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    l.iter().enumerate().fold(0u128, |a, (i, x)| a | ((x & m) as u128) << (i as u32 * w))
}
fn sx(x: u64, w: u32) -> i64 {
    ((x << (64 - w)) as i64) >> (64 - w)
}
fn map1(a: u128, w: u32, f: impl Fn(u64) -> u64) -> Val {
    v128v(join(&lanes(a, w).into_iter().map(f).collect::<Vec<_>>(), w))
}
fn map2(a: u128, b: u128, w: u32, f: impl Fn(u64, u64) -> u64) -> Val {
    let r: Vec<u64> = lanes(a, w).into_iter().zip(lanes(b, w)).map(|(x, y)| f(x, y)).collect();
    v128v(join(&r, w))
}
fn sat_s(x: i64, w: u32) -> u64 {
    x.clamp(-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) as u64
}
fn sat_u(x: i64, w: u32) -> u64 {
    x.clamp(0, (1i64 << w) - 1) as u64
}

fn icmp(k: u32, w: u32, a: u128, b: u128) -> Val {
    // eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u
    map2(a, b, w, |x, y| {
        let (s, t) = (sx(x, w), sx(y, w));
        let r = match k {
            0 => x == y,
            1 => x != y,
            2 => s < t,
            3 => x < y,
            4 => s > t,
            5 => x > y,
            6 => s <= t,
            7 => x <= y,
            8 => s >= t,
            _ => x >= y,
        };
        if r { u64::MAX } else { 0 }
    })
}
fn fcmp(k: u32, x: f64, y: f64) -> u64 {
    let r = match k {
        0 => x == y,
        1 => !(x == y),
        2 => x < y,
        3 => x > y,
        4 => x <= y,
        _ => x >= y,
    };
    if r { u64::MAX } else { 0 }
}

fn f32x4_1(a: Val, f: impl Fn(F32v) -> F32v) -> R<Val> {
    let mut r = [F32v { b: 0, t: 0 }; 4];
    for (i, x) in r.iter_mut().enumerate() {
        *x = f(a.l32(i)?);
    }
    Ok(Val::from32(r))
}
fn f32x4_2(a: Val, b: Val, f: impl Fn(F32v, F32v) -> F32v) -> R<Val> {
    let mut r = [F32v { b: 0, t: 0 }; 4];
    for (i, x) in r.iter_mut().enumerate() {
        *x = f(a.l32(i)?, b.l32(i)?);
    }
    Ok(Val::from32(r))
}
fn f64x2_1(a: Val, f: impl Fn(F64v) -> F64v) -> R<Val> {
    Ok(Val::from64([f(a.l64(0)?), f(a.l64(1)?)]))
}
fn f64x2_2(a: Val, b: Val, f: impl Fn(F64v, F64v) -> F64v) -> R<Val> {
    Ok(Val::from64([f(a.l64(0)?, b.l64(0)?), f(a.l64(1)?, b.l64(1)?)]))
}

/// Operators without immediates and with exactly one permitted result (op < 0x100).
pub fn simd(op: u32, a: &[Val]) -> R<Val> {
    // floating-point lanes first: they may carry NaN codes
    let y = a.get(1).copied().unwrap_or_default();
    let x = a[0];
    match op {
        0x13 => {
            let v = x.f32();
            return Ok(Val::from32([v; 4]));
        }
        0x14 => return Ok(Val::from64([x.f64(); 2])),
        0x41..=0x46 => {
            let mut r = vec![];
            for i in 0..4 {
                r.push(fcmp(op - 0x41, x.l32(i)?.f() as f64, y.l32(i)?.f() as f64));
            }
            return Ok(v128v(join(&r, 32)));
        }
        0x47..=0x4c => {
            let mut r = vec![];
            for i in 0..2 {
                r.push(fcmp(op - 0x47, x.l64(i)?.f(), y.l64(i)?.f()));
            }
            return Ok(v128v(join(&r, 64)));
        }
        0x5e => {
            let z = F32v { b: 0, t: 0 };
            return Ok(Val::from32([demote(x.l64(0)?), demote(x.l64(1)?), z, z]));
        }
        0x5f => return Ok(Val::from64([promote(x.l32(0)?), promote(x.l32(1)?)])),
        0x67 | 0x68 | 0x69 | 0x6a => return f32x4_1(x, |v| fun32((op - 0x67) as u8, v)),
        0x74 => return f64x2_1(x, |v| fun64(0, v)),
        0x75 => return f64x2_1(x, |v| fun64(1, v)),
        0x7a => return f64x2_1(x, |v| fun64(2, v)),
        0x94 => return f64x2_1(x, |v| fun64(3, v)),
        0xe0 => {
            return f32x4_1(x, |v| F32v { b: v.b & 0x7fff_ffff, t: v.t });
        }
        0xe1 => {
            return f32x4_1(x, |v| F32v { b: v.b ^ 0x8000_0000, t: v.t });
        }
        0xe3 => return f32x4_1(x, |v| fun32(4, v)),
        0xe4..=0xe7 => return f32x4_2(x, y, |u, v| fbin32((op - 0xe4) as u8, u, v)),
        0xe8 => return f32x4_2(x, y, fmin32),
        0xe9 => return f32x4_2(x, y, fmax32),
        0xea => return f32x4_2(x, y, |u, v| if v.f() < u.f() { v } else { u }),
        0xeb => return f32x4_2(x, y, |u, v| if u.f() < v.f() { v } else { u }),
        0xec => {
            return f64x2_1(x, |v| F64v { b: v.b & !(1 << 63), t: v.t });
        }
        0xed => {
            return f64x2_1(x, |v| F64v { b: v.b ^ (1 << 63), t: v.t });
        }
        0xef => return f64x2_1(x, |v| fun64(4, v)),
        0xf0..=0xf3 => return f64x2_2(x, y, |u, v| fbin64((op - 0xf0) as u8, u, v)),
        0xf4 => return f64x2_2(x, y, fmin64),
        0xf5 => return f64x2_2(x, y, fmax64),
        0xf6 => return f64x2_2(x, y, |u, v| if v.f() < u.f() { v } else { u }),
        0xf7 => return f64x2_2(x, y, |u, v| if u.f() < v.f() { v } else { u }),
        0xf8 | 0xf9 => {
            let mut r = vec![];
            for i in 0..4 {
                r.push(trunc_sat_to(x.l32(i)?.f() as f64, op == 0xf8, 32));
            }
            return Ok(v128v(join(&r, 32)));
        }
        0xfc | 0xfd => {
            let r = [trunc_sat_to(x.l64(0)?.f(), op == 0xfc, 32), trunc_sat_to(x.l64(1)?.f(), op == 0xfc, 32), 0, 0];
            return Ok(v128v(join(&r, 32)));
        }
        0xfa | 0xfb => {
            let l = lanes(x.bits()?, 32);
            let mut r = [F32v { b: 0, t: 0 }; 4];
            for i in 0..4 {
                let v = l[i] as u32;
                r[i].b = if op == 0xfa { v as i32 as f32 } else { v as f32 }.to_bits();
            }
            return Ok(Val::from32(r));
        }
        0xfe | 0xff => {
            let l = lanes(x.bits()?, 32);
            let mut r = [F64v { b: 0, t: 0 }; 2];
            for i in 0..2 {
                let v = l[i] as u32;
                r[i].b = if op == 0xfe { v as i32 as f64 } else { v as f64 }.to_bits();
            }
            return Ok(Val::from64(r));
        }
        _ => {}
    }

    let p = x.bits()?;
    let q = y.bits()?;
    Ok(match op {
        0x0e => {
            let t = lanes(p, 8);
            map1(q, 8, |i| if i < 16 { t[i as usize] } else { 0 })
        }
        0x0f => v128v(join(&[p as u64; 16], 8)),
        0x10 => v128v(join(&[p as u64; 8], 16)),
        0x11 => v128v(join(&[p as u64; 4], 32)),
        0x12 => v128v(join(&[p as u64; 2], 64)),
        0x23..=0x2c => icmp(op - 0x23, 8, p, q),
        0x2d..=0x36 => icmp(op - 0x2d, 16, p, q),
        0x37..=0x40 => icmp(op - 0x37, 32, p, q),
        0xd6 => icmp(0, 64, p, q),
        0xd7 => icmp(1, 64, p, q),
        0xd8 => icmp(2, 64, p, q),
        0xd9 => icmp(4, 64, p, q),
        0xda => icmp(6, 64, p, q),
        0xdb => icmp(8, 64, p, q),
        0x4d => v128v(!p),
        0x4e => v128v(p & q),
        0x4f => v128v(p & !q),
        0x50 => v128v(p | q),
        0x51 => v128v(p ^ q),
        0x52 => {
            let c = a[2].bits()?;
            v128v((p & c) | (q & !c))
        }
        0x53 => boolv(p != 0),
        // abs neg popcnt all_true bitmask
        0x60 | 0x80 | 0xa0 | 0xc0 => {
            let w = 8 << ((op - 0x60) / 0x20);
            map1(p, w, |v| if sx(v, w) < 0 { 0u64.wrapping_sub(v) } else { v })
        }
        0x61 | 0x81 | 0xa1 | 0xc1 => map1(p, 8 << ((op - 0x61) / 0x20), |v| 0u64.wrapping_sub(v)),
        0x62 => map1(p, 8, |v| v.count_ones() as u64),
        0x63 | 0x83 | 0xa3 | 0xc3 => boolv(lanes(p, 8 << ((op - 0x63) / 0x20)).iter().all(|v| *v != 0)),
        0x64 | 0x84 | 0xa4 | 0xc4 => {
            let w = 8 << ((op - 0x64) / 0x20);
            i32v(lanes(p, w).iter().enumerate().fold(0, |m, (i, v)| m | ((v >> (w - 1)) as u32 & 1) << i))
        }
        // narrow
        0x65 | 0x66 | 0x85 | 0x86 => {
            let w = if op < 0x80 { 16 } else { 32 };
            let h = w / 2;
            let l: Vec<u64> =
                lanes(p, w).into_iter().chain(lanes(q, w)).map(|v| if op & 1 == 1 { sat_s(sx(v, w), h) } else { sat_u(sx(v, w), h) }).collect();
            v128v(join(&l, h))
        }
        // shifts: second operand is an i32
        0x6b..=0x6d | 0x8b..=0x8d | 0xab..=0xad | 0xcb..=0xcd => {
            let w = 8 << ((op - 0x6b) / 0x20);
            let n = (q as u32) % w;
            match (op - 0x6b) % 0x20 {
                0 => map1(p, w, |v| v << n),
                1 => map1(p, w, |v| (sx(v, w) >> n) as u64),
                _ => map1(p, w, |v| v >> n),
            }
        }
        0x6e | 0x8e | 0xae | 0xce => {
            let w = 8 << ((op - 0x6e) / 0x20);
            map2(p, q, w, |u, v| u.wrapping_add(v))
        }
        0x71 | 0x91 | 0xb1 | 0xd1 => {
            let w = 8 << ((op - 0x71) / 0x20);
            map2(p, q, w, |u, v| u.wrapping_sub(v))
        }
        0x6f | 0x8f => {
            let w = 8 << ((op - 0x6f) / 0x20);
            map2(p, q, w, |u, v| sat_s(sx(u, w) + sx(v, w), w))
        }
        0x70 | 0x90 => {
            let w = 8 << ((op - 0x70) / 0x20);
            map2(p, q, w, |u, v| sat_u((u + v) as i64, w))
        }
        0x72 | 0x92 => {
            let w = 8 << ((op - 0x72) / 0x20);
            map2(p, q, w, |u, v| sat_s(sx(u, w) - sx(v, w), w))
        }
        0x73 | 0x93 => {
            let w = 8 << ((op - 0x73) / 0x20);
            map2(p, q, w, |u, v| sat_u(u as i64 - v as i64, w))
        }
        0x76..=0x79 | 0x96..=0x99 | 0xb6..=0xb9 => {
            let w = 8 << ((op - 0x76) / 0x20);
            let k = (op - 0x76) % 0x20;
            map2(p, q, w, |u, v| {
                let (s, t) = (sx(u, w), sx(v, w));
                match k {
                    0 => s.min(t) as u64,
                    1 => u.min(v),
                    2 => s.max(t) as u64,
                    _ => u.max(v),
                }
            })
        }
        0x7b | 0x9b => {
            let w = 8 << ((op - 0x7b) / 0x20);
            map2(p, q, w, |u, v| (u + v + 1) / 2)
        }
        0x7c..=0x7f => {
            let w = if op < 0x7e { 8 } else { 16 };
            let signed = op & 1 == 0;
            let l = lanes(p, w);
            let e = |v: u64| if signed { sx(v, w) } else { v as i64 };
            v128v(join(&l.chunks(2).map(|c| (e(c[0]) + e(c[1])) as u64).collect::<Vec<_>>(), w * 2))
        }
        0x82 => map2(p, q, 16, |u, v| sat_s((sx(u, 16) * sx(v, 16) + 0x4000) >> 15, 16)),
        0x87..=0x8a | 0xa7..=0xaa | 0xc7..=0xca => {
            // extend low_s high_s low_u high_u
            let w = 8 << ((op - 0x87) / 0x20);
            let k = (op - 0x87) % 0x20;
            let l = lanes(p, w);
            let half = if k & 1 == 0 { &l[..l.len() / 2] } else { &l[l.len() / 2..] };
            v128v(join(&half.iter().map(|v| if k < 2 { sx(*v, w) as u64 } else { *v }).collect::<Vec<_>>(), w * 2))
        }
        0x95 | 0xb5 | 0xd5 => {
            let w = 8 << ((op - 0x75) / 0x20);
            map2(p, q, w, |u, v| u.wrapping_mul(v))
        }
        0x9c..=0x9f | 0xbc..=0xbf | 0xdc..=0xdf => {
            // extmul low_s high_s low_u high_u
            let w = 8 << ((op - 0x9c) / 0x20);
            let k = (op - 0x9c) % 0x20;
            let (l, m) = (lanes(p, w), lanes(q, w));
            let n = l.len() / 2;
            let o = if k & 1 == 0 { 0 } else { n };
            let e = |v: u64| if k < 2 { sx(v, w) as i128 } else { v as i128 };
            v128v(join(&(0..n).map(|i| (e(l[o + i]) * e(m[o + i])) as u64).collect::<Vec<_>>(), w * 2))
        }
        0xba => {
            let (l, m) = (lanes(p, 16), lanes(q, 16));
            let r: Vec<u64> = (0..4).map(|i| (sx(l[2 * i], 16) * sx(m[2 * i], 16) + sx(l[2 * i + 1], 16) * sx(m[2 * i + 1], 16)) as u64).collect();
            v128v(join(&r, 32))
        }
        _ => panic!("simd {op:#x}"),
    })
}

/// Relaxed operators: lane width in bytes and the permitted results (lane by lane).
pub fn relaxed(op: u32, a: &[Val]) -> R<(usize, Vec<Val>)> {
    let x = a[0];
    let y = a.get(1).copied().unwrap_or_default();
    Ok(match op {
        0x100 => {
            let (p, q) = (x.bits()?, y.bits()?);
            let t = lanes(p, 8);
            let one = simd(0x0e, a)?;
            let two = map1(q, 8, |i| if i < 128 { t[(i % 16) as usize] } else { 0 });
            (1, vec![one, two])
        }
        0x101..=0x104 => {
            let signed = op & 1 == 1;
            let strict = simd(0xf8 + (op - 0x101) + if op >= 0x103 { 2 } else { 0 }, a)?;
            let mut r = vec![];
            let other = if signed { 0x8000_0000u64 } else { 0xffff_ffff };
            for i in 0..4 {
                let v = if op < 0x103 {
                    x.l32(i)?.f() as f64
                } else if i < 2 {
                    x.l64(i)?.f()
                } else {
                    r.push(0);
                    continue;
                };
                let t = v.trunc();
                let ok = if signed { (-2147483648.0..=2147483647.0).contains(&t) } else { (0.0..=4294967295.0).contains(&t) };
                r.push(if ok { trunc_sat_to(v, signed, 32) } else { other });
            }
            (4, vec![strict, v128v(join(&r, 32))])
        }
        0x105 | 0x106 => {
            let z = a[2];
            let (mut u, mut v) = ([F32v { b: 0, t: 0 }; 4], [F32v { b: 0, t: 0 }; 4]);
            for i in 0..4 {
                let (mut l, m, n) = (x.l32(i)?, y.l32(i)?, z.l32(i)?);
                if op == 0x106 {
                    l.b ^= 0x8000_0000;
                }
                u[i] = fbin32(0, fbin32(2, l, m), n);
                v[i] = fin32(l.f().mul_add(m.f(), n.f()), [l, m, n].iter().all(|x| !x.nan() || x.canon()));
            }
            (4, vec![Val::from32(u), Val::from32(v)])
        }
        0x107 | 0x108 => {
            let z = a[2];
            let (mut u, mut v) = ([F64v { b: 0, t: 0 }; 2], [F64v { b: 0, t: 0 }; 2]);
            for i in 0..2 {
                let (mut l, m, n) = (x.l64(i)?, y.l64(i)?, z.l64(i)?);
                if op == 0x108 {
                    l.b ^= 1 << 63;
                }
                u[i] = fbin64(0, fbin64(2, l, m), n);
                v[i] = fin64(l.f().mul_add(m.f(), n.f()), [l, m, n].iter().all(|x| !x.nan() || x.canon()));
            }
            (8, vec![Val::from64(u), Val::from64(v)])
        }
        0x109..=0x10c => {
            let w = 8u32 << (op - 0x109);
            let (p, q, c) = (x.bits()?, y.bits()?, a[2].bits()?);
            let bit = simd(0x52, a)?;
            let msel = |w: u32| {
                let (l, m, k) = (lanes(p, w), lanes(q, w), lanes(c, w));
                v128v(join(&(0..l.len()).map(|i| if k[i] >> (w - 1) & 1 == 1 { l[i] } else { m[i] }).collect::<Vec<_>>(), w))
            };
            let mut alts = vec![bit, msel(w)];
            if w == 16 {
                alts.push(msel(8));
            }
            (w as usize / 8, alts)
        }
        0x10d | 0x10e => {
            let strict = simd(if op == 0x10d { 0xe8 } else { 0xe9 }, a)?;
            let mut alts = vec![strict];
            if (0..4).any(|i| {
                let (u, v) = (x.l32(i), y.l32(i));
                matches!((u, v), (Ok(u), Ok(v)) if u.nan() || v.nan() || (u.f() == 0.0 && v.f() == 0.0))
            }) {
                // per lane: either operand where the operands are NaN or zeros
                for side in [x, y] {
                    let mut r = [F32v { b: 0, t: 0 }; 4];
                    for (i, o) in r.iter_mut().enumerate() {
                        let (u, v) = (x.l32(i)?, y.l32(i)?);
                        let free = u.nan() || v.nan() || (u.f() == 0.0 && v.f() == 0.0);
                        *o = if free { side.l32(i)? } else { strict.l32(i)? };
                    }
                    alts.push(Val::from32(r));
                }
            }
            (4, alts)
        }
        0x10f | 0x110 => {
            let strict = simd(if op == 0x10f { 0xf4 } else { 0xf5 }, a)?;
            let mut alts = vec![strict];
            for side in [x, y] {
                let mut r = [F64v { b: 0, t: 0 }; 2];
                for (i, o) in r.iter_mut().enumerate() {
                    let (u, v) = (x.l64(i)?, y.l64(i)?);
                    let free = u.nan() || v.nan() || (u.f() == 0.0 && v.f() == 0.0);
                    *o = if free { side.l64(i)? } else { strict.l64(i)? };
                }
                if r[0].b as u128 | (r[1].b as u128) << 64 != strict.b {
                    alts.push(Val::from64(r));
                }
            }
            (8, alts)
        }
        0x111 => {
            let strict = simd(0x82, a)?;
            let wrap = map2(x.bits()?, y.bits()?, 16, |u, v| ((sx(u, 16) * sx(v, 16) + 0x4000) >> 15) as u64);
            (2, vec![strict, wrap])
        }
        0x112 | 0x113 => {
            let (l, m) = (lanes(x.bits()?, 8), lanes(y.bits()?, 8));
            let mut alts = vec![];
            for unsigned in [false, true] {
                for mode in 0..3 {
                    // 0: wrap to 16 bits, 1: saturate to 16 bits, 2: keep exact (accumulating form only)
                    if mode == 2 && op == 0x112 {
                        continue;
                    }
                    let e = |v: u64| if unsigned { v as i64 } else { sx(v, 8) };
                    let s: Vec<i64> = (0..8)
                        .map(|i| {
                            let t = sx(l[2 * i], 8) * e(m[2 * i]) + sx(l[2 * i + 1], 8) * e(m[2 * i + 1]);
                            match mode {
                                0 => t as i16 as i64,
                                1 => t.clamp(-32768, 32767),
                                _ => t,
                            }
                        })
                        .collect();
                    let v = if op == 0x112 {
                        v128v(join(&s.iter().map(|x| *x as u64).collect::<Vec<_>>(), 16))
                    } else {
                        let c = lanes(a[2].bits()?, 32);
                        v128v(join(&(0..4).map(|i| ((s[2 * i] + s[2 * i + 1]) as u64).wrapping_add(c[i])).collect::<Vec<_>>(), 32))
                    };
                    if !alts.contains(&v) {
                        alts.push(v);
                    }
                }
            }
            (if op == 0x112 { 2 } else { 4 }, alts)
        }
        _ => panic!("relaxed {op:#x}"),
    })
}

/// Do the bits agree lane by lane with one of the permitted results?
pub fn agrees_any(lane: usize, alts: &[Val], got: u128) -> bool {
    (0..16 / lane).all(|i| {
        alts.iter().any(|v| {
            let sh = i * lane;
            let m = if lane == 16 { u128::MAX } else { (1u128 << (lane * 8)) - 1 };
            let tm = if lane == 16 { u64::MAX } else { (1u64 << (lane * 4)) - 1 };
            let part = Val { b: (v.b >> (sh * 8)) & m, t: (v.t >> (sh * 4)) & tm };
            let g = (got >> (sh * 8)) & m;
            if lane >= 4 && lane <= 8 { agrees(Val { b: part.b, t: part.t & 0xf }, g, lane) } else { part.t == 0 && part.b == g }
        })
    })
}

pub fn vector(op: u32, a: &[Val]) -> R<Val> {
    if op >= 0x100 {
        let (_, alts) = relaxed(op, a)?;
        if alts.iter().any(|v| *v != alts[0]) {
            return Err(Stop::Discard("relaxed operator with several permitted results"));
        }
        return Ok(alts[0]);
    }
    simd(op, a)
}

/// extract_lane / replace_lane
pub fn lane(op: u32, l: u8, a: &[Val]) -> R<Val> {
    let i = l as usize;
    let x = a[0];
    let set = |w: u32, v: u64| -> R<Val> {
        let mut t = lanes(x.bits()?, w);
        t[i] = v;
        Ok(v128v(join(&t, w)))
    };
    Ok(match op {
        0x15 => i32v(sx(lanes(x.bits()?, 8)[i], 8) as u32),
        0x16 => i32v(lanes(x.bits()?, 8)[i] as u32),
        0x17 => set(8, a[1].i64())?,
        0x18 => i32v(sx(lanes(x.bits()?, 16)[i], 16) as u32),
        0x19 => i32v(lanes(x.bits()?, 16)[i] as u32),
        0x1a => set(16, a[1].i64())?,
        0x1b => i32v(lanes(x.bits()?, 32)[i] as u32),
        0x1c => set(32, a[1].i64())?,
        0x1d => i64v(lanes(x.bits()?, 64)[i]),
        0x1e => set(64, a[1].i64())?,
        0x1f => x.l32(i)?.val(),
        0x20 => {
            let mut r = [x.l32(0)?, x.l32(1)?, x.l32(2)?, x.l32(3)?];
            r[i] = a[1].f32();
            Val::from32(r)
        }
        0x21 => x.l64(i)?.val(),
        0x22 => {
            let mut r = [x.l64(0)?, x.l64(1)?];
            r[i] = a[1].f64();
            Val::from64(r)
        }
        _ => panic!("lane {op:#x}"),
    })
}

pub fn shuffle(l: &[u8; 16], a: &[Val]) -> R<Val> {
    let (p, q) = (lanes(a[0].bits()?, 8), lanes(a[1].bits()?, 8));
    Ok(v128v(join(&l.iter().map(|i| if *i < 16 { p[*i as usize] } else { q[*i as usize - 16] }).collect::<Vec<_>>(), 8)))
}

/// Value loaded by a vector load whose `width` bytes are `raw`.
pub fn load(op: u32, raw: u64, raw128: u128) -> Val {
    let wide = |w: u32, signed: bool| {
        let n = 64 / w;
        let m = (1u64 << w) - 1;
        v128v(join(
            &(0..n)
                .map(|i| {
                    let v = raw >> (i * w) & m;
                    if signed { sx(v, w) as u64 } else { v }
                })
                .collect::<Vec<_>>(),
            w * 2,
        ))
    };
    match op {
        0x00 => v128v(raw128),
        0x01 => wide(8, true),
        0x02 => wide(8, false),
        0x03 => wide(16, true),
        0x04 => wide(16, false),
        0x05 => wide(32, true),
        0x06 => wide(32, false),
        0x07 => v128v(join(&[raw; 16], 8)),
        0x08 => v128v(join(&[raw; 8], 16)),
        0x09 => v128v(join(&[raw; 4], 32)),
        0x0a => v128v(join(&[raw; 2], 64)),
        0x5c | 0x5d => v128v(raw as u128),
        _ => panic!("vector load {op:#x}"),
    }
}
