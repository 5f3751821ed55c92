//! Scalar numeric semantics, written from the WebAssembly specification.

use crate::runner::Stop;
use crate::val::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Tr {
    Unreachable,
    MemOob,
    TableOob,
    DivZero,
    Overflow,
    BadConv,
    Undefined,
    Uninit,
    SigMismatch,
    /// error raised by a host function of the harness
    Host(u32),
    /// a host function returned values of the wrong type
    BadHost,
    /// stack exhaustion
    Stack,
}

pub enum Er {
    Trap(Tr),
    Stop(Stop),
}

impl From<Stop> for Er {
    fn from(s: Stop) -> Self {
        Er::Stop(s)
    }
}

pub type ER<T = ()> = Result<T, Er>;

pub fn trap<T>(t: Tr) -> ER<T> {
    Err(Er::Trap(t))
}

fn nc32(xs: &[F32v]) -> bool {
    xs.iter().all(|x| !x.nan() || x.canon())
}
fn nc64(xs: &[F64v]) -> bool {
    xs.iter().all(|x| !x.nan() || x.canon())
}

pub fn fmin32(a: F32v, b: F32v) -> F32v {
    if a.nan() || b.nan() {
        return fin32(f32::NAN, nc32(&[a, b]));
    }
    let (x, y) = (a.f(), b.f());
    if x == 0.0 && y == 0.0 {
        return F32v { b: a.b | b.b, t: 0 };
    }
    if x < y { a } else { b }
}
pub fn fmax32(a: F32v, b: F32v) -> F32v {
    if a.nan() || b.nan() {
        return fin32(f32::NAN, nc32(&[a, b]));
    }
    let (x, y) = (a.f(), b.f());
    if x == 0.0 && y == 0.0 {
        return F32v { b: a.b & b.b, t: 0 };
    }
    if x > y { a } else { b }
}
pub fn fmin64(a: F64v, b: F64v) -> F64v {
    if a.nan() || b.nan() {
        return fin64(f64::NAN, nc64(&[a, b]));
    }
    let (x, y) = (a.f(), b.f());
    if x == 0.0 && y == 0.0 {
        return F64v { b: a.b | b.b, t: 0 };
    }
    if x < y { a } else { b }
}
pub fn fmax64(a: F64v, b: F64v) -> F64v {
    if a.nan() || b.nan() {
        return fin64(f64::NAN, nc64(&[a, b]));
    }
    let (x, y) = (a.f(), b.f());
    if x == 0.0 && y == 0.0 {
        return F64v { b: a.b & b.b, t: 0 };
    }
    if x > y { a } else { b }
}

/// Unary arithmetic selected by `k`: ceil floor trunc nearest sqrt.
pub fn fun32(k: u8, a: F32v) -> F32v {
    let x = a.f();
    fin32(
        match k {
            0 => x.ceil(),
            1 => x.floor(),
            2 => x.trunc(),
            3 => x.round_ties_even(),
            _ => x.sqrt(),
        },
        nc32(&[a]),
    )
}
pub fn fun64(k: u8, a: F64v) -> F64v {
    let x = a.f();
    fin64(
        match k {
            0 => x.ceil(),
            1 => x.floor(),
            2 => x.trunc(),
            3 => x.round_ties_even(),
            _ => x.sqrt(),
        },
        nc64(&[a]),
    )
}
/// add sub mul div
pub fn fbin32(k: u8, a: F32v, b: F32v) -> F32v {
    let (x, y) = (a.f(), b.f());
    fin32(
        match k {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        },
        nc32(&[a, b]),
    )
}
pub fn fbin64(k: u8, a: F64v, b: F64v) -> F64v {
    let (x, y) = (a.f(), b.f());
    fin64(
        match k {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        },
        nc64(&[a, b]),
    )
}

pub fn demote(a: F64v) -> F32v {
    fin32(a.f() as f32, nc64(&[a]))
}
pub fn promote(a: F32v) -> F64v {
    fin64(a.f() as f64, nc32(&[a]))
}

/// Truncate towards zero into [lo, hi]; `None` for NaN.
fn trunc_range(x: f64, lo: f64, hi_excl: f64) -> Option<Result<f64, bool>> {
    if x.is_nan() {
        return None;
    }
    let t = x.trunc();
    if t < lo {
        Some(Err(false))
    } else if t >= hi_excl {
        Some(Err(true))
    } else {
        Some(Ok(t))
    }
}

/// (signed, bits) conversion of `x`; out of range gives Overflow, NaN gives BadConv.
fn trunc_to(x: f64, signed: bool, bits: u32) -> ER<u64> {
    let (lo, hi) = bounds(signed, bits);
    match trunc_range(x, lo, hi) {
        None => trap(Tr::BadConv),
        Some(Err(_)) => trap(Tr::Overflow),
        Some(Ok(t)) => Ok(cast(t, signed, bits)),
    }
}
pub fn trunc_sat_to(x: f64, signed: bool, bits: u32) -> u64 {
    let (lo, hi) = bounds(signed, bits);
    match trunc_range(x, lo, hi) {
        None => 0,
        Some(Err(high)) => match (signed, bits, high) {
            (false, _, false) => 0,
            (false, 32, true) => u32::MAX as u64,
            (false, _, true) => u64::MAX,
            (true, 32, false) => i32::MIN as u32 as u64,
            (true, 32, true) => i32::MAX as u64,
            (true, _, false) => i64::MIN as u64,
            (true, _, true) => i64::MAX as u64,
        },
        Some(Ok(t)) => cast(t, signed, bits),
    }
}
fn bounds(signed: bool, bits: u32) -> (f64, f64) {
    let p = |n: i32| 2f64.powi(n);
    if signed { (-p(bits as i32 - 1), p(bits as i32 - 1)) } else { (0.0, p(bits as i32)) }
}
fn cast(t: f64, signed: bool, bits: u32) -> u64 {
    let v = t as i128;
    let _ = signed;
    if bits == 32 { (v as u32) as u64 } else { v as u64 }
}

pub fn scalar(op: u8, a: &[Val]) -> ER<Val> {
    let x = a[0];
    let y = a.get(1).copied().unwrap_or_default();
    let f32r = |v: F32v| Ok(v.val());
    let f64r = |v: F64v| Ok(v.val());
    match op {
        0x45 => Ok(boolv(x.i32() == 0)),
        0x46..=0x4f => {
            let (u, v) = (x.i32(), y.i32());
            let (s, t) = (u as i32, v as i32);
            Ok(boolv(match op {
                0x46 => u == v,
                0x47 => u != v,
                0x48 => s < t,
                0x49 => u < v,
                0x4a => s > t,
                0x4b => u > v,
                0x4c => s <= t,
                0x4d => u <= v,
                0x4e => s >= t,
                _ => u >= v,
            }))
        }
        0x50 => Ok(boolv(x.i64() == 0)),
        0x51..=0x5a => {
            let (u, v) = (x.i64(), y.i64());
            let (s, t) = (u as i64, v as i64);
            Ok(boolv(match op {
                0x51 => u == v,
                0x52 => u != v,
                0x53 => s < t,
                0x54 => u < v,
                0x55 => s > t,
                0x56 => u > v,
                0x57 => s <= t,
                0x58 => u <= v,
                0x59 => s >= t,
                _ => u >= v,
            }))
        }
        0x5b..=0x60 => {
            let (u, v) = (x.f32().f(), y.f32().f());
            Ok(boolv(match op {
                0x5b => u == v,
                0x5c => !(u == v),
                0x5d => u < v,
                0x5e => u > v,
                0x5f => u <= v,
                _ => u >= v,
            }))
        }
        0x61..=0x66 => {
            let (u, v) = (x.f64().f(), y.f64().f());
            Ok(boolv(match op {
                0x61 => u == v,
                0x62 => !(u == v),
                0x63 => u < v,
                0x64 => u > v,
                0x65 => u <= v,
                _ => u >= v,
            }))
        }
        0x67 => Ok(i32v(x.i32().leading_zeros())),
        0x68 => Ok(i32v(x.i32().trailing_zeros())),
        0x69 => Ok(i32v(x.i32().count_ones())),
        0x6a..=0x78 => {
            let (u, v) = (x.i32(), y.i32());
            let (s, t) = (u as i32, v as i32);
            let m = 1u64 << 32;
            Ok(i32v(match op {
                0x6a => ((u as u64 + v as u64) % m) as u32,
                0x6b => ((u as u64 + m - v as u64) % m) as u32,
                0x6c => ((u as u64 * v as u64) % m) as u32,
                0x6d => {
                    if t == 0 {
                        return trap(Tr::DivZero);
                    }
                    let q = s as i64 / t as i64;
                    if q > i32::MAX as i64 {
                        return trap(Tr::Overflow);
                    }
                    q as u32
                }
                0x6e => {
                    if v == 0 {
                        return trap(Tr::DivZero);
                    }
                    u / v
                }
                0x6f => {
                    if t == 0 {
                        return trap(Tr::DivZero);
                    }
                    (s as i64 % t as i64) as u32
                }
                0x70 => {
                    if v == 0 {
                        return trap(Tr::DivZero);
                    }
                    u % v
                }
                0x71 => u & v,
                0x72 => u | v,
                0x73 => u ^ v,
                0x74 => ((u as u64) << (v % 32)) as u32,
                0x75 => ((s as i64) >> (v % 32)) as u32,
                0x76 => u >> (v % 32),
                0x77 => u.rotate_left(v % 32),
                _ => u.rotate_right(v % 32),
            }))
        }
        0x79 => Ok(i64v(x.i64().leading_zeros() as u64)),
        0x7a => Ok(i64v(x.i64().trailing_zeros() as u64)),
        0x7b => Ok(i64v(x.i64().count_ones() as u64)),
        0x7c..=0x8a => {
            let (u, v) = (x.i64(), y.i64());
            let (s, t) = (u as i64, v as i64);
            let m = 1u128 << 64;
            Ok(i64v(match op {
                0x7c => ((u as u128 + v as u128) % m) as u64,
                0x7d => ((u as u128 + m - v as u128) % m) as u64,
                0x7e => ((u as u128 * v as u128) % m) as u64,
                0x7f => {
                    if t == 0 {
                        return trap(Tr::DivZero);
                    }
                    let q = s as i128 / t as i128;
                    if q > i64::MAX as i128 {
                        return trap(Tr::Overflow);
                    }
                    q as u64
                }
                0x80 => {
                    if v == 0 {
                        return trap(Tr::DivZero);
                    }
                    u / v
                }
                0x81 => {
                    if t == 0 {
                        return trap(Tr::DivZero);
                    }
                    (s as i128 % t as i128) as u64
                }
                0x82 => {
                    if v == 0 {
                        return trap(Tr::DivZero);
                    }
                    u % v
                }
                0x83 => u & v,
                0x84 => u | v,
                0x85 => u ^ v,
                0x86 => ((u as u128) << (v % 64)) as u64,
                0x87 => ((s as i128) >> (v % 64)) as u64,
                0x88 => u >> (v % 64),
                0x89 => u.rotate_left((v % 64) as u32),
                _ => u.rotate_right((v % 64) as u32),
            }))
        }
        0x8b => {
            let v = x.f32();
            f32r(F32v { b: v.b & 0x7fff_ffff, t: v.t })
        }
        0x8c => {
            let v = x.f32();
            f32r(F32v { b: v.b ^ 0x8000_0000, t: v.t })
        }
        0x8d..=0x91 => f32r(fun32(op - 0x8d, x.f32())),
        0x92..=0x95 => f32r(fbin32(op - 0x92, x.f32(), y.f32())),
        0x96 => f32r(fmin32(x.f32(), y.f32())),
        0x97 => f32r(fmax32(x.f32(), y.f32())),
        0x98 => {
            let (u, v) = (x.f32(), y.f32());
            if u.t != 0 {
                return f32r(u);
            }
            if v.t != 0 {
                return Err(Er::Stop(Stop::Discard("NaN bits observed")));
            }
            f32r(F32v { b: (u.b & 0x7fff_ffff) | (v.b & 0x8000_0000), t: 0 })
        }
        0x99 => {
            let v = x.f64();
            f64r(F64v { b: v.b & 0x7fff_ffff_ffff_ffff, t: v.t })
        }
        0x9a => {
            let v = x.f64();
            f64r(F64v { b: v.b ^ (1 << 63), t: v.t })
        }
        0x9b..=0x9f => f64r(fun64(op - 0x9b, x.f64())),
        0xa0..=0xa3 => f64r(fbin64(op - 0xa0, x.f64(), y.f64())),
        0xa4 => f64r(fmin64(x.f64(), y.f64())),
        0xa5 => f64r(fmax64(x.f64(), y.f64())),
        0xa6 => {
            let (u, v) = (x.f64(), y.f64());
            if u.t != 0 {
                return f64r(u);
            }
            if v.t != 0 {
                return Err(Er::Stop(Stop::Discard("NaN bits observed")));
            }
            f64r(F64v { b: (u.b & 0x7fff_ffff_ffff_ffff) | (v.b & (1 << 63)), t: 0 })
        }
        0xa7 => Ok(i32v(x.i64() as u32)),
        0xa8 => Ok(i32v(trunc_to(x.f32().f() as f64, true, 32)? as u32)),
        0xa9 => Ok(i32v(trunc_to(x.f32().f() as f64, false, 32)? as u32)),
        0xaa => Ok(i32v(trunc_to(x.f64().f(), true, 32)? as u32)),
        0xab => Ok(i32v(trunc_to(x.f64().f(), false, 32)? as u32)),
        0xac => Ok(i64v(x.i32() as i32 as i64 as u64)),
        0xad => Ok(i64v(x.i32() as u64)),
        0xae => Ok(i64v(trunc_to(x.f32().f() as f64, true, 64)?)),
        0xaf => Ok(i64v(trunc_to(x.f32().f() as f64, false, 64)?)),
        0xb0 => Ok(i64v(trunc_to(x.f64().f(), true, 64)?)),
        0xb1 => Ok(i64v(trunc_to(x.f64().f(), false, 64)?)),
        0xb2 => f32r(F32v { b: (x.i32() as i32 as f32).to_bits(), t: 0 }),
        0xb3 => f32r(F32v { b: (x.i32() as f32).to_bits(), t: 0 }),
        0xb4 => f32r(F32v { b: (x.i64() as i64 as f32).to_bits(), t: 0 }),
        0xb5 => f32r(F32v { b: (x.i64() as f32).to_bits(), t: 0 }),
        0xb6 => f32r(demote(x.f64())),
        0xb7 => f64r(F64v { b: (x.i32() as i32 as f64).to_bits(), t: 0 }),
        0xb8 => f64r(F64v { b: (x.i32() as f64).to_bits(), t: 0 }),
        0xb9 => f64r(F64v { b: (x.i64() as i64 as f64).to_bits(), t: 0 }),
        0xba => f64r(F64v { b: (x.i64() as f64).to_bits(), t: 0 }),
        0xbb => f64r(promote(x.f32())),
        0xbc..=0xbf => Ok(Val { b: x.bits()?, t: 0 }),
        0xc0 => Ok(i32v(x.i32() as u8 as i8 as i32 as u32)),
        0xc1 => Ok(i32v(x.i32() as u16 as i16 as i32 as u32)),
        0xc2 => Ok(i64v(x.i64() as u8 as i8 as i64 as u64)),
        0xc3 => Ok(i64v(x.i64() as u16 as i16 as i64 as u64)),
        0xc4 => Ok(i64v(x.i64() as u32 as i32 as i64 as u64)),
        _ => panic!("scalar {op:#x}"),
    }
}

pub fn fc(op: u32, a: &[Val]) -> ER<Vec<Val>> {
    let one32 = |v: u64| Ok(vec![i32v(v as u32)]);
    let one64 = |v: u64| Ok(vec![i64v(v)]);
    let two = |v: u128| Ok(vec![i64v(v as u64), i64v((v >> 64) as u64)]);
    match op {
        0 => one32(trunc_sat_to(a[0].f32().f() as f64, true, 32)),
        1 => one32(trunc_sat_to(a[0].f32().f() as f64, false, 32)),
        2 => one32(trunc_sat_to(a[0].f64().f(), true, 32)),
        3 => one32(trunc_sat_to(a[0].f64().f(), false, 32)),
        4 => one64(trunc_sat_to(a[0].f32().f() as f64, true, 64)),
        5 => one64(trunc_sat_to(a[0].f32().f() as f64, false, 64)),
        6 => one64(trunc_sat_to(a[0].f64().f(), true, 64)),
        7 => one64(trunc_sat_to(a[0].f64().f(), false, 64)),
        0x13 | 0x14 => {
            let l = a[0].i64() as u128 | (a[1].i64() as u128) << 64;
            let r = a[2].i64() as u128 | (a[3].i64() as u128) << 64;
            two(if op == 0x13 { l.wrapping_add(r) } else { l.wrapping_sub(r) })
        }
        0x15 => two(((a[0].i64() as i64 as i128) * (a[1].i64() as i64 as i128)) as u128),
        0x16 => two((a[0].i64() as u128) * (a[1].i64() as u128)),
        _ => panic!("fc {op:#x}"),
    }
}
