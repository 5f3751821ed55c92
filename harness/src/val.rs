//! Values of the reference model.
//!
//! A value is its bits plus, per byte, a NaN code: where the specification leaves the bits of a NaN result
//! open, the model records *which NaNs are allowed* instead of bits.

use crate::runner::{R, Stop};

/// NaN codes (one nibble per byte in `Val::t`).
pub const EXACT: u64 = 0;
pub const C32: u64 = 1; // f32 canonical NaN, either sign
pub const A32: u64 = 2; // any f32 NaN with the quiet bit set
pub const C64: u64 = 3;
pub const A64: u64 = 4;

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Val {
    pub b: u128,
    pub t: u64,
}

pub const QNAN32: u32 = 0x7fc0_0000;
pub const QNAN64: u64 = 0x7ff8_0000_0000_0000;

pub fn i32v(x: u32) -> Val {
    Val { b: x as u128, t: 0 }
}
pub fn i64v(x: u64) -> Val {
    Val { b: x as u128, t: 0 }
}
pub fn v128v(x: u128) -> Val {
    Val { b: x, t: 0 }
}
pub fn boolv(x: bool) -> Val {
    i32v(x as u32)
}

pub fn is_nan32(b: u32) -> bool {
    (b & 0x7fff_ffff) > 0x7f80_0000
}
pub fn is_nan64(b: u64) -> bool {
    (b & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000
}

#[derive(Clone, Copy)]
pub struct F32v {
    pub b: u32,
    pub t: u64,
}
#[derive(Clone, Copy)]
pub struct F64v {
    pub b: u64,
    pub t: u64,
}

impl F32v {
    pub fn f(self) -> f32 {
        f32::from_bits(self.b)
    }
    pub fn nan(self) -> bool {
        is_nan32(self.b)
    }
    pub fn canon(self) -> bool {
        self.t == C32 || (self.t == EXACT && (self.b & 0x7fff_ffff) == QNAN32)
    }
    pub fn val(self) -> Val {
        Val { b: self.b as u128, t: self.t }
    }
}
impl F64v {
    pub fn f(self) -> f64 {
        f64::from_bits(self.b)
    }
    pub fn nan(self) -> bool {
        is_nan64(self.b)
    }
    pub fn canon(self) -> bool {
        self.t == C64 || (self.t == EXACT && (self.b & 0x7fff_ffff_ffff_ffff) == QNAN64)
    }
    pub fn val(self) -> Val {
        Val { b: self.b as u128, t: self.t }
    }
}

thread_local! {
    /// computed NaNs are the positive canonical NaN (NaN canonicalisation is on and under test)
    pub static CANON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The result of an arithmetic f32 operation with the given NaN-relevant inputs.
pub fn fin32(r: f32, nan_inputs_canonical: bool) -> F32v {
    if r.is_nan() {
        F32v {
            b: QNAN32,
            t: if CANON.get() {
                0
            } else if nan_inputs_canonical {
                C32
            } else {
                A32
            },
        }
    } else {
        F32v { b: r.to_bits(), t: 0 }
    }
}
pub fn fin64(r: f64, nan_inputs_canonical: bool) -> F64v {
    if r.is_nan() {
        F64v {
            b: QNAN64,
            t: if CANON.get() {
                0
            } else if nan_inputs_canonical {
                C64
            } else {
                A64
            },
        }
    } else {
        F64v { b: r.to_bits(), t: 0 }
    }
}

impl Val {
    /// Bits, where the case depends on them: discards the case if they are not determined.
    pub fn bits(self) -> R<u128> {
        if self.t != 0 { Err(Stop::Discard("NaN bits observed")) } else { Ok(self.b) }
    }
    pub fn i32(self) -> u32 {
        debug_assert!(self.t == 0);
        self.b as u32
    }
    pub fn i64(self) -> u64 {
        debug_assert!(self.t == 0);
        self.b as u64
    }
    pub fn f32(self) -> F32v {
        F32v { b: self.b as u32, t: self.t & 0xf }
    }
    pub fn f64(self) -> F64v {
        F64v { b: self.b as u64, t: self.t & 0xf }
    }
    /// Lane i of an f32x4.
    pub fn l32(self, i: usize) -> R<F32v> {
        let n = (self.t >> (i * 16)) & 0xffff;
        let b = (self.b >> (i * 32)) as u32;
        match n {
            0 => Ok(F32v { b, t: 0 }),
            0x1111 => Ok(F32v { b, t: C32 }),
            0x2222 => Ok(F32v { b, t: A32 }),
            _ => Err(Stop::Discard("NaN bits observed")),
        }
    }
    pub fn l64(self, i: usize) -> R<F64v> {
        let n = (self.t >> (i * 32)) as u32;
        let b = (self.b >> (i * 64)) as u64;
        match n {
            0 => Ok(F64v { b, t: 0 }),
            0x3333_3333 => Ok(F64v { b, t: C64 }),
            0x4444_4444 => Ok(F64v { b, t: A64 }),
            _ => Err(Stop::Discard("NaN bits observed")),
        }
    }
    pub fn from32(l: [F32v; 4]) -> Val {
        let mut v = Val::default();
        for (i, x) in l.iter().enumerate() {
            v.b |= (x.b as u128) << (i * 32);
            v.t |= (x.t * 0x1111) << (i * 16);
        }
        v
    }
    pub fn from64(l: [F64v; 2]) -> Val {
        let mut v = Val::default();
        for (i, x) in l.iter().enumerate() {
            v.b |= (x.b as u128) << (i * 64);
            v.t |= (x.t * 0x1111_1111) << (i * 32);
        }
        v
    }
}

/// Do the observed bits (of `bytes` bytes) agree with the model value?
pub fn agrees(model: Val, got: u128, bytes: usize) -> bool {
    if model.t == 0 {
        return model.b == got;
    }
    // scalar floats carry a single nibble
    if bytes == 4 {
        return nan_ok32(model.t & 0xf, model.b as u32, got as u32);
    }
    if bytes == 8 {
        return nan_ok64(model.t & 0xf, model.b as u64, got as u64);
    }
    let mut i = 0;
    while i < 16 {
        let n = (model.t >> (i * 4)) & 0xf;
        let (mb, gb) = (model.b >> (i * 8), got >> (i * 8));
        match n {
            EXACT => {
                if mb as u8 != gb as u8 {
                    return false;
                }
                i += 1;
            }
            C32 | A32 => {
                if !nan_ok32(n, mb as u32, gb as u32) {
                    return false;
                }
                i += 4;
            }
            _ => {
                if !nan_ok64(n, mb as u64, gb as u64) {
                    return false;
                }
                i += 8;
            }
        }
    }
    true
}

fn nan_ok32(t: u64, m: u32, g: u32) -> bool {
    match t {
        EXACT => m == g,
        C32 => g & 0x7fff_ffff == QNAN32,
        _ => is_nan32(g) && g & 0x0040_0000 != 0,
    }
}
fn nan_ok64(t: u64, m: u64, g: u64) -> bool {
    match t {
        EXACT => m == g,
        C64 => g & 0x7fff_ffff_ffff_ffff == QNAN64,
        _ => is_nan64(g) && g & 0x0008_0000_0000_0000 != 0,
    }
}
