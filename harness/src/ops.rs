//! Signatures and names of the numeric and vector opcodes.

use crate::ir::VT::{self, *};

pub type Sig = (&'static [VT], VT);

/// Scalar numeric opcodes 0x45..=0xc4.
pub fn sig(op: u8) -> Sig {
    match op {
        0x45 => (&[I32], I32),
        0x46..=0x4f => (&[I32, I32], I32),
        0x50 => (&[I64], I32),
        0x51..=0x5a => (&[I64, I64], I32),
        0x5b..=0x60 => (&[F32, F32], I32),
        0x61..=0x66 => (&[F64, F64], I32),
        0x67..=0x69 => (&[I32], I32),
        0x6a..=0x78 => (&[I32, I32], I32),
        0x79..=0x7b => (&[I64], I64),
        0x7c..=0x8a => (&[I64, I64], I64),
        0x8b..=0x91 => (&[F32], F32),
        0x92..=0x98 => (&[F32, F32], F32),
        0x99..=0x9f => (&[F64], F64),
        0xa0..=0xa6 => (&[F64, F64], F64),
        0xa7 => (&[I64], I32),
        0xa8 | 0xa9 => (&[F32], I32),
        0xaa | 0xab => (&[F64], I32),
        0xac | 0xad => (&[I32], I64),
        0xae | 0xaf => (&[F32], I64),
        0xb0 | 0xb1 => (&[F64], I64),
        0xb2 | 0xb3 => (&[I32], F32),
        0xb4 | 0xb5 => (&[I64], F32),
        0xb6 => (&[F64], F32),
        0xb7 | 0xb8 => (&[I32], F64),
        0xb9 | 0xba => (&[I64], F64),
        0xbb => (&[F32], F64),
        0xbc => (&[F32], I32),
        0xbd => (&[F64], I64),
        0xbe => (&[I32], F32),
        0xbf => (&[I64], F64),
        0xc0 | 0xc1 => (&[I32], I32),
        0xc2..=0xc4 => (&[I64], I64),
        _ => panic!("no scalar opcode {op:#x}"),
    }
}

/// 0xFC opcodes 0..=7 (saturating truncation) have one result; 0x13..=0x16 (wide arithmetic) two.
pub fn fc_sig(op: u32) -> (&'static [VT], &'static [VT]) {
    match op {
        0 | 1 => (&[F32], &[I32]),
        2 | 3 => (&[F64], &[I32]),
        4 | 5 => (&[F32], &[I64]),
        6 | 7 => (&[F64], &[I64]),
        0x13 | 0x14 => (&[I64, I64, I64, I64], &[I64, I64]),
        0x15 | 0x16 => (&[I64, I64], &[I64, I64]),
        _ => panic!("no fc opcode {op:#x}"),
    }
}

pub const FC_OPS: [u32; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 0x13, 0x14, 0x15, 0x16];

/// Vector opcodes without immediates.
pub fn simd_sig(op: u32) -> Option<Sig> {
    const V: VT = V128;
    Some(match op {
        0x0e => (&[V, V], V),
        0x0f..=0x11 => (&[I32], V),
        0x12 => (&[I64], V),
        0x13 => (&[F32], V),
        0x14 => (&[F64], V),
        0x23..=0x4c => (&[V, V], V),
        0x4d => (&[V], V),
        0x4e..=0x51 => (&[V, V], V),
        0x52 => (&[V, V, V], V),
        0x53 => (&[V], I32),
        0x5e | 0x5f => (&[V], V),
        0x60..=0x62 => (&[V], V),
        0x63 | 0x64 => (&[V], I32),
        0x65 | 0x66 => (&[V, V], V),
        0x67..=0x6a => (&[V], V),
        0x6b..=0x6d => (&[V, I32], V),
        0x6e..=0x73 => (&[V, V], V),
        0x74 | 0x75 => (&[V], V),
        0x76..=0x79 => (&[V, V], V),
        0x7a => (&[V], V),
        0x7b => (&[V, V], V),
        0x7c..=0x7f => (&[V], V),
        0x80 | 0x81 => (&[V], V),
        0x82 => (&[V, V], V),
        0x83 | 0x84 => (&[V], I32),
        0x85 | 0x86 => (&[V, V], V),
        0x87..=0x8a => (&[V], V),
        0x8b..=0x8d => (&[V, I32], V),
        0x8e..=0x93 => (&[V, V], V),
        0x94 => (&[V], V),
        0x95..=0x99 => (&[V, V], V),
        0x9b..=0x9f => (&[V, V], V),
        0xa0 | 0xa1 => (&[V], V),
        0xa3 | 0xa4 => (&[V], I32),
        0xa7..=0xaa => (&[V], V),
        0xab..=0xad => (&[V, I32], V),
        0xae | 0xb1 | 0xb5..=0xba | 0xbc..=0xbf => (&[V, V], V),
        0xc0 | 0xc1 => (&[V], V),
        0xc3 | 0xc4 => (&[V], I32),
        0xc7..=0xca => (&[V], V),
        0xcb..=0xcd => (&[V, I32], V),
        0xce | 0xd1 | 0xd5..=0xdf => (&[V, V], V),
        0xe0 | 0xe1 | 0xe3 => (&[V], V),
        0xe4..=0xeb => (&[V, V], V),
        0xec | 0xed | 0xef => (&[V], V),
        0xf0..=0xf7 => (&[V, V], V),
        0xf8..=0xff => (&[V], V),
        0x100 => (&[V, V], V),
        0x101..=0x104 => (&[V], V),
        0x105..=0x10c => (&[V, V, V], V),
        0x10d..=0x112 => (&[V, V], V),
        0x113 => (&[V, V, V], V),
        _ => return None,
    })
}

/// Lane access opcodes: (number of lanes, scalar type, is_replace).
pub fn simd_lane(op: u32) -> Option<(u8, VT, bool)> {
    Some(match op {
        0x15 | 0x16 => (16, I32, false),
        0x17 => (16, I32, true),
        0x18 | 0x19 => (8, I32, false),
        0x1a => (8, I32, true),
        0x1b => (4, I32, false),
        0x1c => (4, I32, true),
        0x1d => (2, I64, false),
        0x1e => (2, I64, true),
        0x1f => (4, F32, false),
        0x20 => (4, F32, true),
        0x21 => (2, F64, false),
        0x22 => (2, F64, true),
        _ => return None,
    })
}

/// Vector loads/stores without lane: access width in bytes.
pub fn simd_mem_width(op: u32) -> u32 {
    match op {
        0x00 | 0x0b => 16,
        0x01..=0x06 => 8,
        0x07 => 1,
        0x08 => 2,
        0x09 => 4,
        0x0a => 8,
        0x5c => 4,
        0x5d => 8,
        0x54 | 0x58 => 1,
        0x55 | 0x59 => 2,
        0x56 | 0x5a => 4,
        0x57 | 0x5b => 8,
        _ => panic!("no vector memory opcode {op:#x}"),
    }
}

pub const SIMD_LOADS: [u32; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0x5c, 0x5d];
pub const SIMD_LOAD_LANES: [u32; 4] = [0x54, 0x55, 0x56, 0x57];
pub const SIMD_STORE_LANES: [u32; 4] = [0x58, 0x59, 0x5a, 0x5b];

/// Scalar loads/stores: (width in bytes, value type, is_store).
pub fn mem_op(op: u8) -> (u32, VT, bool) {
    match op {
        0x28 => (4, I32, false),
        0x29 => (8, I64, false),
        0x2a => (4, F32, false),
        0x2b => (8, F64, false),
        0x2c | 0x2d => (1, I32, false),
        0x2e | 0x2f => (2, I32, false),
        0x30 | 0x31 => (1, I64, false),
        0x32 | 0x33 => (2, I64, false),
        0x34 | 0x35 => (4, I64, false),
        0x36 => (4, I32, true),
        0x37 => (8, I64, true),
        0x38 => (4, F32, true),
        0x39 => (8, F64, true),
        0x3a => (1, I32, true),
        0x3b => (2, I32, true),
        0x3c => (1, I64, true),
        0x3d => (2, I64, true),
        0x3e => (4, I64, true),
        _ => panic!("no memory opcode {op:#x}"),
    }
}

pub fn all_simd() -> Vec<u32> {
    (0..0x114).filter(|o| simd_sig(*o).is_some()).collect()
}

pub fn is_relaxed(op: u32) -> bool {
    op >= 0x100
}
