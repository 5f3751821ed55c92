//! N01: canonical NaNs.

use super::exec::{e03_relaxed, form_case};
use crate::forms::{self, Op, form};
use crate::modgen::Prof;
use crate::runner::{Cx, Prop, R};
use crate::tape::Src;
use crate::tw::Variant;
use crate::val::CANON;
use crate::world::{Plan, oracle_case};

pub const N01: Prop = Prop {
    id: "N01",
    quick: 120_000,
    thorough: 10_000_000,
    rule: "a floating-point instruction was executed on generated operands (a third of them NaNs, infinities or zeros) and bits were compared",
    assumptions: &["the reference model (harness/src/num.rs, simd.rs) knows which operations compute their NaNs and which preserve bits"],
    case: n01,
    probes: &[],
};

/// Resets the flag also when the case ends in a panic.
struct Canon;
impl Drop for Canon {
    fn drop(&mut self) {
        CANON.set(false);
    }
}

const FSIMD: &[u32] = &[
    0x5e, 0x5f, 0x67, 0x68, 0x69, 0x6a, 0x74, 0x75, 0x7a, 0x94, 0xe0, 0xe1, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xef,
    0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0x13, 0x14, 0x52, 0x4e,
];

fn scalar(s: &mut Src) -> Op {
    match s.below(6) {
        0 => Op::Scalar(*s.pick(&[0xb6, 0xbb])),
        1 => Op::Scalar(s.range(0xbc, 0xbf) as u8),
        _ => Op::Scalar(s.range(0x8b, 0xa6) as u8),
    }
}
fn vector(s: &mut Src) -> Op {
    if s.chance(1, 8) {
        let o = *s.pick(&[0x1fu32, 0x20, 0x21, 0x22]);
        return Op::Lane(o, s.below(if o < 0x21 { 4 } else { 2 }) as u8);
    }
    if s.chance(1, 6) { scalar(s) } else { Op::Simd(*s.pick(FSIMD)) }
}

fn n01(s: &mut Src, cx: &mut Cx) -> R {
    CANON.set(true);
    let _reset = Canon;
    match s.below(10) {
        0 | 1 => {
            let prof = Prof {
                simd: 5,
                numeric: 12,
                floats: 12,
                idioms: 8,
                mem: 5,
                refs: 0,
                table: 0,
                indirect: 0,
                bulk: 0,
                calls: 2,
                control: 3,
                max_funcs: 2,
                ..Prof::default()
            };
            let plan = Plan { prof, max_insts: 1, w_tab: 0, ..Plan::default() };
            let v = Variant::any(s);
            oracle_case("N01", plan, v, s, cx, |c, _| c.fops + c.vops >= 3)
        }
        2 => {
            let op = *s.pick(&[0x105u32, 0x106, 0x107, 0x108, 0x10d, 0x10e, 0x10f, 0x110]);
            e03_relaxed("N01", op, s, cx)
        }
        3..=5 => {
            let f = form(s, false, scalar, forms::inner_scalar);
            form_case("N01", f, s, cx)
        }
        _ => {
            let f = form(s, true, vector, forms::inner_any);
            form_case("N01", f, s, cx)
        }
    }
}
