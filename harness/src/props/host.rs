//! The embedder's handles: M02, A02.

use super::variants::backend;
use crate::modgen::Prof;
use crate::runner::{Cx, Prop, R};
use crate::tape::Src;
use crate::tw::Variant;
use crate::world::{Plan, oracle_case};
use tinywasm::engine::Config;

const A: &[&str] = &["the reference model (harness/src/model.rs) states the WebAssembly semantics correctly"];

pub const M02: Prop = Prop {
    id: "M02",
    quick: 25_000,
    thorough: 6_000_000,
    rule: "at least 3 host accesses to a memory were made",
    assumptions: A,
    case: m02,
    probes: &[],
};
fn m02(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 12) {
        return super::vast::vast(true, s, cx);
    }
    let prof = Prof {
        mem: 10,
        bulk: 6,
        simd: 1,
        table: 0,
        indirect: 0,
        tail: 0,
        refs: 0,
        calls: 1,
        control: 2,
        max_mems: 3,
        mem64: 300,
        custom_page: 400,
        max_funcs: 2,
        segs: 3,
        start: 0,
        ..Prof::default()
    };
    let plan = Plan { prof, steps: (4, 16), w_mem: 30, w_call: 6, w_tab: 0, w_glob: 0, rich_mem: true, host_items: 3, ..Plan::default() };
    let v = if s.chance(1, 2) {
        Variant::any(s)
    } else {
        let (b, name) = backend(s);
        Variant { cfg: Config::new().with_memory_backend(b), lazy: s.chance(2, 3), name, ..Variant::default() }
    };
    oracle_case("M02", plan, v, s, cx, |_, w| w.host_ops >= 3)
}

pub const A02: Prop = Prop {
    id: "A02",
    quick: 100_000,
    thorough: 8_000_000,
    rule: "at least 3 host accesses to tables or globals were made",
    assumptions: A,
    case: a02,
    probes: &[],
};
fn a02(s: &mut Src, cx: &mut Cx) -> R {
    let prof = Prof {
        mem: 1,
        bulk: 0,
        simd: 1,
        table: 10,
        indirect: 5,
        refs: 6,
        globals: 8,
        calls: 2,
        control: 2,
        max_funcs: 3,
        segs: 3,
        start: 0,
        ..Prof::default()
    };
    let plan = Plan { prof, steps: (4, 16), w_mem: 0, w_call: 6, w_tab: 16, w_glob: 12, rich_tab: true, host_items: 4, ..Plan::default() };
    let v = Variant::flat();
    oracle_case("A02", plan, v, s, cx, |_, w| w.host_ops >= 3)
}
