//! B01: the other build configurations. The cases are those of the other properties; run.sh builds the harness against
//! tinywasm without its default features, with and without NaN canonicalization, and runs them there.

use super::{calls, crash, exec, host, linking, load, nan, share, values, variants};
use crate::runner::{Cx, Prop, R};
use crate::tape::Src;

pub const B01: Prop = Prop {
    id: "B01",
    quick: 130_000,
    thorough: 6_000_000,
    rule: "the non-triviality rule of the property whose case was drawn",
    assumptions: &[
        "two configurations beside those of the other checks: no_std without logging and parallel parsing, with and without canonicalize-nans",
        "without canonicalization the model marks computed NaNs and accepts any the specification allows; a case whose course depends on such bits is discarded",
    ],
    case: b01,
    probes: &[],
};

fn b01(s: &mut Src, cx: &mut Cx) -> R {
    let k = s.weighted(&[14, 16, 16, 8, 5, 5, 4, 5, 3, 3, 3, 4, 2, 4, 3, 3, 3, 3, 3, 3, 1, 1, 6, 1]);
    let p = [
        &exec::E01,
        &exec::E02,
        &exec::E03,
        &exec::E04,
        &exec::E05,
        &exec::E06,
        &variants::L01,
        &variants::L02,
        &load::L03,
        &variants::M01,
        &host::M02,
        &variants::F01,
        &variants::K01,
        &calls::T01,
        &calls::H01,
        &linking::I01,
        &linking::I02,
        &linking::I03,
        &linking::R01,
        &host::A02,
        &share::P01,
        &values::V01,
        if cfg!(feature = "canon") { &nan::N01 } else { &exec::E02 },
        &crash::S01,
    ][k];
    cx.label_n(p.id, 1);
    (p.case)(s, cx)
}
