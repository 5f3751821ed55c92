mod builds;
mod bulk;
mod calls;
mod cli;
mod context;
mod crash;
mod exec;
mod fuel;
mod host;
mod linking;
mod load;
mod names;
mod nan;
mod script;
mod share;
mod shown;
mod stacks;
mod values;
mod variants;
mod vast;
mod weave;

use crate::runner::Prop;

pub static PROPS: &[Prop] = &[
    exec::E01,
    exec::E02,
    exec::E03,
    exec::E04,
    exec::E05,
    exec::E06,
    variants::E07,
    variants::L01,
    variants::L02,
    load::L03,
    crash::S01,
    variants::M01,
    variants::F01,
    fuel::F02,
    variants::K01,
    host::M02,
    host::A02,
    linking::I01,
    linking::I02,
    linking::I03,
    linking::R01,
    calls::H01,
    calls::A01,
    calls::T01,
    nan::N01,
    cli::C01,
    shown::C02,
    share::P01,
    values::V01,
    script::W01,
    builds::B01,
];
