//! What a tinywasm without `std` lacks, so that the same harness builds against it.
#![cfg(not(feature = "full"))]

use std::io::Read;
use std::path::Path;
use std::time::Duration;
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::WasmValue;
use tinywasm::{ExecProgress, FuncExecution, Module, Result};

/// Without a clock a time slice is the smallest amount of fuel.
pub trait TimeSlice<R> {
    fn resume_with_time_budget(&mut self, d: Duration) -> Result<ExecProgress<R>>;
}
pub fn fuel(d: Duration) -> u32 {
    if d < Duration::from_millis(1) { 1 } else { 1 << 20 }
}
impl TimeSlice<Vec<WasmValue>> for FuncExecution<'_> {
    fn resume_with_time_budget(&mut self, d: Duration) -> Result<ExecProgress<Vec<WasmValue>>> {
        self.resume_with_fuel(fuel(d))
    }
}

pub trait Threads {
    fn with_parser_threads(self, n: usize) -> Self;
}
impl Threads for ParserOptions {
    fn with_parser_threads(self, _: usize) -> Self {
        self
    }
}

pub trait Streams {
    fn parse_module_stream(&self, r: impl Read) -> Result<Module, tinywasm::parser::ParseError>;
    fn parse_module_file(&self, p: impl AsRef<Path>) -> Result<Module, tinywasm::parser::ParseError>;
}
impl Streams for Parser {
    fn parse_module_stream(&self, mut r: impl Read) -> Result<Module, tinywasm::parser::ParseError> {
        let mut b = vec![];
        r.read_to_end(&mut b).expect("read");
        self.parse_module_bytes(b)
    }
    fn parse_module_file(&self, p: impl AsRef<Path>) -> Result<Module, tinywasm::parser::ParseError> {
        self.parse_module_bytes(std::fs::read(p).expect("read"))
    }
}
