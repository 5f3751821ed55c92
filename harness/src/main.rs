#![allow(dead_code)]
#![cfg_attr(not(feature = "full"), allow(unused_imports))]

mod compat;
mod enc;
mod forms;
mod heap;
mod hostops;
mod ir;
mod maze;
mod model;
mod modgen;
mod num;
mod ops;
mod peep;
mod props;
mod relay;
mod runner;
mod simd;
mod stretch;
mod tape;
mod tw;
mod typed;
mod val;
mod world;

use runner::*;
use std::path::PathBuf;
use std::process::ExitCode;

#[global_allocator]
static HEAP: heap::Watch = heap::Watch;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("TWV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Suffix of evidence and replay files written by a build with other features.
fn variant() -> String {
    if cfg!(feature = "simd-x86") {
        "-simd-x86".into()
    } else if !cfg!(feature = "full") {
        if cfg!(feature = "canon") { "-bare".into() } else { "-raw".into() }
    } else if !cfg!(feature = "dbg") {
        "-plain".into()
    } else {
        String::new()
    }
}

/// An embedder's logger: everything is formatted, nothing is kept.
#[cfg(feature = "full")]
struct Sink;
#[cfg(feature = "full")]
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string().len());
    }
    fn flush(&self) {}
}

fn main() -> ExitCode {
    #[cfg(feature = "full")]
    {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    let props = props::PROPS;
    match a.get(1).map(String::as_str) {
        Some("check") => check(
            props,
            CheckArgs {
                prop: a[2].clone(),
                tier: a[3].clone(),
                seed: num(4),
                cases: a.get(5).and_then(|x| x.parse().ok()),
                root: root(),
                jobs: std::env::var("TWV_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8),
                variant: variant(),
            },
        ),
        Some("worker") => worker(
            props,
            WorkerArgs {
                prop: a[2].clone(),
                tier: a[3].clone(),
                seed: num(4),
                first: num(5),
                step: num(6),
                total: num(7),
                progress: a[8].clone().into(),
                result: a[9].clone().into(),
            },
        ),
        Some("one") => one(props, &a[2], &a[3], num(4), Some(num(5)), None, true),
        Some("shrink") => shrink_cmd(props, &a[2], &a[3], num(4), a[5].as_ref(), a[6].as_ref(), num(7)),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).unwrap();
            let (p, t, s) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap(), v["seed"].as_u64().unwrap());
            match v["tape"].as_array() {
                Some(x) => one(props, p, t, s, None, Some(x.iter().map(|x| x.as_u64().unwrap()).collect()), true),
                None => one(props, p, t, s, v["case"].as_u64(), None, true),
            }
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: twv check PROP quick|thorough SEED [CASES] | one PROP TIER SEED CASE | replay FILE | list");
            ExitCode::from(2)
        }
    }
}
