//! C01: the command-line tool against the library.

use crate::ir::*;
use crate::modgen::{self, Prof, konst, value};
use crate::runner::{Cx, Prop, R, discard, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::encode;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use tinywasm::engine::{Config, Engine, FuelPolicy, StackConfig};
use tinywasm::types::{ExportType, WasmType, WasmValue};
use tinywasm::{ExecProgress, MemoryBackend, Module as TwModule, ModuleInstance, Store};

pub const C01: Prop = Prop {
    id: "C01",
    quick: 5_000,
    thorough: 300_000,
    rule: "the tool ran an export or compiled a module, and its output or failure was compared with the library's answer",
    assumptions: &[
        "the library's own answer (checked by the other properties) is the reference",
        "Rust's number parsing is correct",
        "a first argument that looks like an option and is no plain negative number follows --",
    ],
    case: c01,
    probes: &[],
};

pub(super) struct Tmp(pub(super) PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub(super) struct Ran {
    pub(super) code: Option<i32>,
    pub(super) signal: Option<i32>,
    pub(super) out: Vec<u8>,
    pub(super) err: String,
}

pub(super) fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    let exe = std::env::var_os("TWV_CLI").expect("TWV_CLI is not set");
    let mut c = Command::new(exe);
    c.current_dir(dir).args(args).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env("NO_COLOR", "1").env_remove("RUST_BACKTRACE");
    // SAFETY: setrlimit is async-signal-safe
    unsafe {
        c.pre_exec(|| {
            let cpu = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("cannot start the command-line tool");
    let pipe = p.stdin.take();
    let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let (mut out, mut err) = (vec![], vec![]);
    std::thread::scope(|t| {
        if let (Some(mut pipe), Some(data)) = (pipe, stdin) {
            t.spawn(move || pipe.write_all(data));
        }
        t.spawn(|| e.read_to_end(&mut err));
        let _ = o.read_to_end(&mut out);
    });
    let st = p.wait().expect("wait");
    Ran { code: st.code(), signal: st.signal(), out, err: String::from_utf8_lossy(&err).into_owned() }
}

/// The printed form of a value denotes `v`.
fn denotes(t: &str, v: &WasmValue) -> bool {
    let body = |p: &str| t.strip_prefix(p).and_then(|x| x.strip_suffix(')')).map(str::to_string);
    match v {
        WasmValue::I32(x) => body("i32(").is_some_and(|b| b.parse() == Ok(*x)),
        WasmValue::I64(x) => body("i64(").is_some_and(|b| b.parse() == Ok(*x)),
        WasmValue::F32(x) => body("f32(").is_some_and(|b| b.parse::<f32>().is_ok_and(|y| y.to_bits() == x.to_bits() || x.is_nan() && y.is_nan())),
        WasmValue::F64(x) => body("f64(").is_some_and(|b| b.parse::<f64>().is_ok_and(|y| y.to_bits() == x.to_bits() || x.is_nan() && y.is_nan())),
        WasmValue::V128(x) => body("v128([").is_some_and(|b| {
            let l: Vec<u8> = b.trim_end_matches(']').split(", ").filter_map(|n| n.parse().ok()).collect();
            l == x
        }),
        WasmValue::RefExtern(r) => t.contains("null") == r.addr().is_none(),
        WasmValue::RefFunc(r) => t.contains("null") == r.addr().is_none(),
    }
}

fn printed(out: &[u8], vs: &[WasmValue]) -> bool {
    let Ok(t) = std::str::from_utf8(out) else { return false };
    if vs.is_empty() {
        return t.is_empty();
    }
    let Some(t) = t.strip_suffix('\n') else { return false };
    if vs.len() == 1 {
        return denotes(t, &vs[0]);
    }
    let Some(t) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) else { return false };
    // split at commas outside brackets
    let (mut parts, mut d, mut cur) = (vec![], 0, String::new());
    for c in t.chars() {
        match c {
            '(' | '[' => d += 1,
            ')' | ']' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            parts.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    parts.push(cur);
    parts.len() == vs.len() && parts.iter().zip(vs).all(|(p, v)| denotes(p.trim(), v))
}

/// A spelling of a value of type `t`, and the value it denotes (None: must be refused).
fn spelling(s: &mut Src, t: WasmType) -> (String, Option<WasmValue>) {
    let bad = s.chance(1, 25);
    if bad {
        let mut b = vec!["", "abc", "1 2", " 1", "1,0", "--1"];
        if matches!(t, WasmType::I32 | WasmType::I64 | WasmType::V128) {
            b.extend(["1.5", "1e5", "340282366920938463463374607431768211456", "nan"]);
        }
        if t == WasmType::I32 {
            b.extend(["2147483648", "-2147483649", "4294967296"]);
        }
        if t == WasmType::I64 {
            b.extend(["9223372036854775808", "-9223372036854775809"]);
        }
        return (s.pick(&b).to_string(), None);
    }
    let style = s.below(6);
    let int = |n: String| match style {
        0 if !n.starts_with('-') => format!("+{n}"),
        1 if !n.starts_with('-') => format!("000{n}"),
        1 => format!("-00{}", &n[1..]),
        _ => n,
    };
    macro_rules! float {
        ($f:ty, $v:expr, $ctor:path) => {{
            let x: $f = $v;
            let t = if x.is_nan() {
                s.pick(&["nan", "NaN"]).to_string()
            } else if x.is_infinite() {
                format!("{}{}", if x < 0.0 { "-" } else { "" }, s.pick(&["inf", "infinity", "INF", "1e99999"]))
            } else {
                match style {
                    0 => format!("{x:e}"),
                    1 => format!("{x:?}"),
                    2 => format!("{x:E}"),
                    3 => format!("{x:.30}"),
                    _ => format!("{x}"),
                }
            };
            let v = t.parse::<$f>().unwrap();
            (t, Some($ctor(v)))
        }};
    }
    match t {
        WasmType::I32 => {
            let x = modgen::int32(s) as i32;
            (int(x.to_string()), Some(WasmValue::I32(x)))
        }
        WasmType::I64 => {
            let x = modgen::int64(s) as i64;
            (int(x.to_string()), Some(WasmValue::I64(x)))
        }
        // just above the middle between two neighbours: a detour through doubles rounds to the middle first
        WasmType::F32 if s.chance(1, 4) => {
            let b = modgen::f32b(s) & 0x7fff_ffff;
            let b = if b >= 0x7f00_0000 { b & 0x3fff_ffff | 1 } else { b };
            let neg = s.bool();
            let mid = (f32::from_bits(b) as f64 + f32::from_bits(b + 1) as f64) / 2.0;
            let t = format!("{}{mid:.200}1", if neg { "-" } else { "" });
            let v = f32::from_bits(b + 1);
            (t, Some(WasmValue::F32(if neg { -v } else { v })))
        }
        WasmType::F32 => float!(f32, f32::from_bits(modgen::f32b(s)), WasmValue::F32),
        WasmType::F64 => float!(f64, f64::from_bits(modgen::f64b(s)), WasmValue::F64),
        WasmType::V128 => {
            let x = modgen::v128b(s) as i128;
            (int(x.to_string()), Some(WasmValue::V128(x.to_le_bytes())))
        }
        _ => ("0".into(), None),
    }
}

pub(super) fn wat_str(b: &[u8]) -> String {
    b.iter().map(|c| format!("\\{c:02x}")).collect()
}
pub(super) fn ty_name(t: VT) -> &'static str {
    match t {
        VT::I32 => "i32",
        VT::I64 => "i64",
        VT::F32 => "f32",
        VT::F64 => "f64",
        VT::V128 => "v128",
        VT::Func => "funcref",
        VT::Extern => "externref",
    }
}
/// Real text for the few instructions the echo modules use; None when an instruction has no text here.
fn wat_in(i: &In) -> Option<String> {
    Some(match i {
        In::LGet(x) => format!("local.get {x}"),
        In::LSet(x) => format!("local.set {x}"),
        In::GGet(x) => format!("global.get {x}"),
        In::GSet(x) => format!("global.set {x}"),
        In::I32(x) => format!("i32.const {}", *x as i32),
        In::I64(x) => format!("i64.const 0x{x:x}"),
        In::V128(x) => format!("v128.const i64x2 0x{:x} 0x{:x}", *x as u64, (*x >> 64) as u64),
        In::RefNull(VT::Func) => "ref.null func".into(),
        In::RefNull(_) => "ref.null extern".into(),
        In::F32(x) => format!("i32.const 0x{x:x} f32.reinterpret_i32"),
        In::F64(x) => format!("i64.const 0x{x:x} f64.reinterpret_i64"),
        In::Op(0) => "unreachable".into(),
        In::Op(1) => "nop".into(),
        In::Op(0x6a) => "i32.add".into(),
        _ => return None,
    })
}
pub(super) fn wat_text(m: &Module) -> Option<String> {
    if !(m.imports.is_empty() && m.tables.is_empty() && m.mems.is_empty() && m.elems.is_empty() && m.datas.is_empty()) {
        return None;
    }
    let mut t = String::from("(module\n");
    for (g, init) in &m.globals {
        let [In::I32(x)] = &init[..] else { return None };
        t += &format!("  (global (mut i32) (i32.const {x}))\n");
        if g.t != VT::I32 {
            return None;
        }
    }
    for f in &m.funcs {
        let ty = &m.types[f.ty as usize];
        let l = |k: &str, v: &[VT]| {
            if v.is_empty() { String::new() } else { format!(" ({k} {})", v.iter().map(|t| ty_name(*t)).collect::<Vec<_>>().join(" ")) }
        };
        t += &format!("  (func{}{}{}", l("param", &ty.p), l("result", &ty.r), l("local", &f.locals));
        for i in &f.body {
            t += &format!("\n    {}", wat_in(i)?);
        }
        t += ")\n";
    }
    for e in &m.exports {
        let k = match e.kind {
            Kind::Func => "func",
            Kind::Glob => "global",
            _ => return None,
        };
        t += &format!("  (export \"{}\" ({k} {}))\n", wat_str(e.name.as_bytes()), e.idx);
    }
    if let Some(s) = m.start {
        t += &format!("  (start {s})\n");
    }
    Some(t + ")")
}

const NAMES: [&str; 12] =
    ["f", "run", "a b", "ä→", "-x", "--invoke", "_start", "", "\"q\"", "main.wasm", "x=y", "completely ordinary but rather long name of an export"];

/// A module whose exports shuffle their parameters and constants.
pub(super) fn echo(s: &mut Src) -> Module {
    let mut m = Module::default();
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(5)]));
    let n = s.range(1, 3);
    for i in 0..n {
        let np = s.below(5);
        let mut p: Vec<VT> = (0..np).map(|_| if s.chance(1, 40) { VT::Extern } else { *s.pick(&NUMV) }).collect();
        if i == 0 && p.is_empty() && s.bool() {
            p.push(VT::I32);
        }
        let mut body = vec![];
        let mut r = vec![];
        for _ in 0..s.below(4) {
            if !p.is_empty() && s.chance(2, 3) {
                let k = s.usize(p.len());
                body.push(In::LGet(k as u32));
                r.push(p[k]);
            } else if s.chance(1, 4) {
                body.push(In::GGet(0));
                r.push(VT::I32);
            } else {
                let t = *s.pick(&ALLT);
                let v = if t.is_ref() { crate::model::default_of(t) } else { value(s, t) };
                body.push(konst(t, v));
                r.push(t);
            }
        }
        if s.chance(1, 12) {
            body.push(UNREACHABLE);
        }
        let ty = m.ty(FT { p, r });
        m.funcs.push(Func { ty, locals: vec![], body });
        let name = NAMES[s.usize(NAMES.len())];
        if m.exports.iter().all(|e| e.name != name) {
            m.export(name, Kind::Func, i as u32);
        }
    }
    if s.chance(1, 4) {
        m.export("glob", Kind::Glob, 0);
    }
    if s.chance(1, 3) {
        let ty = m.ty(FT::default());
        let mut body = vec![In::GGet(0), In::I32(s.below(9) as u32 + 1), In::Op(0x6a), In::GSet(0)];
        if s.chance(1, 6) {
            body.push(UNREACHABLE);
        }
        m.funcs.push(Func { ty, locals: vec![], body });
        m.start = Some(n as u32);
    }
    m
}

pub(super) fn generated(s: &mut Src) -> Module {
    let prof = Prof {
        imports: if s.chance(1, 10) { 2 } else { 0 },
        body: (4, 30),
        trap: *s.pick(&[0, 30, 100]),
        simd: s.below(4) as u32,
        mem: *s.pick(&[1, 6]),
        start: 200,
        max_funcs: 4,
        refs: 1,
        ..Prof::default()
    };
    modgen::module(s, &prof, &[]).m
}

/// Engine settings as flags and as a configuration.
fn engine(s: &mut Src, flags: &mut Vec<String>) -> Config {
    let mut c = Config::new();
    let mut f = |a: &str, b: String| {
        flags.push(a.into());
        flags.push(b);
    };
    if s.chance(1, 6) {
        let w = s.bool();
        f("--fuel-policy", if w { "weighted" } else { "per-instruction" }.into());
        c = c.with_fuel_policy(if w { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction });
    }
    if s.chance(1, 5) {
        if s.bool() {
            f("--memory-backend", "vec".into());
            c = c.with_memory_backend(MemoryBackend::vec());
        } else {
            f("--memory-backend", "paged".into());
            let mut n = 65536;
            if s.bool() {
                n = 1 << s.range(6, 17);
                f("--memory-page-chunk-size", n.to_string());
            }
            c = c.with_memory_backend(MemoryBackend::paged(n));
        }
    }
    let size = |s: &mut Src| {
        let n = *s.pick(&[4u64, 40, 5000]);
        s.below(n) as usize
    };
    if s.chance(1, 6) {
        let n = size(s);
        if s.bool() {
            f("--value-stack-size", n.to_string());
            c = c.with_value_stack(StackConfig::fixed(n));
        } else {
            let i = s.below(n as u64 + 1) as usize;
            f("--value-stack-dynamic", format!("{i}:{n}"));
            c = c.with_value_stack(StackConfig::dynamic(i, n));
        }
    }
    if s.chance(1, 6) {
        let n = size(s);
        if s.bool() {
            f("--call-stack-size", n.to_string());
            c = c.with_call_stack(StackConfig::fixed(n));
        } else {
            let i = s.below(n as u64 + 1) as usize;
            f("--call-stack-dynamic", format!("{i}:{n}"));
            c = c.with_call_stack(StackConfig::dynamic(i, n));
        }
    }
    if s.chance(1, 6) {
        flags.push("--trap-on-oom".into());
        c = c.with_trap_on_oom(true);
    }
    c
}

/// A memory that may by its type grow further than any machine can give.
fn endless(s: &mut Src) -> Module {
    let mut m = Module::default();
    let ty = m.ty(FT { p: vec![], r: vec![VT::I64] });
    m.mems.push(MemTy { m64: true, min: s.below(3), max: Some(1 << 46), page: None });
    for (i, n) in [1u64 << 45, 1].iter().enumerate() {
        m.funcs.push(Func { ty, locals: vec![], body: vec![In::I64(*n), In::MGrow(0)] });
        m.export(["far", "near"][i], Kind::Func, i as u32);
    }
    m
}

/// What the library says: None when the program does not end soon.
fn library(m: Option<&TwModule>, cfg: Config, invoke: Option<&str>, args: Option<&[WasmValue]>) -> Option<Result<Vec<WasmValue>, String>> {
    let Some(m) = m else { return Some(Err("the module does not load".into())) };
    let mut store = Store::new(Engine::new(cfg));
    let i = match ModuleInstance::instantiate_no_start(&mut store, m, None) {
        Ok(i) => i,
        Err(e) => return Some(Err(e.to_string())),
    };
    (|| {
        // the start section first
        if m.start_func.is_some() {
            let sf = match i.start_func(&store) {
                Ok(Some(f)) => f,
                Ok(None) => return Some(Err("no start function".into())),
                Err(e) => return Some(Err(e.to_string())),
            };
            match call(&mut store, &sf, &[])? {
                Ok(_) => {}
                Err(e) => return Some(Err(e)),
            }
        }
        match invoke {
            Some(name) => {
                let f = match i.func_untyped(&store, name) {
                    Ok(f) => f,
                    Err(e) => return Some(Err(e.to_string())),
                };
                let Some(args) = args else { return Some(Err("bad arguments".into())) };
                call(&mut store, &f, args)
            }
            None if m.start_func.is_some() => Some(Ok(vec![])),
            None => match i.func_untyped(&store, "_start") {
                Ok(f) => call(&mut store, &f, &[]).map(|r| r.map(|_| vec![])),
                Err(e) => Some(Err(e.to_string())),
            },
        }
    })()
}

fn call(store: &mut Store, f: &tinywasm::Function, a: &[WasmValue]) -> Option<Result<Vec<WasmValue>, String>> {
    let mut x = match f.call_resumable(store, a) {
        Ok(x) => x,
        Err(e) => return Some(Err(e.to_string())),
    };
    for _ in 0..20 {
        match x.resume_with_fuel(20_000) {
            Ok(ExecProgress::Completed(v)) => return Some(Ok(v)),
            Ok(ExecProgress::Suspended) => {}
            Err(e) => return Some(Err(e.to_string())),
        }
    }
    None
}

fn c01(s: &mut Src, cx: &mut Cx) -> R {
    let scratch = std::env::var_os("TWV_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    let dir = scratch.join(format!("twv-cli-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch directory");
    let tmp = Tmp(dir);
    let dir = &tmp.0;
    let echoing = s.chance(3, 5);
    let m = if echoing {
        echo(s)
    } else if s.chance(1, 12) {
        endless(s)
    } else {
        generated(s)
    };
    let mut wasm = encode(&m);
    if s.chance(1, 25) {
        // a damaged binary
        let k = s.usize(wasm.len());
        if s.bool() {
            wasm.truncate(k);
        } else {
            wasm[k] ^= 1 << s.below(8);
        }
    }
    let parsed = guarded(|| tinywasm::parse_bytes(&wasm).ok());
    let lib = match parsed {
        Ok(l) => l,
        Err(_) => return discard("the library panicked"),
    };
    // the input
    let text = || if echoing { wat_text(&m) } else { None };
    let damaged = wasm != encode(&m);
    let (ext, bytes, form): (&str, Vec<u8>, &str) = match s.below(4) {
        0 => (*s.pick(&["wasm", "bin", "twasm", "wasm.txt"]), wasm.clone(), "binary"),
        1 => match (text(), damaged) {
            (Some(t), false) => ("wat", t.into_bytes(), "text"),
            _ => ("wat", format!("(module binary \"{}\")", wat_str(&wasm)).into_bytes(), "quoted text"),
        },
        2 if lib.is_some() => match lib.as_ref().unwrap().serialize_twasm() {
            Ok(b) => (*s.pick(&["twasm", "wasm", "wat"]), b, "archive"),
            Err(_) => ("wasm", wasm.clone(), "binary"),
        },
        _ => ("wasm", wasm.clone(), "binary"),
    };
    let stdin = s.chance(1, 4);
    let path = if stdin { "-".to_string() } else { format!("in.{ext}") };
    if !stdin {
        fs::write(dir.join(&path), &bytes).expect("write");
    }
    let sin = stdin.then_some(&bytes[..]);
    let mut shown = format!("input {form} {path} ({} bytes); module {}", bytes.len(), crate::world::hex(&wasm));
    let bad = |sig: &str, what: String, shown: &str| -> R { fail(sig, format!("{what}\n{shown}")) };

    // what to run
    let exports: Vec<(String, Option<FT>)> = match &lib {
        Some(l) => l
            .exports()
            .map(|e| match e.ty {
                ExportType::Func(t) => {
                    let f = |x: &[WasmType]| x.iter().map(|t| crate::tw::vt_of(*t)).collect();
                    (e.name.to_string(), Some(FT { p: f(t.params()), r: f(t.results()) }))
                }
                _ => (e.name.to_string(), None),
            })
            .collect(),
        None => vec![],
    };
    let funcs: Vec<&(String, Option<FT>)> = exports.iter().filter(|e| e.1.is_some()).collect();
    let mut flags = vec![];
    let cfg = engine(s, &mut flags);
    let (invoke, spelled, want): (Option<String>, Vec<String>, Option<Vec<WasmValue>>) = if s.chance(1, 8) {
        (None, vec![], Some(vec![]))
    } else if funcs.is_empty() || s.chance(1, 25) {
        let n = exports.iter().find(|e| e.1.is_none()).map_or("nope".to_string(), |e| e.0.clone());
        (Some(n), vec![], None)
    } else {
        let (n, t) = s.pick(&funcs);
        let t = t.as_ref().unwrap();
        let mut args = vec![];
        let mut vals = Some(vec![]);
        for p in &t.p {
            let (a, v) = spelling(s, crate::tw::wt(*p));
            args.push(a);
            match (&mut vals, v) {
                (Some(vs), Some(v)) => vs.push(v),
                _ => vals = None,
            }
        }
        if s.chance(1, 25) {
            if args.pop().is_none() {
                args.push("1".into());
            }
            vals = None;
        }
        (Some(n.clone()), args, vals)
    };
    // negative infinity and the like look like options when they come first
    let first = spelled.first().map_or("", |x| x.as_str());
    let plain = |t: &str| t.starts_with(|c: char| c.is_ascii_digit()) && t.chars().all(|c| c.is_ascii_digit() || c == '.');
    let optionlike = first.starts_with('-') && first != "-" && !plain(&first[1..]);
    let dash = optionlike || s.chance(1, 8);
    let inv: Vec<String> = match &invoke {
        Some(n) if n.starts_with('-') || n.is_empty() || s.chance(1, 4) => vec![format!("--invoke={n}")],
        Some(n) => vec!["--invoke".into(), n.clone()],
        None => vec![],
    };
    let mut line = vec![];
    let bare = s.chance(1, 5);
    if !bare {
        line.push("run".to_string());
    }
    let compiled_name = "out.twasm".to_string();
    let mk = |line: &[String], path: &str, order: bool| -> Vec<String> {
        let mut l = line.to_vec();
        if order {
            l.extend(inv.iter().cloned());
            l.extend(flags.iter().cloned());
            l.push(path.to_string());
        } else {
            l.push(path.to_string());
            l.extend(inv.iter().cloned());
            l.extend(flags.iter().cloned());
        }
        if dash {
            l.push("--".into());
        }
        l.extend(spelled.iter().cloned());
        l
    };
    let cmd = mk(&line, &path, s.bool());
    shown = format!("tinywasm {cmd:?}\n{shown}");
    let expect = match guarded(|| library(lib.as_ref(), cfg, invoke.as_deref(), want.as_deref())) {
        Err(p) => return fail(panic_sig(&p), format!("the library panicked: {p}\n{shown}")),
        Ok(None) => return discard("the program does not end soon"),
        Ok(Some(e)) => e,
    };
    let judge = |r: &Ran, what: &str, shown: &str| -> R {
        if let Some(sg) = r.signal {
            return bad("ended by a signal", format!("{what}: signal {sg}, stderr {}", r.err), shown);
        }
        if r.code == Some(101) || r.err.contains("panicked at") {
            return bad("tool panicked", format!("{what}: {}", r.err), shown);
        }
        match &expect {
            Ok(vs) => {
                if r.code != Some(0) {
                    return bad(
                        "failed though the library succeeds",
                        format!("{what}: exit status {:?}, library returned {vs:?}; stderr {}", r.code, r.err),
                        shown,
                    );
                }
                if !printed(&r.out, vs) {
                    return bad(
                        "other results than the library",
                        format!("{what}: printed {:?}, library returned {vs:?}", String::from_utf8_lossy(&r.out)),
                        shown,
                    );
                }
            }
            Err(e) => {
                if r.code == Some(0) {
                    return bad(
                        "succeeded though the library fails",
                        format!("{what}: printed {:?}, library says {e}", String::from_utf8_lossy(&r.out)),
                        shown,
                    );
                }
            }
        }
        Ok(())
    };
    let r = run(dir, &cmd, sin);
    judge(&r, "run", &shown)?;
    cx.label(&format!("{form}{}", if stdin { " from standard input" } else { "" }));
    cx.label(if expect.is_ok() { "runs that succeed" } else { "runs that fail" });

    // compile, and run the result
    if s.chance(2, 3) {
        let how = s.below(4);
        let mut c = vec!["compile".to_string(), path.clone()];
        let mut out = dir.join(&compiled_name);
        let mut exists = false;
        let mut force = false;
        match how {
            0 if !stdin && !path.contains(".twasm") => {
                // next to the input
                let stem = Path::new(&path).file_stem().unwrap().to_str().unwrap();
                out = dir.join(format!("{stem}.twasm"));
            }
            1 => c.extend(["-o".into(), "-".into()]),
            _ => {
                c.extend([s.pick(&["-o", "--output"]).to_string(), compiled_name.clone()]);
                if s.chance(1, 3) {
                    exists = true;
                    fs::write(&out, b"precious").expect("write");
                    force = s.bool();
                    if force {
                        c.push(s.pick(&["-f", "--force"]).to_string());
                    }
                }
            }
        }
        let same = out == dir.join(&path);
        let r = run(dir, &c, sin);
        let shown2 = format!("tinywasm {c:?}\n{shown}");
        if r.signal.is_some() || r.code == Some(101) {
            return bad("compile crashed", format!("status {:?} {:?}: {}", r.code, r.signal, r.err), &shown2);
        }
        let refuse = lib.is_none() || form == "archive" || exists && !force || same;
        if refuse != (r.code != Some(0)) {
            return bad("compile", format!("expected {}, got status {:?}: {}", if refuse { "a refusal" } else { "success" }, r.code, r.err), &shown2);
        }
        if exists && refuse && fs::read(&out).ok().as_deref() != Some(b"precious") {
            return bad("compile overwrote its output", "the existing output file changed".into(), &shown2);
        }
        if same && fs::read(&out).ok().as_deref() != Some(&bytes[..]) {
            return bad("compile overwrote its input", "the input changed".into(), &shown2);
        }
        if !refuse {
            let data = if how == 1 { r.out } else { fs::read(&out).unwrap_or_default() };
            if !data.starts_with(b"TWAS") {
                return bad("compile wrote no archive", format!("{} bytes", data.len()), &shown2);
            }
            let (p2, in2) = if s.chance(1, 4) { ("-".to_string(), Some(&data[..])) } else { ("again.twasm".to_string(), None) };
            if in2.is_none() {
                fs::write(dir.join(&p2), &data).expect("write");
            }
            let cmd2 = mk(&line, &p2, s.bool());
            let r = run(dir, &cmd2, in2);
            judge(&r, "run of the compiled module", &format!("tinywasm {cmd2:?}\n{shown2}"))?;
            cx.label("compiled and run");
            // reflection through the tool does not depend on the form either
            if s.chance(1, 3) {
                for sub in ["inspect", "dump"] {
                    let a = run(dir, &[sub.to_string(), path.clone()], sin);
                    let b = run(dir, &[sub.to_string(), p2.clone()], in2);
                    if a.code != Some(0) || b.code != Some(0) || a.out != b.out {
                        return bad(
                            &format!("{sub} of the compiled module differs"),
                            format!("status {:?} and {:?}\n{}\n{}", a.code, b.code, String::from_utf8_lossy(&a.out), String::from_utf8_lossy(&b.out)),
                            &shown2,
                        );
                    }
                    if sub == "inspect" {
                        let t = String::from_utf8_lossy(&a.out);
                        // control characters are not shown
                        let named = |n: &String| n.chars().any(char::is_control) || t.contains(n.as_str());
                        for (n, ty) in &exports {
                            let l = |v: &[VT]| v.iter().map(|t| ty_name(*t)).collect::<Vec<_>>().join(", ");
                            let ok = match ty {
                                Some(ty) => {
                                    named(n) && t.contains(&format!("({})", l(&ty.p))) && (ty.r.is_empty() || t.contains(&format!("({})", l(&ty.r))))
                                }
                                None => named(n),
                            };
                            if !ok {
                                return bad("inspect misses an export", format!("{n} {ty:?}\n{t}"), &shown2);
                            }
                        }
                    }
                }
                cx.label("inspected and dumped");
            }
        }
    }
    cx.nontrivial(shown.as_bytes());
    cx.sample(|| shown.clone());
    Ok(())
}
