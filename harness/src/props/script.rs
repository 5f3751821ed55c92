//! W01: the verdict of the script runner.

use super::cli::{self, Tmp, run, wat_str, wat_text};
use crate::ir::*;
use crate::modgen;
use crate::runner::{Cx, Prop, R, Stop, discard, fail, guarded};
use crate::tape::Src;
use crate::tw::encode;
use std::fs;
use std::path::PathBuf;
use tinywasm::types::{ExternRef, FuncRef, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Error, ExecProgress, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};

pub const W01: Prop = Prop {
    id: "W01",
    quick: 4_000,
    thorough: 250_000,
    rule: "a script with at least three assertions ran, at least one of which holds and one of which does not",
    assumptions: &[
        "the library's own answer (checked by the other properties) is the reference",
        "the wast crate reads scripts correctly",
        "assert_invalid with the message \"type mismatch\" or \"multiple memories\" is skipped by design and not generated; messages of assert_malformed, assert_invalid and assert_unlinkable are not compared",
    ],
    case: w01,
    probes: &[],
};

struct Inst {
    id: Option<String>,
    i: ModuleInstance,
    m: Module,
}

/// What the script means, run with the library.
struct Ref {
    store: Store,
    insts: Vec<Inst>,
    last: Option<usize>,
    ids: Vec<(String, usize)>,
    names: Vec<(String, usize)>,
    n: u32,
}

enum Ans {
    Ok(Vec<WasmValue>),
    Trap(&'static str),
    Link,
    Err,
}

fn ans<T>(r: Result<T, Error>) -> Result<T, Ans> {
    r.map_err(|e| match e {
        Error::Trap(t) => Ans::Trap(t.message()),
        Error::Linker(_) => Ans::Link,
        _ => Ans::Err,
    })
}

const NOT_SOON: &str = "does not end soon";

impl Ref {
    fn imports(&mut self) -> Imports {
        let s = &mut self.store;
        let mut im = Imports::new();
        let t = Table::new(s, TableType::new(WasmType::RefFunc, 10, Some(20)), WasmValue::RefFunc(FuncRef::null())).unwrap();
        let m = Memory::new(s, MemoryType::default().with_page_count_initial(1).with_page_count_max(Some(2))).unwrap();
        im.define("spectest", "table", t).define("spectest", "memory", m);
        for (n, v) in [
            ("global_i32", WasmValue::I32(666)),
            ("global_i64", WasmValue::I64(666)),
            ("global_f32", WasmValue::F32(666.6)),
            ("global_f64", WasmValue::F64(666.6)),
        ] {
            let g = Global::new(s, tinywasm::types::GlobalType::new(v.into(), false), v).unwrap();
            im.define("spectest", n, g);
        }
        im.define("spectest", "print", HostFunction::from(s, |_: tinywasm::FuncContext, (): ()| Ok(())));
        im.define("spectest", "print_i32", HostFunction::from(s, |_: tinywasm::FuncContext, _: i32| Ok(())));
        im.define("spectest", "print_i32_f32", HostFunction::from(s, |_: tinywasm::FuncContext, _: (i32, f32)| Ok(())));
        im.define("spectest", "print_f64_f64", HostFunction::from(s, |_: tinywasm::FuncContext, _: (f64, f64)| Ok(())));
        for (n, k) in self.names.clone() {
            im.link_module(&n, self.insts[k].i.clone()).expect("link");
        }
        im
    }
    /// Instantiate from bytes; None if the bytes are no module.
    fn module(&mut self, wasm: &[u8]) -> Option<Result<ModuleInstance, Ans>> {
        let m = tinywasm::parse_bytes(wasm).ok()?;
        let im = self.imports();
        Some(ans(ModuleInstance::instantiate(&mut self.store, &m, Some(im))))
    }
    fn target(&self, id: &Option<String>) -> Option<usize> {
        match id {
            None => self.last,
            Some(i) => self.ids.iter().rev().find(|x| x.0 == *i).map(|x| x.1),
        }
    }
    fn invoke(&mut self, k: Option<usize>, name: &str, args: &[WasmValue]) -> Result<Ans, Stop> {
        let Some(k) = k else { return Ok(Ans::Err) };
        let r = (|| {
            let f = ans(self.insts[k].i.func_untyped(&self.store, name))?;
            let mut x = ans(f.call_resumable(&mut self.store, args))?;
            for _ in 0..20 {
                match ans(x.resume_with_fuel(50_000))? {
                    ExecProgress::Completed(v) => return Ok(Some(v)),
                    ExecProgress::Suspended => {}
                }
            }
            Ok(None)
        })();
        match r {
            Ok(Some(v)) => Ok(Ans::Ok(v)),
            Ok(None) => Err(Stop::Discard(NOT_SOON)),
            Err(a) => Ok(a),
        }
    }
}

fn quoted(n: &str) -> String {
    format!("\"{}\"", wat_str(n.as_bytes()))
}

fn f32_text(s: &mut Src, b: u32) -> String {
    let x = f32::from_bits(b);
    let sign = if b >> 31 == 1 { "-" } else { "" };
    if x.is_nan() {
        return format!("{sign}nan:0x{:x}", b & 0x7f_ffff);
    }
    if x.is_infinite() {
        return format!("{sign}inf");
    }
    match s.below(3) {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        _ => format!("{x:?}"),
    }
}
fn f64_text(s: &mut Src, b: u64) -> String {
    let x = f64::from_bits(b);
    let sign = if b >> 63 == 1 { "-" } else { "" };
    if x.is_nan() {
        return format!("{sign}nan:0x{:x}", b & 0xf_ffff_ffff_ffff);
    }
    if x.is_infinite() {
        return format!("{sign}inf");
    }
    match s.below(3) {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        _ => format!("{x:?}"),
    }
}
/// The text of a value; in results NaNs may be written as patterns.
fn text(s: &mut Src, v: &WasmValue, result: bool) -> Option<String> {
    let nan = |s: &mut Src| s.pick(&["nan:canonical", "nan:arithmetic"]).to_string();
    let f32t = |s: &mut Src, b: u32| if result && f32::from_bits(b).is_nan() && s.bool() { nan(s) } else { f32_text(s, b) };
    let f64t = |s: &mut Src, b: u64| if result && f64::from_bits(b).is_nan() && s.bool() { nan(s) } else { f64_text(s, b) };
    Some(match v {
        WasmValue::I32(x) => match s.below(3) {
            0 => format!("(i32.const 0x{:x})", *x as u32),
            1 => format!("(i32.const {})", *x as u32),
            _ => format!("(i32.const {x})"),
        },
        WasmValue::I64(x) => match s.below(3) {
            0 => format!("(i64.const 0x{:x})", *x as u64),
            1 => format!("(i64.const {})", *x as u64),
            _ => format!("(i64.const {x})"),
        },
        WasmValue::F32(x) => format!("(f32.const {})", f32t(s, x.to_bits())),
        WasmValue::F64(x) => format!("(f64.const {})", f64t(s, x.to_bits())),
        WasmValue::V128(b) => {
            let w = |n: usize, i: usize| -> u64 { b[n * i..n * i + n].iter().rev().fold(0, |a, x| a << 8 | *x as u64) };
            let (shape, lanes): (&str, Vec<String>) = match s.below(6) {
                0 => ("i8x16", b.iter().map(|x| if s.bool() { (*x as i8).to_string() } else { x.to_string() }).collect()),
                1 => ("i16x8", (0..8).map(|i| format!("0x{:x}", w(2, i))).collect()),
                2 => ("i32x4", (0..4).map(|i| (w(4, i) as i32).to_string()).collect()),
                3 => ("i64x2", (0..2).map(|i| format!("0x{:x}", w(8, i))).collect()),
                4 => ("f32x4", (0..4).map(|i| if w(4, i) == 0x7fc0_0000 { f32t(s, 0x7fc0_0000) } else { f32_text(s, w(4, i) as u32) }).collect()),
                _ => ("f64x2", (0..2).map(|i| if w(8, i) == 0x7ff8 << 48 { f64t(s, 0x7ff8 << 48) } else { f64_text(s, w(8, i)) }).collect()),
            };
            format!("(v128.const {shape} {})", lanes.join(" "))
        }
        WasmValue::RefExtern(r) => match r.addr() {
            None => "(ref.null extern)".into(),
            Some(n) => format!("(ref.extern {n})"),
        },
        WasmValue::RefFunc(r) if r.addr().is_none() => "(ref.null func)".into(),
        WasmValue::RefFunc(_) => return None,
    })
}

fn loose(a: &WasmValue, b: &WasmValue) -> bool {
    let f = |x: u32, y: u32| x == y || f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan();
    let d = |x: u64, y: u64| x == y || f64::from_bits(x).is_nan() && f64::from_bits(y).is_nan();
    match (a, b) {
        (WasmValue::I32(x), WasmValue::I32(y)) => x == y,
        (WasmValue::I64(x), WasmValue::I64(y)) => x == y,
        (WasmValue::F32(x), WasmValue::F32(y)) => f(x.to_bits(), y.to_bits()),
        (WasmValue::F64(x), WasmValue::F64(y)) => d(x.to_bits(), y.to_bits()),
        (WasmValue::V128(x), WasmValue::V128(y)) => {
            let w4 = |b: &[u8; 16], i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
            let w8 = |b: &[u8; 16], i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            (0..4).all(|i| f(w4(x, i), w4(y, i))) || (0..2).all(|i| d(w8(x, i), w8(y, i)))
        }
        (WasmValue::RefExtern(x), WasmValue::RefExtern(y)) => x.addr() == y.addr(),
        (WasmValue::RefFunc(x), WasmValue::RefFunc(y)) => x.addr() == y.addr(),
        _ => false,
    }
}

fn any_value(s: &mut Src, t: WasmType) -> WasmValue {
    match t {
        WasmType::I32 => WasmValue::I32(modgen::int32(s) as i32),
        WasmType::I64 => WasmValue::I64(modgen::int64(s) as i64),
        WasmType::F32 => WasmValue::F32(f32::from_bits(modgen::f32b(s))),
        WasmType::F64 => WasmValue::F64(f64::from_bits(modgen::f64b(s))),
        WasmType::V128 => WasmValue::V128(modgen::v128b(s).to_le_bytes()),
        WasmType::RefExtern => WasmValue::RefExtern(ExternRef::new(if s.bool() { None } else { Some(s.below(9) as u32) })),
        WasmType::RefFunc => WasmValue::RefFunc(FuncRef::null()),
    }
}

/// Something else, mostly close.
fn other(s: &mut Src, v: &WasmValue) -> WasmValue {
    if s.chance(1, 6) {
        let t = *s.pick(&[WasmType::I32, WasmType::I64, WasmType::F32, WasmType::F64, WasmType::V128, WasmType::RefExtern]);
        return any_value(s, t);
    }
    match v {
        WasmValue::I32(x) => WasmValue::I32(x ^ 1 << s.below(32)),
        WasmValue::I64(x) => WasmValue::I64(x ^ 1 << s.below(64)),
        WasmValue::F32(x) => WasmValue::F32(f32::from_bits(x.to_bits() ^ 1 << s.below(32))),
        WasmValue::F64(x) => WasmValue::F64(f64::from_bits(x.to_bits() ^ 1 << s.below(64))),
        WasmValue::V128(x) => {
            let mut x = *x;
            x[s.usize(16)] ^= 1 << s.below(8);
            WasmValue::V128(x)
        }
        WasmValue::RefExtern(r) => WasmValue::RefExtern(ExternRef::new(match r.addr() {
            None => Some(s.below(3) as u32),
            Some(n) => {
                if s.bool() {
                    None
                } else {
                    Some(n ^ 1)
                }
            }
        })),
        WasmValue::RefFunc(_) => WasmValue::RefFunc(FuncRef::null()),
    }
}

/// The text of expected results and whether `got` is as expected.
fn results(s: &mut Src, got: &[WasmValue]) -> Option<(String, bool, usize)> {
    let mut want: Vec<Vec<WasmValue>> = got.iter().map(|v| vec![*v]).collect();
    if s.chance(2, 5) {
        match s.below(6) {
            0 if !want.is_empty() => {
                want.remove(s.usize(got.len()));
            }
            1 => {
                let at = s.usize(want.len() + 1);
                let t = *s.pick(&[WasmType::I32, WasmType::I64, WasmType::F32]);
                want.insert(at, vec![any_value(s, t)]);
            }
            2 if want.len() > 1 => {
                let (a, b) = (s.usize(want.len()), s.usize(want.len()));
                want.swap(a, b);
            }
            _ if !want.is_empty() => {
                let k = s.usize(want.len());
                want[k] = vec![other(s, &got[k])];
            }
            _ => {}
        }
    }
    // alternatives
    for w in &mut want {
        if s.chance(1, 8) {
            let o = other(s, &w[0]);
            let at = s.usize(2);
            w.insert(at, o);
            if s.bool() {
                let o = other(s, &w[0]);
                w.push(o);
            }
        }
    }
    let holds = want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w.iter().any(|w| loose(w, g)));
    let mut t = String::new();
    for w in &want {
        let parts: Option<Vec<String>> = w.iter().map(|v| text(s, v, true)).collect();
        let parts = parts?;
        t += &if parts.len() == 1 { format!(" {}", parts[0]) } else { format!(" (either {})", parts.join(" ")) };
    }
    Some((t, holds, want.len()))
}

/// A message to expect and whether it fits `real`.
fn message(s: &mut Src, real: Option<&str>) -> (String, bool) {
    const ALL: [&str; 8] = [
        "unreachable",
        "out of bounds memory access",
        "out of bounds table access",
        "integer divide by zero",
        "integer overflow",
        "call stack exhausted",
        "undefined element",
        "indirect call type mismatch",
    ];
    let r = real.unwrap_or("unreachable");
    let m = match s.below(8) {
        0 | 1 => s.pick(&ALL).to_string(),
        2 => format!("{r} 7"),
        3 => r[..s.range(1, r.len() as u64) as usize].to_string(),
        4 => format!("{}x", &r[..r.len() - 1]),
        _ => r.to_string(),
    };
    let fits = real.is_some_and(|r| m.starts_with(r) || r.starts_with(&m));
    (m, fits)
}

struct File {
    lines: Vec<String>,
    /// per directive: the line and whether it holds
    want: Vec<(usize, bool)>,
    asserts: [u64; 2],
}

impl File {
    fn put(&mut self, s: &mut Src, line: String, holds: bool, assertion: bool) {
        while s.chance(1, 8) {
            self.lines.push(if s.bool() { String::new() } else { ";; (assert_return (invoke \"x\"))".into() });
        }
        self.lines.push(line);
        self.want.push((self.lines.len(), holds));
        if assertion {
            self.asserts[holds as usize] += 1;
        }
    }
}

fn module_text(s: &mut Src, m: &Module, wasm: &[u8], id: Option<&str>) -> String {
    let id = id.map_or(String::new(), |i| format!(" ${i}"));
    if *wasm == *encode(m)
        && s.bool()
        && let Some(t) = wat_text(m)
    {
        return t.replacen("(module", &format!("(module{id}"), 1).replace('\n', " ");
    }
    if s.bool() || wasm.len() < 12 {
        format!("(module{id} binary {})", quoted_bytes(wasm))
    } else {
        let k = s.usize(wasm.len());
        format!("(module{id} binary {} {})", quoted_bytes(&wasm[..k]), quoted_bytes(&wasm[k..]))
    }
}
fn quoted_bytes(b: &[u8]) -> String {
    format!("\"{}\"", wat_str(b))
}

/// A module that imports something registered, or nearly.
fn importer(s: &mut Src, r: &Ref) -> Option<Module> {
    if r.names.is_empty() {
        return None;
    }
    let (reg, k) = s.pick(&r.names).clone();
    let src = &r.insts[k].m;
    let mut m = Module::default();
    for i in 0..s.range(1, 2) as u32 {
        if src.exports.is_empty() {
            return None;
        }
        let e = s.pick(&src.exports).clone();
        let near = s.chance(1, 5);
        let (mut module, mut name) = (reg.clone(), e.name.clone());
        if near && s.bool() {
            if s.bool() {
                module += "x";
            } else {
                name += "x";
            }
        }
        let (desc, kind) = match e.kind {
            Kind::Func => {
                let mut t = src.func_ty(e.idx).clone();
                if near {
                    t.p.push(VT::I32);
                }
                (Desc::Func(m.ty(t)), Kind::Func)
            }
            Kind::Glob => {
                let mut t = src.all_globs()[e.idx as usize];
                t.m ^= near;
                (Desc::Glob(t), Kind::Glob)
            }
            Kind::Mem => (Desc::Mem(src.mem_ty(e.idx)), Kind::Mem),
            Kind::Tab => (Desc::Tab(src.all_tabs()[e.idx as usize]), Kind::Tab),
        };
        if m.imports.iter().any(|x| kind_of(&x.desc) == kind) {
            continue;
        }
        m.imports.push(Import { module, name, desc });
        m.export(format!("i{i}"), kind, 0);
    }
    if s.chance(1, 6) {
        let ty = m.ty(FT::default());
        m.start = Some(m.n_funcs());
        m.funcs.push(Func { ty, locals: vec![], body: vec![UNREACHABLE] });
    }
    Some(m)
}

/// A module that uses the items every script may import.
fn spectest(s: &mut Src) -> Module {
    let mut m = Module::default();
    let import = |m: &mut Module, n: &str, d: Desc| {
        m.imports.push(Import { module: "spectest".into(), name: n.into(), desc: d });
    };
    match s.below(4) {
        0 => {
            for (n, t) in [("global_i32", VT::I32), ("global_i64", VT::I64), ("global_f32", VT::F32), ("global_f64", VT::F64)] {
                import(&mut m, n, Desc::Glob(GlobTy { t, m: false }));
                m.export(n, Kind::Glob, m.n_imp(Kind::Glob) - 1);
            }
        }
        1 => {
            for (n, p) in [
                ("print", vec![]),
                ("print_i32", vec![VT::I32]),
                ("print_i32_f32", vec![VT::I32, VT::F32]),
                ("print_f64_f64", vec![VT::F64, VT::F64]),
            ] {
                let t = m.ty(ft(&p, &[]));
                import(&mut m, n, Desc::Func(t));
                m.export(n, Kind::Func, m.n_imp(Kind::Func) - 1);
            }
        }
        2 => {
            import(&mut m, "memory", Desc::Mem(MemTy { m64: false, min: 1, max: Some(2), page: None }));
            let t = m.ty(ft(&[VT::I32], &[VT::I32]));
            m.funcs.push(Func { ty: t, locals: vec![], body: vec![In::LGet(0), In::MGrow(0)] });
            m.funcs.push(Func { ty: t, locals: vec![], body: vec![In::MSize(0)] });
            m.export("grow", Kind::Func, 0);
            m.export("size", Kind::Func, 1);
        }
        _ => {
            import(&mut m, "table", Desc::Tab(TabTy { t64: false, el: VT::Func, min: 10, max: Some(20) }));
            let t = m.ty(ft(&[VT::I32], &[VT::I32]));
            m.funcs.push(Func { ty: t, locals: vec![], body: vec![In::LGet(0), In::TGet(0), REF_IS_NULL] });
            m.funcs.push(Func { ty: t, locals: vec![], body: vec![In::TSize(0)] });
            m.export("null", Kind::Func, 0);
            m.export("size", Kind::Func, 1);
        }
    }
    m
}

/// Endless recursion, and a function that recurses `n` times.
fn recursion(s: &mut Src) -> Module {
    let mut m = Module::default();
    let t = m.ty(ft(&[VT::I32], &[]));
    let body = vec![In::LGet(0), In::If(BT::Empty, vec![In::LGet(0), In::I32(1), In::Op(0x6b), In::Call(0)], None)];
    m.funcs.push(Func { ty: t, locals: vec![], body });
    m.export("down", Kind::Func, 0);
    if s.bool() {
        m.export("f", Kind::Func, 0);
    }
    m
}

fn file(s: &mut Src) -> R<File> {
    let mut f = File { lines: vec![], want: vec![], asserts: [0; 2] };
    let mut r = Ref { store: Store::default(), insts: vec![], last: None, ids: vec![], names: vec![], n: 0 };
    for step in 0..24 {
        if step > 0 && !s.chance(14, 15) {
            break;
        }
        let what = if step == 0 && s.chance(9, 10) { 0 } else { s.weighted(&[4, 2, 2, 12, 4, 2, 2, 2, 1, 2]) };
        match what {
            // a module
            0 => {
                let m = match s.below(8) {
                    0..3 => cli::echo(s),
                    3 | 4 => cli::generated(s),
                    5 => spectest(s),
                    6 => recursion(s),
                    _ => match importer(s, &r) {
                        Some(m) => m,
                        None => continue,
                    },
                };
                let mut wasm = encode(&m);
                if s.chance(1, 20) {
                    let k = s.usize(wasm.len());
                    wasm[k] ^= 1 << s.below(8);
                }
                r.n += 1;
                let id = if s.chance(2, 3) { Some(if s.chance(1, 5) { "a".into() } else { format!("m{}", r.n) }) } else { None };
                let t = module_text(s, &m, &wasm, id.as_deref());
                if s.chance(1, 15) {
                    let ok = tinywasm::parse_bytes(&wasm).is_ok();
                    f.put(s, t.replacen("(module", "(module definition", 1), ok, false);
                    continue;
                }
                let x = r.module(&wasm);
                // a damaged module may have other exports
                let x = match x {
                    Some(Ok(i)) if wasm != encode(&m) => {
                        let same = i.exports().count() == m.exports.len() && m.exports.iter().all(|e| i.extern_item(&e.name).is_ok());
                        if !same {
                            return discard("damaged module");
                        }
                        Some(Ok(i))
                    }
                    x => x,
                };
                match x {
                    Some(Ok(i)) => {
                        let k = r.insts.len();
                        r.insts.push(Inst { id: id.clone(), i, m });
                        r.last = Some(k);
                        if let Some(id) = id {
                            r.ids.push((id, k));
                        }
                        f.put(s, t, true, false);
                    }
                    _ => f.put(s, t, false, false),
                }
            }
            // register
            1 => {
                let id = pick_id(s, &r);
                let Some(k) = r.target(&id) else {
                    f.put(s, format!("(register \"nothing\"{})", id.map_or(String::new(), |i| format!(" ${i}"))), false, false);
                    continue;
                };
                let name = (*s.pick(&["a", "b", "lib", "m1", "x y"])).to_string();
                r.names.retain(|x| x.0 != name);
                r.names.push((name.clone(), k));
                let t = format!("(register {}{})", quoted(&name), id.map_or(String::new(), |i| format!(" ${i}")));
                f.put(s, t, true, false);
            }
            // a global
            2 => {
                let id = pick_id(s, &r);
                let k = r.target(&id);
                // with an unknown name, what the last module has must not be found
                let Some(of) = k.or(r.last) else {
                    let at = id.map_or(String::new(), |i| format!(" ${i}"));
                    f.put(s, format!("(assert_return (get{at} \"g\") (i32.const 0))"), false, true);
                    continue;
                };
                let g: Vec<String> =
                    r.insts[of].m.exports.iter().filter(|e| e.kind == Kind::Glob || s.chance(1, 9)).map(|e| e.name.clone()).collect();
                if g.is_empty() {
                    continue;
                }
                let n = s.pick(&g).clone();
                let v = r.insts[of].i.global_get(&r.store, &n);
                let at = id.map_or(String::new(), |i| format!(" ${i}"));
                let (res, ok) = match v {
                    Ok(v) => {
                        // an assertion about a global names one value
                        let Some((t, ok, 1)) = results(s, &[v]) else { continue };
                        (t, ok)
                    }
                    Err(_) => (" (i32.const 0)".into(), false),
                };
                f.put(s, format!("(assert_return (get{at} {}){res})", quoted(&n)), ok && k.is_some(), true);
            }
            // calls
            3..=6 => {
                let id = pick_id(s, &r);
                let k = r.target(&id);
                let (mut name, mut args) = ("none".to_string(), vec![]);
                if let Some(k) = k.or(r.last) {
                    let fs: Vec<Export> = r.insts[k].m.exports.iter().filter(|e| e.kind == Kind::Func || s.chance(1, 20)).cloned().collect();
                    if !fs.is_empty() {
                        let e = s.pick(&fs);
                        name = e.name.clone();
                        if e.kind == Kind::Func {
                            let m = &r.insts[k].m;
                            args = m.func_ty(e.idx).p.iter().map(|t| crate::tw::wt(*t)).collect();
                        }
                    }
                }
                let mut vals: Vec<WasmValue> = args.iter().map(|t| any_value(s, *t)).collect();
                if name == "down" {
                    vals = vec![WasmValue::I32(*s.pick(&[3, 100, 5_000, 900]))];
                }
                if s.chance(1, 15) {
                    if s.bool() || vals.is_empty() {
                        vals.push(WasmValue::I32(1));
                    } else {
                        let j = s.usize(vals.len());
                        vals[j] = other(s, &vals[j]);
                    }
                }
                let mut t = format!("(invoke{} {}", id.map_or(String::new(), |i| format!(" ${i}")), quoted(&name));
                for v in &vals {
                    match text(s, v, false) {
                        Some(x) => t += &format!(" {x}"),
                        None => return discard("no text"),
                    }
                }
                t += ")";
                let a = r.invoke(k, &name, &vals)?;
                match what {
                    3 => {
                        let (res, ok) = match &a {
                            Ans::Ok(v) => {
                                // function addresses cannot be written down
                                let Some((t, ok, _)) = results(s, v) else {
                                    f.put(s, t, true, false);
                                    continue;
                                };
                                (t, ok)
                            }
                            _ => match s.below(2) {
                                0 => (String::new(), false),
                                _ => (" (i32.const 0)".into(), false),
                            },
                        };
                        f.put(s, format!("(assert_return {t}{res})"), ok, true);
                    }
                    4 => {
                        let (m, ok) = message(s, if let Ans::Trap(t) = a { Some(t) } else { None });
                        f.put(s, format!("(assert_trap {t} {})", quoted(&m)), ok, true);
                    }
                    5 => {
                        let (m, ok) = message(s, if let Ans::Trap(t) = a { Some(t) } else { None });
                        f.put(s, format!("(assert_exhaustion {t} {})", quoted(&m)), ok, true);
                    }
                    _ => f.put(s, t, matches!(a, Ans::Ok(_)), false),
                }
            }
            // modules that must be refused
            7 => {
                let m = if s.bool() { cli::echo(s) } else { cli::generated(s) };
                let mut wasm = encode(&m);
                if s.chance(2, 3) {
                    let k = s.usize(wasm.len());
                    if s.bool() {
                        wasm[k] ^= 1 << s.below(8);
                    } else {
                        wasm.truncate(k);
                    }
                }
                let ok = tinywasm::parse_bytes(&wasm).is_err();
                let kind = *s.pick(&["assert_malformed", "assert_invalid"]);
                let (t, ok) = if s.chance(1, 8) && kind == "assert_malformed" {
                    s.pick(&[
                        ("(module quote \"(func\")", true),
                        ("(module quote \"(func)\")", false),
                        ("(module quote \"(func (result i33))\")", true),
                    ])
                    .clone()
                } else {
                    (&*module_text(s, &m, &wasm, None), ok)
                };
                f.put(s, format!("({kind} {t} \"some message\")"), ok, true);
            }
            // an assertion the runner does not know
            8 => {
                if r.last.is_some() {
                    f.put(s, "(assert_exception (invoke \"f\"))".into(), false, true);
                }
            }
            // modules that do not link or trap
            _ => {
                let m = match importer(s, &r) {
                    Some(m) if s.chance(3, 4) => m,
                    _ => cli::echo(s),
                };
                let wasm = encode(&m);
                let t = module_text(s, &m, &wasm, None);
                let a = match r.module(&wasm) {
                    None => return discard("invalid importer"),
                    Some(x) => x,
                };
                if s.bool() {
                    f.put(s, format!("(assert_unlinkable {t} \"unknown import\")"), matches!(a, Err(Ans::Link)), true);
                } else {
                    let (m, ok) = message(s, if let Err(Ans::Trap(t)) = a { Some(t) } else { None });
                    f.put(s, format!("(assert_trap {t} {})", quoted(&m)), ok, true);
                }
            }
        }
    }
    if f.want.is_empty() {
        f.put(s, "(module)".into(), true, false);
    }
    Ok(f)
}

fn pick_id(s: &mut Src, r: &Ref) -> Option<String> {
    // names that no module has, among them names that modules are registered under
    if s.chance(1, 25) {
        let n = *s.pick(&["nowhere", "lib", "b", "m1", "M1"]);
        return Some(n.into());
    }
    let c: Vec<&String> = r.insts.iter().filter_map(|i| i.id.as_ref()).collect();
    if c.is_empty() || s.bool() { None } else { Some((*s.pick(&c)).clone()) }
}

fn w01(s: &mut Src, cx: &mut Cx) -> R {
    let scratch = std::env::var_os("TWV_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    let dir = scratch.join(format!("twv-script-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch directory");
    let tmp = Tmp(dir);
    let dir = fs::canonicalize(&tmp.0).expect("scratch directory");
    let n = if s.chance(1, 6) { 2 } else { 1 };
    let mut files = vec![];
    for k in 0..n {
        let f = match guarded(|| file(s)) {
            Ok(f) => f?,
            Err(_) => return discard("the library panicked"),
        };
        let mut text = f.lines.join("\n");
        if s.bool() {
            text.push('\n');
        }
        let name = format!("s{k}.wast");
        fs::write(dir.join(&name), &text).expect("write");
        files.push((name, f, text));
    }
    let mut args = vec!["wast".to_string()];
    if s.chance(1, 6) {
        fs::write(dir.join("other.txt"), "(assert_return").expect("write");
        args.push(".".into());
    } else {
        args.extend(files.iter().map(|f| f.0.clone()));
    }
    let ran = run(&dir, &args, None);
    let shown = files.iter().map(|f| format!(";; {}\n{}\n", f.0, f.2)).collect::<String>();
    let out = String::from_utf8_lossy(&ran.out).into_owned();
    let show = |sig: &str, what: String| -> R { fail(sig, format!("{what}\n{shown}\nstdout:\n{out}\nstderr:\n{}", ran.err)) };
    if let Some(x) = ran.signal {
        return show("crash", format!("signal {x}"));
    }
    if ran.code == Some(101) {
        return show("panic", "the tool panicked".into());
    }
    let total: usize = files.iter().map(|f| f.1.want.len()).sum();
    let failing: usize = files.iter().map(|f| f.1.want.iter().filter(|w| !w.1).count()).sum();
    for (name, f, _) in &files {
        let path = dir.join(name);
        let head = format!("{}:", path.display());
        let mut got: Vec<usize> = ran.err.lines().filter_map(|l| l.strip_prefix(&head)).filter_map(|l| l.split(':').next()?.parse().ok()).collect();
        got.sort_unstable();
        let want: Vec<usize> = f.want.iter().filter(|w| !w.1).map(|w| w.0).collect();
        if got != want {
            return show("which directives fail", format!("{name}: expected lines {want:?} to fail, reported {got:?}"));
        }
    }
    let number = |key: &str| out.lines().filter_map(|l| l.trim().strip_prefix(key)).next_back().and_then(|x| x.trim().parse::<usize>().ok());
    if (number("Total Tests:"), number("Total Passed:"), number("Total Failed:")) != (Some(total), Some(total - failing), Some(failing)) {
        return show("totals", format!("expected {total} tests, {failing} failing"));
    }
    let lines: Vec<&str> = out.lines().map(|l| l.trim()).collect();
    for (name, f, _) in files.iter().filter(|f| !f.1.want.is_empty()) {
        let bad = f.want.iter().filter(|w| !w.1).count();
        let Some(at) = lines.iter().position(|l| !l.starts_with("running") && (*l == name.as_str() || l.ends_with(&format!("/{name}")))) else {
            return show("summary", format!("nothing about {name}"));
        };
        let value = |i: usize, key: &str| lines.get(at + i).and_then(|l| l.strip_prefix(key)).and_then(|x| x.trim().parse::<usize>().ok());
        if value(1, "Tests Passed:") != Some(f.want.len() - bad) || value(2, "Tests Failed:") != (bad != 0).then_some(bad) {
            return show("summary", format!("{name}: expected {} tests, {bad} failing", f.want.len()));
        }
    }
    if (ran.code == Some(0)) != (failing == 0) {
        return show("exit status", format!("{failing} of {total} directives fail, exit status {:?}", ran.code));
    }
    let a = files.iter().fold([0, 0], |a, f| [a[0] + f.1.asserts[0], a[1] + f.1.asserts[1]]);
    cx.label_n("assertions that hold", a[1]);
    cx.label_n("assertions that do not hold", a[0]);
    if a[0] + a[1] >= 3 && a[0] > 0 && a[1] > 0 {
        cx.nontrivial(shown.as_bytes());
    }
    cx.sample(|| shown.clone());
    Ok(())
}
