//! S01: whatever the guest and its caller do, the host survives and the store stays usable.

use super::load::{change, dead};
use super::variants::any_prof;
#[cfg(not(feature = "full"))]
use crate::compat::*;
use crate::ir::*;
use crate::model::Ext;
use crate::modgen::{self, AvDesc, Avail, int32, value};
use crate::runner::{Cx, Prop, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{encode, fty, memty, tabty, vt_of, wt};
use crate::val::*;
use crate::world::{hex, show_module, validate};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::{Config, FuelPolicy, StackConfig};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExternRef, FuncRef, GlobalType, MemoryType, WasmType, WasmValue};
use tinywasm::{
    Engine, Error, ExecProgress, Extern, ExternItem, FuncContext, Function, Global, HostFunction, Imports, LinearMemory, Memory, MemoryBackend,
    ModuleInstance, Store, Table, Trap,
};

pub const S01: Prop = Prop {
    id: "S01",
    quick: 36_000,
    thorough: 6_000_000,
    rule: "a module was instantiated, at least 2 of its exports ran, and the bystander instance was checked afterwards",
    assumptions: &[
        "the paged backend's chunk size is a power of two and stack configurations are small enough to be allocated (embedder errors)",
        "execution is always budgeted, so a guest that never ends is dropped",
    ],
    case: s01,
    probes: &[],
};

/// A byte array that refuses to grow beyond a cap; transfers may be short.
struct Capped {
    b: Vec<u8>,
    cap: usize,
    k: usize,
}
impl LinearMemory for Capped {
    fn len(&self) -> usize {
        self.b.len()
    }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> {
        if n > self.cap || n < self.b.len() {
            return Err(Trap::OutOfMemory);
        }
        self.b.resize(n, 0);
        Ok(())
    }
    fn read(&self, a: usize, d: &mut [u8]) -> usize {
        let n = self.b.len().saturating_sub(a).min(d.len()).min(self.k);
        if n > 0 {
            d[..n].copy_from_slice(&self.b[a..a + n]);
        }
        n
    }
    fn write(&mut self, a: usize, d: &[u8]) -> usize {
        let n = self.b.len().saturating_sub(a).min(d.len()).min(self.k);
        if n > 0 {
            self.b[a..a + n].copy_from_slice(&d[..n]);
        }
        n
    }
}
pub fn capped(cap: usize, k: usize) -> MemoryBackend {
    MemoryBackend::custom(move |t: MemoryType| {
        let n = usize::try_from(t.initial_size()).unwrap_or(usize::MAX);
        if n > cap { Err(Error::Trap(Trap::OutOfMemory)) } else { Ok(Capped { b: vec![0; n], cap, k }) }
    })
}

fn stack(s: &mut Src, hi: u64) -> StackConfig {
    let n = s.range(0, hi) as usize;
    match s.below(6) {
        0 => StackConfig::fixed(n),
        1 => StackConfig::dynamic(s.below(n as u64 + 1) as usize, n),
        2 => StackConfig::dynamic(n, n),
        3 => StackConfig::dynamic(n.min(50), usize::MAX),
        4 => StackConfig::dynamic(0, 1 << 20),
        _ => StackConfig::fixed(4096),
    }
}

fn any_value(s: &mut Src, t: VT, funcs: &[u32]) -> WasmValue {
    let v = if t.is_ref() { Val { b: 0, t: 0 } } else { value(s, t) };
    match t {
        VT::I32 => WasmValue::I32(v.b as u32 as i32),
        VT::I64 => WasmValue::I64(v.b as u64 as i64),
        VT::F32 => WasmValue::F32(f32::from_bits(v.b as u32)),
        VT::F64 => WasmValue::F64(f64::from_bits(v.b as u64)),
        VT::V128 => WasmValue::V128(v.b.to_le_bytes()),
        VT::Func => WasmValue::RefFunc(match s.below(4) {
            0 => FuncRef::null(),
            1 | 2 if !funcs.is_empty() => FuncRef::new(Some(*s.pick(funcs))),
            _ => FuncRef::new(Some(*s.pick(&[0u32, 1, 2, 7, 9999, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]))),
        }),
        VT::Extern => WasmValue::RefExtern(if s.bool() { ExternRef::null() } else { ExternRef::new(Some(int32(s))) }),
    }
}

/// What a generated host function does.
#[derive(Clone, Default)]
struct Wild {
    results: Vec<WasmValue>,
    fail: u8,
    charge: u32,
    /// grow or write through handles
    mem: Option<(Memory, i64)>,
    tab: Option<(Table, i32)>,
    glob: Option<(Global, WasmValue)>,
    /// call the bystander from inside
    nested: Option<(Function, i32)>,
    plain: bool,
}

fn wild(s: &mut Src, t: &FT, mem: Option<Memory>, tab: Option<Table>, glob: Option<Global>, by: &Function) -> Wild {
    let mut w = Wild { results: t.r.iter().map(|t| any_value(s, *t, &[])).collect(), ..Wild::default() };
    if s.chance(1, 5) {
        w.fail = s.range(1, 4) as u8;
    }
    if s.chance(1, 12) {
        w.results.push(WasmValue::I32(1));
    } else if s.chance(1, 12) && !w.results.is_empty() {
        w.results[0] = WasmValue::RefExtern(ExternRef::null());
    }
    if s.chance(1, 4) {
        w.charge = *s.pick(&[0, 1, 100, 100_000, u32::MAX]);
    }
    if s.chance(1, 5) {
        w.mem = mem.map(|m| (m, *s.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN])));
    }
    if s.chance(1, 5) {
        w.tab = tab.map(|t| (t, *s.pick(&[0, 1, 5, -1, i32::MAX, i32::MIN])));
    }
    if s.chance(1, 5) {
        w.glob = glob.map(|g| {
            let t = *s.pick(&ALLT);
            (g, any_value(s, t, &[]))
        });
    }
    if s.chance(1, 4) {
        w.nested = Some((by.clone(), s.below(20) as i32));
    }
    w.plain = s.chance(1, 8);
    w
}

fn run_wild(ctx: &mut FuncContext<'_>, w: &Wild) -> Result<Vec<WasmValue>, Error> {
    ctx.charge_fuel(w.charge);
    let _ = ctx.remaining_fuel();
    if let Some((m, n)) = &w.mem {
        let _ = m.grow(ctx.store_mut(), *n);
        let _ = m.copy_from_slice(ctx.store_mut(), 3, b"scribble");
    }
    if let Some((t, n)) = &w.tab {
        let _ = t.grow(ctx.store_mut(), *n, WasmValue::RefFunc(FuncRef::null()));
    }
    if let Some((g, v)) = &w.glob {
        let _ = g.set(ctx.store_mut(), *v);
    }
    if let Some((f, n)) = &w.nested {
        ctx.call_untyped(f, &[WasmValue::I32(*n)])?;
    }
    if w.plain
        && let Some((f, _)) = &w.nested
    {
        let _ = f.call(ctx.store_mut(), &[WasmValue::I32(1)]);
        let _ = f.call_resumable(ctx.store_mut(), &[WasmValue::I32(1)]).map(|_| ());
    }
    match w.fail {
        1 => Err(Error::Other("wild".into())),
        2 => Err(Error::Trap(Trap::MemoryOutOfBounds { offset: usize::MAX, len: usize::MAX, max: 0 })),
        3 => Err(Error::Trap(Trap::Unreachable)),
        _ => Ok(w.results.clone()),
    }
}

/// The bystander: `f(n)` recurses n deep, counting activations in `g`, and sums bytes it keeps in memory.
fn bystander() -> Module {
    let mut m = Module::default();
    let t = m.ty(ft(&[VT::I32], &[VT::I64]));
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.mems.push(MemTy { m64: false, min: 1, max: Some(4), page: Some(0) });
    m.tables.push((TabTy { t64: false, el: VT::Func, min: 2, max: Some(3) }, None));
    m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(1)] }, items: ElemItems::Funcs(vec![0]) });
    m.datas.push(Data { active: Some((0, vec![In::I32(0)])), bytes: vec![9] });
    let ma = MA { align: 0, off: 0, mem: 0 };
    m.funcs.push(Func {
        ty: t,
        locals: vec![VT::F64, VT::Extern],
        body: vec![
            In::GGet(0),
            In::I32(1),
            In::Op(0x6a),
            In::GSet(0),
            In::LGet(0),
            In::If(
                BT::Val(VT::I64),
                vec![In::LGet(0), In::I32(1), In::Op(0x6b), In::I32(1), In::CallInd { ty: t, tab: 0 }, In::I64(3), In::Op(0x7c)],
                Some(vec![In::I32(0), In::Mem(0x31, ma)]),
            ),
        ],
    });
    m.export("f", Kind::Func, 0);
    m.export("g", Kind::Glob, 0);
    m.export("m", Kind::Mem, 0);
    m
}

struct By {
    f: Function,
    g: Global,
    m: Memory,
    first: Vec<(i32, Option<i64>, i32)>,
}
impl By {
    fn run(&self, store: &mut Store, n: i32) -> Result<(Option<i64>, i32), String> {
        let r = guarded(|| {
            self.g.set(store, WasmValue::I32(0)).map_err(|e| format!("{e}"))?;
            let r = match self.f.call(store, &[WasmValue::I32(n)]) {
                Ok(v) => match v[..] {
                    [WasmValue::I64(x)] => Some(x),
                    _ => return Err(format!("results {v:?}")),
                },
                Err(Error::Trap(Trap::CallStackOverflow | Trap::ValueStackOverflow)) => None,
                Err(e) => return Err(format!("{e}")),
            };
            let mut b = [0; 1];
            self.m.read_exact(store, 0, &mut b).map_err(|e| format!("{e}"))?;
            if b != [9] || self.m.len(store).map_err(|e| format!("{e}"))? != 1 {
                return Err(format!("memory changed: {b:?}"));
            }
            match self.g.get(store) {
                Ok(WasmValue::I32(k)) => Ok((r, k)),
                r => Err(format!("global: {r:?}")),
            }
        });
        r.unwrap_or_else(|p| Err(format!("panic: {p}")))
    }
    fn check(&self, store: &mut Store) -> Result<(), String> {
        for (n, r, k) in &self.first {
            match self.run(store, *n) {
                Ok(x) if x == (*r, *k) => {}
                x => return Err(format!("f({n}) gave {:?} with {k} activations before, now {x:?}", r)),
            }
        }
        Ok(())
    }
}

fn s01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 6) {
        return pingpong(s, cx);
    }
    let mut notes: Vec<String> = vec![];
    let mut key: Vec<u8> = vec![];
    let cap = *s.pick(&[0usize, 1, 65536, 70_000, 131_072, 1 << 20, 1 << 24]).max(&1);
    // the built-in backends allocate what the module asks for, so they get modest modules only
    let (backend, builtin) = match s.below(8) {
        0 => (MemoryBackend::vec(), true),
        1 => (MemoryBackend::paged(1 << s.below(18)), true),
        2 => (capped(cap, *s.pick(&[1usize, 2, 7, 100])), false),
        _ => (capped(cap, usize::MAX), false),
    };
    let mut cfg = Config::new().with_memory_backend(backend).with_trap_on_oom(s.bool());
    let mut tight = false;
    if s.bool() {
        cfg = cfg.with_call_stack(stack(s, 12));
        tight = true;
    }
    if s.bool() {
        let (a, b, c) = (stack(s, 60), stack(s, 40), stack(s, 20));
        cfg = cfg.with_value_stack_32(a).with_value_stack_64(b).with_value_stack_128(c);
        tight = true;
    }
    if s.bool() {
        cfg = cfg.with_fuel_policy(FuelPolicy::Weighted);
    }
    notes.push(format!("config {cfg:?}, memory cap {cap}"));
    let bad = |notes: &[String], sig: String, what: String| -> R { fail(sig, format!("{what}\n{}", notes.join("\n"))) };
    let mut store = Store::new(Engine::new(cfg));
    // the bystander
    let bm = Parser::new().parse_module_bytes(encode(&bystander())).expect("bystander");
    let r = guarded(|| -> Result<By, Error> {
        let i = ModuleInstance::instantiate(&mut store, &bm, None)?;
        Ok(By { f: i.func_untyped(&store, "f")?, g: i.global("g")?, m: i.memory("m")?, first: vec![] })
    });
    let mut by = match r {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return bad(&notes, "bystander rejected".into(), format!("{e}")),
        Err(p) => return bad(&notes, panic_sig(&p), p),
    };
    for n in [0, 2, s.range(3, 30) as i32] {
        match by.run(&mut store, n) {
            Ok((r, k)) => by.first.push((n, r, k)),
            Err(e) => return bad(&notes, "bystander fails".into(), e),
        }
    }
    // host items
    let mut ext: Vec<Extern> = vec![];
    let mut avail: Vec<Avail> = vec![];
    let mut add = |x: Extern, desc: AvDesc| {
        let a = ext.len();
        let e = match desc {
            AvDesc::Func(_) => Ext::Func(a),
            AvDesc::Tab(_) => Ext::Tab(a),
            AvDesc::Mem(_) => Ext::Mem(a),
            AvDesc::Glob(_) => Ext::Glob(a),
        };
        ext.push(x);
        avail.push(Avail { ext: e, desc });
    };
    let mut prof = any_prof(s);
    prof.imports = 6;
    prof.refs += 1;
    prof.table += 1;
    prof.start = 200;
    if s.chance(1, 3) {
        prof.max_mems = 3;
        prof.max_tabs = 3;
        prof.mem64 = 300;
        prof.t64 = 300;
        prof.custom_page = 300;
    }
    let (mut mem, mut tab, mut glob) = (None, None, None);
    for _ in 0..s.below(4) {
        let r = match s.below(3) {
            0 => {
                let t = modgen::mem_type(s, &prof);
                guarded(|| Memory::new(&mut store, memty(&t))).map(|r| {
                    if let Ok(m) = r {
                        mem = Some(m);
                        add(Extern::Memory(m), AvDesc::Mem(t))
                    }
                })
            }
            1 => {
                let t = modgen::tab_type(s, &prof);
                let i = any_value(s, t.el, &[]);
                guarded(|| Table::new(&mut store, tabty(&t), i)).map(|r| {
                    if let Ok(m) = r {
                        tab = Some(m);
                        add(Extern::Table(m), AvDesc::Tab(t))
                    }
                })
            }
            _ => {
                let t = GlobTy { t: modgen::vt(s, &prof), m: s.chance(3, 4) };
                let i = any_value(s, t.t, &[]);
                guarded(|| Global::new(&mut store, GlobalType::new(wt(t.t), t.m), i)).map(|r| {
                    if let Ok(m) = r {
                        glob = Some(m);
                        add(Extern::Global(m), AvDesc::Glob(t))
                    }
                })
            }
        };
        if let Err(p) = r {
            return bad(&notes, panic_sig(&p), format!("creating a host item: {p}"));
        }
    }
    for _ in 0..s.below(4) {
        let t = modgen::func_type(s, &prof);
        let w = wild(s, &t, mem, tab, glob, &by.f);
        let f = HostFunction::from_untyped(&mut store, &fty(&t), move |mut c: FuncContext<'_>, _: &[WasmValue]| run_wild(&mut c, &w));
        add(Extern::Function(f), AvDesc::Func(t));
    }
    // modules
    let mut insts: Vec<(ModuleInstance, Module)> = vec![];
    let mut refs: Vec<u32> = vec![];
    let mut ran = 0u64;
    for _ in 0..s.range(1, 3) {
        let mut made = modgen::module(s, &prof, &avail);
        let imports = made.imports.clone();
        let names: Vec<(String, String)> = made.m.imports.iter().map(|i| (i.module.clone(), i.name.clone())).collect();
        for _ in 0..s.below(4) {
            let keep = made.m.clone();
            if s.chance(1, 5) {
                dead(s, &mut made.m)
            } else {
                change(s, &mut made.m)
            }
            let big = made.m.mems.iter().any(|t| t.min.saturating_mul(t.page_size()) > 1 << 24);
            if builtin && big || validate(&encode(&made.m)).is_err() {
                made.m = keep;
            }
        }
        if builtin {
            for t in &mut made.m.mems {
                let most = ((1 << 24) / t.page_size()).max(t.min);
                t.max = Some(t.max.unwrap_or(most).min(most));
            }
        }
        let wasm = encode(&made.m);
        key.extend(&wasm);
        notes.push(format!("module {}\n{}", hex(&wasm), show_module(&made.m)));
        if validate(&wasm).is_err() {
            // clamped away
            continue;
        }
        let opt = ParserOptions::default()
            .with_validation(s.bool())
            .with_rewrite_optimization(!s.chance(1, 4))
            .with_local_memory_allocation_optimization(!s.chance(1, 4));
        let parsed = match guarded(|| Parser::with_options(opt).parse_module_bytes(&wasm)) {
            Err(p) => return bad(&notes, panic_sig(&p), format!("parsing: {p}")),
            Ok(Err(_)) => continue,
            Ok(Ok(m)) => m,
        };
        let mut im = Imports::new();
        for ((m, n), e) in names.iter().zip(&imports) {
            let (Ext::Func(a) | Ext::Tab(a) | Ext::Mem(a) | Ext::Glob(a)) = e;
            im.define(m, n, ext[*a].clone());
        }
        let inst = match guarded(|| ModuleInstance::instantiate_no_start(&mut store, &parsed, Some(im))) {
            Err(p) => return bad(&notes, panic_sig(&p), format!("instantiating: {p}")),
            Ok(Err(e)) => {
                notes.push(format!("not instantiated: {e}"));
                cx.label("instantiation failed");
                if let Err(e) = by.check(&mut store) {
                    return bad(&notes, "store damaged".into(), e);
                }
                continue;
            }
            Ok(Ok(i)) => i,
        };
        refs.extend(inst.exports().filter_map(|(n, _)| match inst.export_addr(n) {
            Some(tinywasm::types::ExternVal::Func(a)) => Some(a),
            _ => None,
        }));
        insts.push((inst, made.m.clone()));
        let inst = insts.last().unwrap().clone();
        // use it
        for step in 0..s.range(1, 8) {
            let inst = if s.chance(1, 5) { s.pick(&insts).clone() } else { inst.clone() };
            let r = if step == 0 && made.m.start.is_some() {
                notes.push("start".into());
                guarded(|| inst.0.start_func(&store)).map(|f| {
                    if let Ok(Some(f)) = f {
                        drive(s, &mut store, &f, &[], &mut notes, cx);
                        ran += 1;
                    }
                })
            } else if inst.1.exports.is_empty() {
                Ok(())
            } else {
                let e = s.pick(&inst.1.exports).clone();
                let t = (e.kind == Kind::Func).then(|| inst.1.func_ty(e.idx).p.clone()).unwrap_or_default();
                use_export(s, &mut store, &inst.0, &e.name, &t, &refs, &mut notes, &mut ran, cx)
            };
            if let Err(p) = r {
                return bad(&notes, panic_sig(&p), format!("crashed: {p}"));
            }
            if let Some(p) = notes.last().filter(|n| n.starts_with("panic: ")) {
                return bad(&notes, panic_sig(&p["panic: ".len()..]), p.clone());
            }
        }
        if let Err(e) = by.check(&mut store) {
            return bad(&notes, "store damaged".into(), format!("the bystander: {e}"));
        }
    }
    if tight {
        cx.label("tight stacks");
    }
    if ran >= 2 {
        cx.nontrivial(&key);
    }
    cx.sample(|| notes.join("\n"));
    Ok(())
}

/// Run under a budget; a panic ends up as the last note.
fn drive(s: &mut Src, store: &mut Store, f: &Function, args: &[WasmValue], notes: &mut Vec<String>, cx: &mut Cx) {
    let n = s.range(1, 6);
    let slices: Vec<u32> = (0..n).map(|_| *s.pick(&[0, 1, 127, 128, 1000, 5000, 20_000])).collect();
    let time = s.chance(1, 8);
    notes.push(format!("  budget {slices:?}{}", if time { " and time" } else { "" }));
    let r = guarded(|| -> Result<Option<Vec<WasmValue>>, Error> {
        let mut x = f.call_resumable(store, args)?;
        for k in &slices {
            let p = if time && k % 2 == 0 { x.resume_with_time_budget(Duration::from_nanos(*k as u64))? } else { x.resume_with_fuel(*k)? };
            if let ExecProgress::Completed(v) = p {
                return Ok(Some(v));
            }
        }
        Ok(None)
    });
    match r {
        Ok(Ok(Some(_))) => cx.label("call completed"),
        Ok(Ok(None)) => cx.label("call suspended and dropped"),
        Ok(Err(Error::Trap(t))) => cx.label(match t {
            Trap::CallStackOverflow => "call trapped: call stack",
            Trap::ValueStackOverflow => "call trapped: value stack",
            Trap::OutOfMemory => "call trapped: out of memory",
            Trap::HostFunction(_) => "call trapped: host function",
            Trap::InvalidStore => "call trapped: forged reference",
            _ => "call trapped: other",
        }),
        Ok(Err(_)) => cx.label("call failed"),
        Err(p) => notes.push(format!("panic: {p}")),
    }
}

#[allow(clippy::too_many_arguments)]
fn use_export(
    s: &mut Src,
    store: &mut Store,
    inst: &ModuleInstance,
    name: &str,
    t: &[VT],
    refs: &[u32],
    notes: &mut Vec<String>,
    ran: &mut u64,
    cx: &mut Cx,
) -> Result<(), String> {
    let item = guarded(|| inst.extern_item(name))?;
    let Ok(item) = item else { return Ok(()) };
    match item {
        ExternItem::Func(_) => {
            let Ok(f) = guarded(|| inst.func_untyped(store, name))? else { return Ok(()) };
            let mut args: Vec<WasmValue> = t.iter().map(|t| any_value(s, *t, refs)).collect();
            if s.chance(1, 10) {
                match s.below(3) {
                    0 => args.push(WasmValue::I32(0)),
                    1 => {
                        args.pop();
                    }
                    _ => {
                        if !args.is_empty() {
                            let k = s.usize(args.len());
                            let t = *s.pick(&ALLT);
                            args[k] = any_value(s, t, refs);
                        }
                    }
                }
            }
            notes.push(format!("call {name} {args:?}"));
            *ran += 1;
            drive(s, store, &f, &args, notes, cx);
        }
        ExternItem::Memory(m) => {
            let a = *s.pick(&[0usize, 1, 65535, 65536, usize::MAX, usize::MAX - 7, 1 << 32, (1 << 31) + 5]);
            let n = s.below(20) as usize;
            let d = *s.pick(&[0, 1, 3, -1, i64::MAX, i64::MIN, 65536]);
            notes.push(format!("memory {name}: access {n} bytes at {a:#x}, grow {d}"));
            guarded(|| {
                let mut b = vec![0; n];
                let _ = m.read(store, a, &mut b);
                let _ = m.read_exact(store, a, &mut b);
                let _ = m.write(store, a, &b);
                let _ = m.copy_from_slice(store, a, &b);
                let _ = m.fill(store, a, n, 7);
                let _ = m.copy_within(store, a, n, n);
                let _ = m.copy_within(store, n, a, n);
                let _ = m.read_vec(store, a, n);
                if d != 65536 || m.ty(store).is_ok_and(|t| t.max_size() <= 1 << 24) {
                    let _ = m.grow(store, d);
                }
            })?;
        }
        ExternItem::Table(t) => {
            let el = guarded(|| t.ty(store))?.map(|t| vt_of(t.element_type)).unwrap_or(VT::Func);
            let v = any_value(s, el, refs);
            let i = *s.pick(&[0u32, 1, 2, 9, u32::MAX, 0x8000_0000]);
            let d = *s.pick(&[0, 1, 3, -1, i32::MAX, i32::MIN]);
            notes.push(format!("table {name}: set {i} to {v:?}, grow {d}"));
            guarded(|| {
                let _ = t.get(store, i);
                let _ = t.set(store, i, v);
                let _ = t.grow(store, d, v);
                let _ = t.load(store, i as usize, 3).map(|i| i.count());
                let _ = t.load(store, 1, i as usize).map(|i| i.count());
            })?;
        }
        ExternItem::Global(g) => {
            let t = if s.chance(1, 8) { *s.pick(&ALLT) } else { guarded(|| g.ty(store))?.map(|t| vt_of(t.ty)).unwrap_or(VT::I32) };
            let v = any_value(s, t, refs);
            notes.push(format!("global {name}: set to {v:?}"));
            guarded(|| {
                let _ = g.set(store, v);
                let _ = g.get(store);
            })?;
        }
    }
    Ok(())
}

/// Guest and host calling each other without end: the configured call depth must stop them.
fn pingpong(s: &mut Src, cx: &mut Cx) -> R {
    let lim = s.range(0, if cx.thorough { 20 } else { 10 });
    let cfg = Config::new().with_call_stack(match s.below(3) {
        0 => StackConfig::fixed(lim as usize),
        1 => StackConfig::dynamic(s.below(lim + 1) as usize, lim as usize),
        _ => StackConfig::dynamic(0, lim as usize),
    });
    let mut m = Module::default();
    let extra: Vec<VT> = (0..s.below(3)).map(|_| *s.pick(&ALLT)).collect();
    let mut p = vec![VT::I32];
    p.extend(&extra);
    let t = FT { p: p.clone(), r: vec![VT::I32] };
    let ty = m.ty(t.clone());
    m.imports.push(Import { module: "h".into(), name: "h".into(), desc: Desc::Func(ty) });
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.tables.push((TabTy { t64: false, el: VT::Func, min: 1, max: None }, None));
    m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(0)] }, items: ElemItems::Funcs(vec![0]) });
    // guest frames between two host frames
    let inner = s.below(3);
    let kind = s.below(4);
    let args = |m: &mut Vec<In>| {
        for k in 0..p.len() as u32 {
            m.push(In::LGet(k));
        }
    };
    for i in 0..=inner {
        let mut b = vec![In::GGet(0), In::I32(1), In::Op(0x6a), In::GSet(0)];
        args(&mut b);
        if i < inner {
            b.extend([In::Call(i as u32 + 2), In::I32(1), In::Op(0x6a)]);
        } else {
            match kind {
                0 => b.extend([In::Call(0), In::I32(1), In::Op(0x6a)]),
                1 => b.extend([In::I32(0), In::CallInd { ty, tab: 0 }, In::I32(1), In::Op(0x6a)]),
                2 => b.push(In::RetCall(0)),
                _ => b.extend([In::I32(0), In::RetCallInd { ty, tab: 0 }]),
            }
        }
        m.funcs.push(Func { ty, locals: extra.clone(), body: b });
    }
    m.export("f", Kind::Func, 1);
    m.export("g", Kind::Glob, 0);
    let wasm = encode(&m);
    let shown = format!("call stack limit {lim}, {inner} inner calls, kind {kind}, {}", hex(&wasm));
    let parsed = match Parser::new().parse_module_bytes(&wasm) {
        Ok(m) => m,
        Err(e) => return fail("valid module rejected", format!("{e}\n{shown}")),
    };
    // depth now, deepest, total
    let d: Rc<RefCell<(u64, u64, u64)>> = Default::default();
    let target: Rc<RefCell<Option<Function>>> = Default::default();
    let mut store = Store::new(Engine::new(cfg));
    let ends = s.chance(1, 3).then(|| s.range(0, 14) as i32);
    let (d2, t2) = (d.clone(), target.clone());
    let swallow = s.chance(1, 3);
    let most = lim + 3;
    let h = HostFunction::from_untyped(&mut store, &fty(&t), move |mut c: FuncContext<'_>, a: &[WasmValue]| {
        let n = a[0].as_i32().unwrap_or(0);
        {
            let mut d = d2.borrow_mut();
            d.0 += 1;
            d.1 = d.1.max(d.0);
            d.2 += 1;
            if d.0 > most {
                // do not let a missing limit take the harness down
                d.0 -= 1;
                return Err(Error::Other("too deep".into()));
            }
        }
        let r = if ends.is_some_and(|e| n >= e) {
            Ok(vec![WasmValue::I32(0)])
        } else {
            let mut a = a.to_vec();
            a[0] = WasmValue::I32(n + 1);
            let f = t2.borrow().clone().unwrap();
            c.call_untyped(&f, &a)
        };
        d2.borrow_mut().0 -= 1;
        match r {
            Err(_) if swallow => Ok(vec![WasmValue::I32(1000)]),
            r => r,
        }
    });
    let mut im = Imports::new();
    im.define("h", "h", Extern::Function(h));
    let r = guarded(|| -> Result<_, Error> {
        let i = ModuleInstance::instantiate(&mut store, &parsed, Some(im))?;
        Ok((i.func_untyped(&store, "f")?, i.global("g")?))
    });
    let (f, g) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("valid module rejected", format!("{e}\n{shown}")),
        Err(p) => return fail(panic_sig(&p), format!("{p}\n{shown}")),
    };
    *target.borrow_mut() = Some(f.clone());
    let mut args = vec![WasmValue::I32(0)];
    args.extend(extra.iter().map(|t| any_value(s, *t, &[])));
    let mut outs: Vec<String> = vec![];
    for round in 0..3 {
        *d.borrow_mut() = (0, 0, 0);
        let r = guarded(|| {
            g.set(&mut store, WasmValue::I32(0))?;
            let budget = round == 1;
            if budget {
                let mut x = f.call_resumable(&mut store, &args)?;
                loop {
                    if let ExecProgress::Completed(v) = x.resume_with_fuel(50)? {
                        return Ok(v);
                    }
                }
            }
            f.call(&mut store, &args)
        });
        let r = match r {
            Err(p) => return fail(panic_sig(&p), format!("{p}\n{shown}")),
            Ok(Ok(v)) => match v[..] {
                [WasmValue::I32(x)] => format!("{x}"),
                _ => return fail("results", format!("{v:?}\n{shown}")),
            },
            Ok(Err(e)) => {
                let mut e = &e;
                while let Error::Trap(Trap::HostFunction(x)) = e {
                    match x.downcast_ref::<Error>() {
                        Some(x) => e = x,
                        None => break,
                    }
                }
                match e {
                    Error::Trap(Trap::CallStackOverflow) => "overflow".to_string(),
                    e => return fail("guest and host recursion", format!("ended with {e}, {:?}\n{shown}", d.borrow())),
                }
            }
        };
        let k = match g.get(&store) {
            Ok(WasmValue::I32(k)) => k,
            r => return fail("global", format!("{r:?}\n{shown}")),
        };
        let (now, deep, all) = *d.borrow();
        if deep > lim + 1 {
            return fail("call depth", format!("{deep} host calls nested although the call depth is limited to {lim}\n{shown}"));
        }
        if now != 0 {
            return fail("host calls not left", format!("{now}\n{shown}"));
        }
        outs.push(format!("{r}, {k} activations, {deep} host calls deep, {all} host calls"));
    }
    if outs.iter().any(|o| *o != outs[0]) {
        return fail("store damaged", format!("the same call gave {outs:?}\n{shown}"));
    }
    cx.label(if outs[0].starts_with("over") { "guest and host recursion: overflow" } else { "guest and host recursion: ended" });
    let mut k = wasm.clone();
    k.extend(lim.to_le_bytes());
    cx.nontrivial(&k);
    let _ = WasmType::I32;
    cx.sample(|| format!("{}\n{shown}", outs[0]));
    Ok(())
}
