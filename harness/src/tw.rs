//! Adapter: drives tinywasm alongside the reference model and compares every observable.

#[cfg(not(feature = "full"))]
use crate::compat::*;
use crate::enc;
use crate::ir::*;
use crate::model::{Ext, HAct, HV, HostBeh, Store as MStore, TRY, WHO, code};
use crate::num::Tr;
use crate::runner::guarded;
use crate::val::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::Config;
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExternRef, ExternVal, FuncRef, FuncType, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{
    Engine, Error, ExecProgress, Extern, ExternItem, FuncContext, Function, Global, HostFunction, Imports, LinearMemory, Memory, MemoryBackend,
    Module, ModuleInstance, Store, Table, Trap,
};

pub fn wt(t: VT) -> WasmType {
    match t {
        VT::I32 => WasmType::I32,
        VT::I64 => WasmType::I64,
        VT::F32 => WasmType::F32,
        VT::F64 => WasmType::F64,
        VT::V128 => WasmType::V128,
        VT::Func => WasmType::RefFunc,
        VT::Extern => WasmType::RefExtern,
    }
}
pub fn vt_of(t: WasmType) -> VT {
    match t {
        WasmType::I32 => VT::I32,
        WasmType::I64 => VT::I64,
        WasmType::F32 => VT::F32,
        WasmType::F64 => VT::F64,
        WasmType::V128 => VT::V128,
        WasmType::RefFunc => VT::Func,
        WasmType::RefExtern => VT::Extern,
    }
}
pub fn fty(t: &FT) -> FuncType {
    let p: Vec<WasmType> = t.p.iter().map(|x| wt(*x)).collect();
    let r: Vec<WasmType> = t.r.iter().map(|x| wt(*x)).collect();
    FuncType::new(&p, &r)
}
pub fn memty(t: &MemTy) -> MemoryType {
    MemoryType::new(if t.m64 { MemoryArch::I64 } else { MemoryArch::I32 }, t.min, t.max, t.page.map(|p| 1u64 << p))
}
pub fn tabty(t: &TabTy) -> TableType {
    if t.t64 { TableType::new64(wt(t.el), t.min, t.max) } else { TableType::new(wt(t.el), t.min, t.max) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Drive {
    Call,
    /// resume_with_fuel with these slices, cyclically
    Fuel(Vec<u32>),
    /// resume_with_time_budget(time_slice(..))
    Time,
    /// alternate fuel and time
    Mixed(Vec<u32>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    Bytes,
    Stream(usize),
    File,
    Archive,
}

#[derive(Clone)]
pub struct Variant {
    pub validate: bool,
    pub rewrite: bool,
    pub lazy: bool,
    pub threads: Option<usize>,
    pub route: Route,
    pub cfg: Config,
    pub drive: Drive,
    pub name: String,
    /// modules and engine in common with others
    pub share: Option<std::sync::Arc<Share>>,
}

pub struct Share {
    pub modules: std::sync::Mutex<HashMap<Vec<u8>, Module>>,
    pub engine: Engine,
}

impl Default for Variant {
    fn default() -> Self {
        Variant {
            validate: true,
            rewrite: true,
            lazy: true,
            threads: None,
            route: Route::Bytes,
            cfg: Config::new(),
            drive: Drive::Call,
            name: "default".into(),
            share: None,
        }
    }
}

/// The time budget of the `i`th slice: mostly the shortest, sometimes none, and one without end for long executions.
pub fn time_slice(i: usize) -> Duration {
    match i {
        60 | 61 => Duration::MAX,
        _ if i % 7 == 4 => Duration::ZERO,
        _ if i % 11 == 8 => Duration::from_micros(20),
        _ => Duration::from_nanos(1),
    }
}

/// Runs `f` on a file with these bytes.
pub fn in_file<T>(wasm: &[u8], f: impl FnOnce(&std::path::PathBuf) -> T) -> T {
    let p = std::env::temp_dir().join(format!("twv-{}-{:?}.wasm", std::process::id(), std::thread::current().id()));
    std::fs::write(&p, wasm).unwrap();
    let r = f(&p);
    let _ = std::fs::remove_file(&p);
    r
}

impl Variant {
    pub fn any(s: &mut crate::tape::Src) -> Variant {
        let (b, name) = some_backend(s);
        Variant { cfg: Config::new().with_memory_backend(b), name: name.into(), ..Variant::default() }
    }
    pub fn flat() -> Variant {
        Variant { cfg: Config::new().with_memory_backend(backend_flat()), name: "flat memory".into(), ..Variant::default() }
    }
    pub fn parser(&self) -> Parser {
        let mut o = ParserOptions::default()
            .with_validation(self.validate)
            .with_rewrite_optimization(self.rewrite)
            .with_local_memory_allocation_optimization(self.lazy);
        if let Some(t) = self.threads {
            o = o.with_parser_threads(t);
        }
        Parser::with_options(o)
    }
    pub fn load(&self, wasm: &[u8]) -> Result<Module, String> {
        if let Some(h) = &self.share {
            if let Some(m) = h.modules.lock().unwrap().get(wasm) {
                return Ok(m.clone());
            }
            let m = Variant { share: None, ..self.clone() }.load(wasm)?;
            h.modules.lock().unwrap().insert(wasm.to_vec(), m.clone());
            return Ok(m);
        }
        let p = self.parser();
        let r = guarded(|| match self.route {
            Route::Bytes => p.parse_module_bytes(wasm).map_err(|e| format!("{e:?}")),
            Route::Stream(n) => p.parse_module_stream(Dribble { b: wasm, n, again: false }).map_err(|e| format!("{e:?}")),
            Route::File => in_file(wasm, |f| p.parse_module_file(f).map_err(|e| format!("{e:?}"))),
            Route::Archive => {
                let m = p.parse_module_bytes(wasm).map_err(|e| format!("{e:?}"))?;
                let a = m.serialize_twasm().map_err(|e| format!("serialize: {e:?}"))?;
                Module::try_from_twasm(&a).map_err(|e| format!("deserialize: {e:?}"))
            }
        });
        match r {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        }
    }
}

/// A reader that hands out at most n bytes at a time.
/// A stream giving at most `n` bytes at a time; with an odd `n`, every other read is interrupted first.
pub struct Dribble<'a> {
    pub b: &'a [u8],
    pub n: usize,
    pub again: bool,
}
impl std::io::Read for Dribble<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.again = !self.again;
        if self.n % 2 == 1 && self.again {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let k = self.n.max(1).min(o.len()).min(self.b.len());
        o[..k].copy_from_slice(&self.b[..k]);
        self.b = &self.b[k..];
        Ok(k)
    }
}

/// Result of an operation on the real engine.
#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Trap(Tr),
    /// an error that is not a WebAssembly trap
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Trap(t) => Out::Trap(t),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        }
    }
    pub fn kind(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Trap(t) => format!("trap {t:?}"),
            Out::Err(e) => format!("error {e}"),
            Out::Panic(e) => format!("panic {e}"),
        }
    }
}

pub const HOST_TAG: &str = "twv-host-failure-";

pub fn trap_of(t: &Trap) -> Result<Tr, String> {
    Ok(match t {
        Trap::Unreachable => Tr::Unreachable,
        Trap::MemoryOutOfBounds { .. } => Tr::MemOob,
        Trap::TableOutOfBounds { .. } => Tr::TableOob,
        Trap::DivisionByZero => Tr::DivZero,
        Trap::InvalidConversionToInt => Tr::BadConv,
        Trap::IntegerOverflow => Tr::Overflow,
        Trap::CallStackOverflow | Trap::ValueStackOverflow => Tr::Stack,
        Trap::UndefinedElement { .. } => Tr::Undefined,
        Trap::UninitializedElement { .. } => Tr::Uninit,
        Trap::IndirectCallTypeMismatch { .. } => Tr::SigMismatch,
        Trap::HostFunction(e) => {
            if let Some(Error::InvalidHostFnReturn { .. }) = e.downcast_ref::<Error>() {
                return Ok(Tr::BadHost);
            }
            // a trap of a nested call that the host function passed on
            if let Some(Error::Trap(t)) = e.downcast_ref::<Error>() {
                return trap_of(t);
            }
            let s = e.to_string();
            if let Some(i) = s.find(HOST_TAG) {
                let d: String = s[i + HOST_TAG.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                Tr::Host(d.parse().unwrap_or(u32::MAX))
            } else {
                return Err(format!("trap: {t}"));
            }
        }
        t => return Err(format!("trap: {t}")),
    })
}

pub fn out_of<T>(r: Result<Result<T, Error>, String>) -> Out<T> {
    match r {
        Err(p) => Out::Panic(p),
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => match &e {
            Error::Trap(t) => match trap_of(t) {
                Ok(t) => Out::Trap(t),
                Err(s) => Out::Err(s),
            },
            Error::InvalidHostFnReturn { .. } => Out::Trap(Tr::BadHost),
            e => {
                let s = format!("{e}");
                if let Some(i) = s.find(HOST_TAG) {
                    let d: String = s[i + HOST_TAG.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    Out::Trap(Tr::Host(d.parse().unwrap_or(u32::MAX)))
                } else {
                    Out::Err(s)
                }
            }
        },
    }
}

/// Handles shared with host functions, indexed by model address.
#[derive(Default)]
pub struct Handles {
    pub funcs: Vec<Option<Function>>,
    pub tabs: Vec<Option<Table>>,
    pub mems: Vec<Option<Memory>>,
    pub globs: Vec<Option<Global>>,
    /// tinywasm function address -> model address + 1 (0: ambiguous)
    pub faddr: HashMap<u32, usize>,
    pub to_addr: HashMap<usize, u32>,
    /// parameter types of functions by model address
    pub ftys: HashMap<usize, Vec<VT>>,
    pub log: Vec<(u32, Vec<WasmValue>)>,
    /// which functions are host functions (model addresses)
    pub hosts: HashSet<usize>,
    /// the next host function is called by the host itself
    pub direct: bool,
    /// tinywasm instance id -> model instance
    pub inst_of: HashMap<u32, usize>,
    /// typed handles of functions whose type is in the table of `typed`
    pub typed: HashMap<usize, Rc<dyn crate::typed::TypedCall>>,
    pub flip: bool,
    /// unexpected things host functions saw
    pub oddities: Vec<String>,
}

impl Handles {
    pub fn to_wv(&self, t: VT, v: Val) -> WasmValue {
        match t {
            VT::I32 => WasmValue::I32(v.b as u32 as i32),
            VT::I64 => WasmValue::I64(v.b as u64 as i64),
            VT::F32 => WasmValue::F32(f32::from_bits(v.b as u32)),
            VT::F64 => WasmValue::F64(f64::from_bits(v.b as u64)),
            VT::V128 => WasmValue::V128(v.b.to_le_bytes()),
            VT::Func => WasmValue::RefFunc(if v.b == 0 {
                FuncRef::null()
            } else {
                FuncRef::new(Some(*self.to_addr.get(&(v.b as usize - 1)).expect("function reference without a handle")))
            }),
            VT::Extern => WasmValue::RefExtern(if v.b == 0 { ExternRef::null() } else { ExternRef::new(Some(v.b as u32 - 1)) }),
        }
    }
    /// Does an observed value agree with the model value of type `t`?
    pub fn agree(&self, t: VT, m: Val, g: &WasmValue) -> bool {
        match (t, g) {
            (VT::I32, WasmValue::I32(x)) => m.t == 0 && m.b == *x as u32 as u128,
            (VT::I64, WasmValue::I64(x)) => m.t == 0 && m.b == *x as u64 as u128,
            (VT::F32, WasmValue::F32(x)) => agrees(m, x.to_bits() as u128, 4),
            (VT::F64, WasmValue::F64(x)) => agrees(m, x.to_bits() as u128, 8),
            (VT::V128, WasmValue::V128(x)) => agrees(m, u128::from_le_bytes(*x), 16),
            (VT::Func, WasmValue::RefFunc(r)) => match r.addr() {
                None => m.b == 0,
                Some(a) => match self.faddr.get(&a) {
                    Some(f) => *f as u128 == m.b,
                    // a function without any export: only its non-nullness is comparable
                    None => m.b != 0 && !self.to_addr.contains_key(&(m.b as usize - 1)),
                },
            },
            (VT::Extern, WasmValue::RefExtern(r)) => match r.addr() {
                None => m.b == 0,
                Some(a) => m.b == a as u128 + 1,
            },
            _ => false,
        }
    }
    fn put<T>(v: &mut Vec<Option<T>>, i: usize, x: T) {
        while v.len() <= i {
            v.push(None);
        }
        if v[i].is_none() {
            v[i] = Some(x);
        }
    }
}

pub fn show(t: VT, v: Val) -> String {
    if v.t != 0 {
        return format!("{t:?} NaN[{:x}]", v.t);
    }
    match t {
        VT::I32 => format!("i32 {}", v.b as u32 as i32),
        VT::I64 => format!("i64 {}", v.b as u64 as i64),
        VT::F32 => format!("f32 {:?}/{:#x}", f32::from_bits(v.b as u32), v.b),
        VT::F64 => format!("f64 {:?}/{:#x}", f64::from_bits(v.b as u64), v.b),
        VT::V128 => format!("v128 {:#034x}", v.b),
        _ if v.b == 0 => format!("{t:?} null"),
        _ => format!("{t:?} #{}", v.b - 1),
    }
}
pub fn show_w(v: &WasmValue) -> String {
    match v {
        WasmValue::I32(x) => format!("i32 {x}"),
        WasmValue::I64(x) => format!("i64 {x}"),
        WasmValue::F32(x) => format!("f32 {x:?}/{:#x}", x.to_bits()),
        WasmValue::F64(x) => format!("f64 {x:?}/{:#x}", x.to_bits()),
        WasmValue::V128(x) => format!("v128 {:#034x}", u128::from_le_bytes(*x)),
        WasmValue::RefFunc(r) => r.addr().map_or("Func null".into(), |a| format!("Func @{a}")),
        WasmValue::RefExtern(r) => r.addr().map_or("Extern null".into(), |a| format!("Extern #{a}")),
    }
}

pub struct Tw {
    pub v: Variant,
    pub store: Store,
    pub h: Rc<RefCell<Handles>>,
    pub insts: Vec<Option<ModuleInstance>>,
    pub resumes: u64,
    pub suspends: u64,
    /// fuel given to slices that ended in a suspension
    pub spent: u64,
    pub max_resumes: u64,
    /// use typed host functions and handles where the table of `typed` has the type
    pub typed: bool,
}

impl Tw {
    pub fn new(v: Variant) -> Self {
        Tw {
            store: Store::new(v.share.as_ref().map_or_else(|| Engine::new(v.cfg.clone()), |h| h.engine.clone())),
            v,
            h: Default::default(),
            insts: vec![],
            resumes: 0,
            suspends: 0,
            spent: 0,
            max_resumes: 200_000,
            typed: false,
        }
    }

    /// Define the host function with model address `a`.
    pub fn add_host(&mut self, a: usize, ty: &FT, beh: &HostBeh) {
        let pair = if self.typed && beh.bad.is_none() { crate::typed::find(ty) } else { None };
        let f = match pair {
            Some(p) => (p.host)(&mut self.store, self.h.clone(), ty.clone(), beh.clone()),
            None => host_fn(&mut self.store, self.h.clone(), ty, beh),
        };
        let mut h = self.h.borrow_mut();
        h.hosts.insert(a);
        h.ftys.insert(a, ty.p.clone());
        Handles::put(&mut h.funcs, a, f);
    }
    pub fn add_mem(&mut self, a: usize, ty: &MemTy) -> Result<(), String> {
        let m = guarded(|| Memory::new(&mut self.store, memty(ty))).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("{e:?}"))?;
        Handles::put(&mut self.h.borrow_mut().mems, a, m);
        Ok(())
    }
    pub fn add_tab(&mut self, a: usize, ty: &TabTy, init: Val) -> Result<(), String> {
        let i = self.h.borrow().to_wv(ty.el, init);
        let t = guarded(|| Table::new(&mut self.store, tabty(ty), i)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("{e:?}"))?;
        Handles::put(&mut self.h.borrow_mut().tabs, a, t);
        Ok(())
    }
    pub fn add_glob(&mut self, a: usize, ty: &GlobTy, v: Val) -> Result<(), String> {
        let i = self.h.borrow().to_wv(ty.t, v);
        let g = guarded(|| Global::new(&mut self.store, GlobalType::new(wt(ty.t), ty.m), i))
            .map_err(|p| format!("panic: {p}"))?
            .map_err(|e| format!("{e:?}"))?;
        Handles::put(&mut self.h.borrow_mut().globs, a, g);
        Ok(())
    }

    pub fn extern_of(&self, e: Ext) -> Option<Extern> {
        let h = self.h.borrow();
        Some(match e {
            Ext::Func(a) => Extern::Function(h.funcs.get(a)?.clone()?),
            Ext::Tab(a) => Extern::Table(h.tabs.get(a)?.clone()?),
            Ext::Mem(a) => Extern::Memory(h.mems.get(a)?.clone()?),
            Ext::Glob(a) => Extern::Global(h.globs.get(a)?.clone()?),
        })
    }

    pub fn imports(&self, m: &crate::ir::Module, exts: &[Ext]) -> Imports {
        let mut i = Imports::new();
        for (im, e) in m.imports.iter().zip(exts) {
            i.define(&im.module, &im.name, self.extern_of(*e).expect("import without a handle"));
        }
        i
    }

    /// Instantiate without running the start function; `inst` is the model instance id.
    pub fn instantiate(&mut self, module: &Module, imports: Imports) -> Out<ModuleInstance> {
        out_of(guarded(|| ModuleInstance::instantiate_no_start(&mut self.store, module, Some(imports))))
    }

    /// Record the handles of a new instance under its model addresses.
    pub fn register(&mut self, ms: &MStore, mi: usize, ti: ModuleInstance) {
        while self.insts.len() <= mi {
            self.insts.push(None);
        }
        let inst = &ms.insts[mi];
        let mut h = self.h.borrow_mut();
        for e in &inst.module.exports {
            if e.kind == Kind::Func
                && let Some(ExternVal::Func(addr)) = ti.export_addr(&e.name)
            {
                let ma = inst.funcs[e.idx as usize];
                h.faddr.insert(addr, ma + 1);
                h.to_addr.insert(ma, addr);
            }
        }
        for (name, item) in ti.exports() {
            let Some(x) = ms.export(mi, name) else {
                continue;
            };
            match (x, item) {
                (Ext::Func(a), ExternItem::Func(f)) => Handles::put(&mut h.funcs, a, f),
                (Ext::Tab(a), ExternItem::Table(f)) => Handles::put(&mut h.tabs, a, f),
                (Ext::Mem(a), ExternItem::Memory(f)) => Handles::put(&mut h.mems, a, f),
                (Ext::Glob(a), ExternItem::Global(f)) => Handles::put(&mut h.globs, a, f),
                _ => {}
            }
        }
        for e in &inst.module.exports {
            // exported functions are only reachable with the store
            if e.kind == Kind::Func {
                let a = inst.funcs[e.idx as usize];
                h.ftys.insert(a, ms.funcs[a].ty.p.clone());
                if let Ok(Ok(f)) = guarded(|| ti.func_untyped(&self.store, &e.name)) {
                    Handles::put(&mut h.funcs, a, f);
                }
                if self.typed
                    && let Some(p) = crate::typed::find(&ms.funcs[a].ty)
                {
                    match guarded(|| (p.get)(&ti, &self.store, &e.name)) {
                        Ok(Ok(f)) => {
                            h.typed.insert(a, f);
                        }
                        r => h.oddities.push(format!("no typed handle for {:?}: {:?}", e.name, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
                    }
                }
            }
        }
        #[cfg(feature = "dbg")]
        for (i, a) in inst.mems.iter().enumerate() {
            if let Ok(m) = ti.memory_by_index(i as u32) {
                Handles::put(&mut h.mems, *a, m);
            }
        }
        #[cfg(feature = "dbg")]
        for (i, a) in inst.tabs.iter().enumerate() {
            if let Ok(m) = ti.table_by_index(i as u32) {
                Handles::put(&mut h.tabs, *a, m);
            }
        }
        #[cfg(feature = "dbg")]
        for (i, a) in inst.globs.iter().enumerate() {
            if let Ok(m) = ti.global_by_index(i as u32) {
                Handles::put(&mut h.globs, *a, m);
            }
        }
        h.inst_of.insert(ti.id(), mi);
        drop(h);
        self.insts[mi] = Some(ti);
    }

    pub fn has_func(&self, a: usize) -> bool {
        self.h.borrow().funcs.get(a).is_some_and(|f| f.is_some())
    }
    pub fn func(&self, a: usize) -> Function {
        self.h.borrow().funcs[a].clone().expect("no handle for function")
    }

    pub fn call(&mut self, a: usize, args: &[WasmValue]) -> Out<Vec<WasmValue>> {
        let f = self.func(a);
        let drive = self.v.drive.clone();
        self.mark(a);
        let typed = {
            let mut h = self.h.borrow_mut();
            h.flip = !h.flip;
            if h.flip { h.typed.get(&a).cloned() } else { None }
        };
        match typed {
            Some(f) => self.drive_typed(&*f, args, &drive),
            None => self.drive(&f, args, &drive),
        }
    }
    /// Function `a` is about to be called by the host.
    pub fn mark(&mut self, a: usize) {
        let mut h = self.h.borrow_mut();
        h.direct = h.hosts.contains(&a);
    }
    pub fn drive_typed(&mut self, f: &dyn crate::typed::TypedCall, args: &[WasmValue], drive: &Drive) -> Out<Vec<WasmValue>> {
        let (store, limit) = (&mut self.store, self.max_resumes);
        let mut n = (0, 0);
        let r = guarded(|| f.drive(store, args, drive, limit, &mut n));
        self.resumes += n.0;
        self.suspends += n.1;
        out_of(r)
    }

    pub fn drive(&mut self, f: &Function, args: &[WasmValue], drive: &Drive) -> Out<Vec<WasmValue>> {
        let store = &mut self.store;
        let (mut resumes, mut suspends, mut spent) = (0, 0, 0);
        let limit = self.max_resumes;
        let r = guarded(|| -> Result<Vec<WasmValue>, Error> {
            if *drive == Drive::Call {
                return f.call(store, args);
            }
            let mut x = f.call_resumable(store, args)?;
            loop {
                let i = resumes as usize;
                resumes += 1;
                let p = match drive {
                    Drive::Fuel(s) => x.resume_with_fuel(s[i % s.len()]),
                    Drive::Mixed(s) if i % 2 == 0 => x.resume_with_fuel(s[i % s.len()]),
                    Drive::Time | Drive::Mixed(_) => x.resume_with_time_budget(time_slice(i)),
                    Drive::Call => unreachable!(),
                };
                match ended(p, || (x.resume_with_fuel(1 << 20).is_err(), x.resume_with_time_budget(Duration::from_millis(50)).is_err()))? {
                    ExecProgress::Completed(v) => return Ok(v),
                    ExecProgress::Suspended => {
                        suspends += 1;
                        match drive {
                            Drive::Fuel(s) => spent += s[i % s.len()] as u64,
                            Drive::Mixed(s) if i % 2 == 0 => spent += s[i % s.len()] as u64,
                            _ => {}
                        }
                    }
                }
                if resumes > limit {
                    return Err(Error::Other("twv: too many resumes".into()));
                }
            }
        });
        self.resumes += resumes;
        self.suspends += suspends;
        self.spent += spent;
        out_of(r)
    }

    /// Resume with the given slices (None: a time budget of 1 ns), then drop the execution. None: still suspended.
    pub fn partial(&mut self, a: usize, args: &[WasmValue], slices: &[Option<u32>]) -> Option<Out<Vec<WasmValue>>> {
        let f = self.func(a);
        self.mark(a);
        let store = &mut self.store;
        let r = guarded(|| -> Result<Option<Vec<WasmValue>>, Error> {
            let mut x = f.call_resumable(store, args)?;
            for n in slices {
                let p = match n {
                    Some(n) => x.resume_with_fuel(*n),
                    None => x.resume_with_time_budget(Duration::from_nanos(1)),
                };
                let again = || (x.resume_with_fuel(1 << 20).is_err(), x.resume_with_time_budget(Duration::from_millis(50)).is_err());
                if let ExecProgress::Completed(v) = ended(p, again)? {
                    return Ok(Some(v));
                }
            }
            Ok(None)
        });
        match out_of(r) {
            Out::Ok(None) => None,
            Out::Ok(Some(v)) => Some(Out::Ok(v)),
            Out::Trap(t) => Some(Out::Trap(t)),
            Out::Err(t) => Some(Out::Err(t)),
            Out::Panic(t) => Some(Out::Panic(t)),
        }
    }

    /// Compare the observable state with the model; None when equal.
    pub fn compare(&self, ms: &MStore) -> Option<String> {
        match guarded(|| self.compare_inner(ms)) {
            Ok(r) => r,
            Err(p) => Some(format!("panic while reading the state: {p}")),
        }
    }

    fn compare_inner(&self, ms: &MStore) -> Option<String> {
        let h = self.h.borrow();
        if let Some(o) = h.oddities.first() {
            return Some(format!("host function: {o}"));
        }
        for (a, g) in h.globs.iter().enumerate() {
            let Some(g) = g else { continue };
            let m = &ms.globs[a];
            match g.get(&self.store) {
                Ok(v) if h.agree(m.ty.t, m.v, &v) => {}
                Ok(v) => {
                    return Some(format!("global {a}: expected {}, got {}", show(m.ty.t, m.v), show_w(&v)));
                }
                Err(e) => return Some(format!("global {a}: {e:?}")),
            }
        }
        for (a, t) in h.tabs.iter().enumerate() {
            let Some(t) = t else { continue };
            let m = &ms.tabs[a];
            let n = match t.size(&self.store) {
                Ok(n) => n,
                Err(e) => return Some(format!("table {a}: {e:?}")),
            };
            if n != m.el.len() {
                return Some(format!("table {a}: expected size {}, got {n}", m.el.len()));
            }
            match t.load(&self.store, 0, n) {
                Ok(it) => {
                    for (i, v) in it.enumerate() {
                        if !h.agree(m.ty.el, m.el[i], &v) {
                            return Some(format!("table {a}[{i}]: expected {}, got {}", show(m.ty.el, m.el[i]), show_w(&v)));
                        }
                    }
                }
                Err(e) => return Some(format!("table {a}: {e:?}")),
            }
        }
        for (a, x) in h.mems.iter().enumerate() {
            let Some(x) = x else { continue };
            let m = &ms.mems[a];
            if let Some(d) = cmp_mem(&self.store, x, m) {
                return Some(format!("memory {a}: {d}"));
            }
        }
        if h.log.len() != ms.log.len() {
            return Some(format!("host calls: expected {}, got {}", ms.log.len(), h.log.len()));
        }
        for (i, ((ia, aa), (ib, ab))) in ms.log.iter().zip(&h.log).enumerate() {
            if ia & WHO != 0 && ia == ib && !aa.is_empty() && !ab.is_empty() {
                // an instance whose instantiation trapped has no handle
                let (want, got) = (aa[0].i32() as usize, ab[0].as_i32().unwrap_or(-1) as u32);
                let known = self.insts.get(want).is_some_and(|x| x.is_some());
                if h.inst_of.get(&got).copied() != known.then_some(want) {
                    return Some(format!(
                        "host call {i}: expected a call from instance {want}, the context's module is {:?} (id {got})",
                        h.inst_of.get(&got)
                    ));
                }
                if aa.len() != ab.len() || aa.len() > 1 && !h.agree(VT::I32, aa[1], &ab[1]) {
                    return Some(format!("host call {i}: global gf of the caller: expected {:?}, got {:?}", aa.get(1), ab.get(1)));
                }
                continue;
            }
            if ia != ib || aa.len() != ab.len() {
                return Some(format!("host call {i}: expected function {ia} with {} arguments, got {ib} with {}", aa.len(), ab.len()));
            }
            for (m, g) in aa.iter().zip(ab) {
                let t = vt_of(WasmType::from(g));
                if !h.agree(t, *m, g) {
                    return Some(format!("host call {i} (function {ia}): expected argument {}, got {}", show(t, *m), show_w(g)));
                }
            }
        }
        None
    }
}

fn cmp_mem(store: &Store, x: &Memory, m: &crate::model::MemI) -> Option<String> {
    let len = match x.len(store) {
        Ok(l) => l as u64,
        Err(e) => return Some(format!("{e:?}")),
    };
    match x.page_count(store) {
        Ok(p) if p as u64 == m.pages => {}
        r => return Some(format!("expected {} pages, got {r:?}", m.pages)),
    }
    if len != m.len() {
        return Some(format!("expected {} bytes, got {len}", m.len()));
    }
    let step = 65536u64;
    let zero = [0u8; 65536];
    let mut buf = vec![0u8; step as usize];
    let mut o = 0;
    while o < len {
        let n = step.min(len - o) as usize;
        if let Err(e) = x.read_exact(store, o as usize, &mut buf[..n]) {
            return Some(format!("reading {n} bytes at {o}: {e:?}"));
        }
        let mut i = 0usize;
        while i < n {
            let a = o + i as u64;
            let k = (4096 - (a % 4096) as usize).min(n - i);
            let exp: &[u8] = match m.data.get(&(a / 4096)) {
                Some(d) => &d[(a % 4096) as usize..(a % 4096) as usize + k],
                None => &zero[..k],
            };
            if exp != &buf[i..i + k] {
                for j in 0..k {
                    if exp[j] != buf[i + j] {
                        let p = a + j as u64;
                        // inside an undetermined NaN?
                        if let Some((s, (w, code))) = m.nan.range(..=p).next_back()
                            && s + w > p
                        {
                            let mut raw = [0u8; 8];
                            let _ = x.read_exact(store, *s as usize, &mut raw[..*w as usize]);
                            let b = if *w == 4 { QNAN32 as u128 } else { QNAN64 as u128 };
                            if agrees(Val { b, t: *code }, u64::from_le_bytes(raw) as u128, *w as usize) {
                                continue;
                            }
                        }
                        return Some(format!("byte {p:#x}: expected {:#04x}, got {:#04x}", exp[j], buf[i + j]));
                    }
                }
            }
            i += k;
        }
        o += n as u64;
    }
    None
}

fn host_fn(store: &mut Store, h: Rc<RefCell<Handles>>, ty: &FT, beh: &HostBeh) -> Function {
    let (t, beh) = (ty.clone(), beh.clone());
    HostFunction::from_untyped(store, &fty(ty), move |mut ctx: FuncContext<'_>, args: &[WasmValue]| run_host(&mut ctx, args, &h, &t, &beh))
}

/// Write to a memory by instantiating a module that imports it and has an active data segment, while guest
/// code runs: everything the running code refers to has to stay where it is when the store grows.
fn late_module(ctx: &mut FuncContext<'_>, mem: &Memory, off: u64, bytes: &[u8]) -> Result<(), Error> {
    let ty = mem.ty(ctx.store())?;
    let m64 = ty.arch() == MemoryArch::I64;
    let page = if ty.page_size() == 65536 { None } else { Some(ty.page_size().trailing_zeros()) };
    let m = crate::ir::Module {
        types: vec![FT { p: vec![], r: vec![VT::I32] }],
        imports: vec![crate::ir::Import {
            module: "host".into(),
            name: "m".into(),
            desc: crate::ir::Desc::Mem(MemTy { m64, min: 0, max: None, page }),
        }],
        funcs: vec![crate::ir::Func { ty: 0, locals: vec![], body: vec![crate::ir::In::I32(77)] }],
        tables: vec![(crate::ir::TabTy { t64: false, el: VT::Func, min: 2, max: None }, None)],
        mems: vec![MemTy { m64: false, min: 0, max: Some(1), page: None }],
        globals: vec![(crate::ir::GlobTy { t: VT::I64, m: true }, vec![crate::ir::In::I64(0x7777_7777)])],
        elems: vec![crate::ir::Elem {
            mode: crate::ir::ElemMode::Active { tab: 0, off: vec![crate::ir::In::I32(1)] },
            items: crate::ir::ElemItems::Funcs(vec![0]),
        }],
        datas: vec![crate::ir::Data {
            active: Some((0, vec![if m64 { crate::ir::In::I64(off) } else { crate::ir::In::I32(off as u32) }])),
            bytes: bytes.to_vec(),
        }],
        ..Default::default()
    };
    let module = tinywasm::parse_bytes(&enc::encode(&m)).map_err(|e| Error::Other(format!("late module: {e:?}")))?;
    let mut imports = Imports::new();
    imports.define("host", "m", mem.clone());
    ModuleInstance::instantiate_no_start(ctx.store_mut(), &module, Some(imports)).map(|_| ())
}

fn odd(args: &[WasmValue], i: Option<usize>) -> bool {
    i.is_none_or(|i| args[i].as_i32().unwrap_or(0) & 1 == 1)
}

/// What a scripted host function does (the counterpart of `model::Store::host`).
pub fn run_host(ctx: &mut FuncContext<'_>, args: &[WasmValue], h: &Rc<RefCell<Handles>>, t: &FT, beh: &HostBeh) -> Result<Vec<WasmValue>, Error> {
    let direct;
    {
        let mut hm = h.borrow_mut();
        direct = std::mem::take(&mut hm.direct);
        hm.log.push((beh.id, args.to_vec()));
        if args.len() != t.p.len() || args.iter().zip(&t.p).any(|(a, p)| WasmType::from(a) != wt(*p)) {
            hm.oddities.push(format!("function {} of type {t:?} received {args:?}", beh.id));
        }
    }
    let mut res: Vec<WasmValue> = vec![];
    let ev = |v: &HV, res: &[WasmValue], vt: VT| -> WasmValue {
        match v {
            HV::Param(i) => args[*i],
            HV::Const(c) => h.borrow().to_wv(vt, *c),
            HV::Res(i) => res[*i],
        }
    };
    for a_ in &beh.acts {
        match a_ {
            HAct::GlobSet(g, v) => {
                let g = h.borrow().globs[*g].clone().expect("global handle");
                let vt = vt_of(g.ty(ctx)?.ty);
                let v = ev(v, &res, vt);
                g.set(ctx.store_mut(), v)?;
            }
            HAct::MemWrite(m, o, b) => {
                let m = h.borrow().mems[*m].clone().expect("memory handle");
                if b.len() % 3 == 0 {
                    late_module(ctx, &m, *o, b)?;
                } else {
                    m.copy_from_slice(ctx.store_mut(), *o as usize, b)?;
                }
            }
            HAct::MemGrow(m, n) => {
                let m = h.borrow().mems[*m].clone().expect("memory handle");
                m.grow(ctx.store_mut(), *n as i64)?;
            }
            HAct::TabSet(tb, i, v) => {
                let tb = h.borrow().tabs[*tb].clone().expect("table handle");
                let vt = vt_of(tb.ty(ctx)?.element_type);
                let v = ev(v, &res, vt);
                tb.set(ctx.store_mut(), *i as u32, v)?;
            }
            HAct::Call(f, a) | HAct::TryCall(f, a) => {
                let fun = h.borrow().funcs[*f].clone().expect("function handle");
                // constants in arguments are given the parameter types by the generator
                let tys = h.borrow().ftys.get(f).cloned().unwrap_or_default();
                let a: Vec<WasmValue> = a.iter().zip(&tys).map(|(v, t)| ev(v, &res, *t)).collect();
                let typed = {
                    let mut hm = h.borrow_mut();
                    hm.direct = hm.hosts.contains(f);
                    hm.flip = !hm.flip;
                    if hm.flip { hm.typed.get(f).cloned() } else { None }
                };
                let r = match typed {
                    Some(f) => f.nested(ctx, &a),
                    None => ctx.call_untyped(&fun, &a),
                };
                if let HAct::Call(..) = a_ {
                    res = r?;
                    continue;
                }
                let mut v = vec![WasmValue::I32(0)];
                match r {
                    Ok(r) => v.extend(r),
                    Err(e) => match out_of::<()>(Ok(Err(e))) {
                        // the reference model has no stack limits, so the exhaustion ends the whole call
                        Out::Trap(Tr::Stack) => return Err(Error::Trap(Trap::CallStackOverflow)),
                        Out::Trap(t) => v[0] = WasmValue::I32(code(t).i32() as i32),
                        o => {
                            v[0] = WasmValue::I32(-1);
                            h.borrow_mut().oddities.push(format!("nested call of function {f}: {}", o.kind()));
                        }
                    },
                }
                h.borrow_mut().log.push((beh.id | TRY, v));
            }
            HAct::Fail(c) => return Err(Error::Other(format!("{HOST_TAG}{c}"))),
            HAct::FailIfOdd(i, c) => {
                if odd(args, Some(*i)) {
                    return Err(Error::Other(format!("{HOST_TAG}{c}")));
                }
            }
            HAct::FailTrap(i) => {
                if odd(args, *i) {
                    return Err(Error::Trap(Trap::Unreachable));
                }
            }
            HAct::Reenter(f) => {
                let (fun, a) = {
                    let h = h.borrow();
                    let tys = h.ftys.get(f).cloned().unwrap_or_default();
                    (h.funcs[*f].clone().expect("function handle"), tys.iter().map(|t| h.to_wv(*t, i32v(0))).collect::<Vec<_>>())
                };
                let n = h.borrow().log.len();
                let r = fun.call(ctx.store_mut(), &a);
                let q = fun.call_resumable(ctx.store_mut(), &a).map(|_| ());
                let mut hm = h.borrow_mut();
                if r.is_ok() || q.is_ok() || hm.log.len() != n {
                    hm.oddities.push(format!("a plain call inside host function {} was accepted: {r:?} {q:?}", beh.id));
                }
            }
            HAct::Who => {
                if !direct {
                    let m = ctx.module();
                    let mut v = vec![WasmValue::I32(m.id() as i32)];
                    if let Ok(g) = ctx.global_get("gf") {
                        v.push(g);
                    }
                    h.borrow_mut().log.push((beh.id | WHO, v));
                }
            }
            HAct::Charge(n) => {
                let a = ctx.remaining_fuel();
                ctx.charge_fuel(*n);
                let b = ctx.remaining_fuel();
                if b != a.saturating_sub(*n) {
                    h.borrow_mut().oddities.push(format!("fuel {a}, charged {n}, left {b}"));
                }
            }
        }
    }
    let mut out: Vec<WasmValue> = beh.ret.iter().zip(&t.r).map(|(v, vt)| ev(v, &res, *vt)).collect();
    if let Some((k, i)) = beh.bad
        && odd(args, i)
    {
        let other = |v: &WasmValue| match v {
            WasmValue::I32(_) => WasmValue::I64(5),
            WasmValue::I64(_) => WasmValue::F64(5.0),
            WasmValue::F32(_) => WasmValue::I32(5),
            WasmValue::F64(_) => WasmValue::I64(5),
            WasmValue::V128(_) => WasmValue::I64(5),
            WasmValue::RefFunc(_) => WasmValue::RefExtern(ExternRef::null()),
            WasmValue::RefExtern(_) => WasmValue::RefFunc(FuncRef::null()),
        };
        match k % 4 {
            0 if !out.is_empty() => {
                out.pop();
            }
            1 if !out.is_empty() => {
                let l = out.len() - 1;
                out[l] = other(&out[l]);
            }
            2 if !out.is_empty() => out[0] = other(&out[0]),
            _ => out.push(WasmValue::I32(7)),
        }
    }
    Ok(out)
}

pub fn encode(m: &crate::ir::Module) -> Vec<u8> {
    enc::encode(m)
}

/// A plain byte-array memory living in the harness (compiled with optimisation, unlike the code under test,
/// so that most cases do not spend their time zeroing pages).
pub struct FlatMem(Vec<u8>);

impl FlatMem {
    pub fn new(len: usize) -> Result<FlatMem, Trap> {
        if len > 1 << 32 {
            return Err(Trap::OutOfMemory);
        }
        Ok(FlatMem(vec![0; len]))
    }
}

impl LinearMemory for FlatMem {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> {
        if n > 1 << 32 || n < self.0.len() {
            return Err(Trap::OutOfMemory);
        }
        self.0.resize(n, 0);
        Ok(())
    }
    fn read(&self, a: usize, d: &mut [u8]) -> usize {
        let n = self.0.len().saturating_sub(a).min(d.len());
        if n > 0 {
            d[..n].copy_from_slice(&self.0[a..a + n]);
        }
        n
    }
    fn write(&mut self, a: usize, d: &[u8]) -> usize {
        let n = self.0.len().saturating_sub(a).min(d.len());
        if n > 0 {
            self.0[a..a + n].copy_from_slice(&d[..n]);
        }
        n
    }
}

/// A custom memory that transfers at most `k` bytes at a time, as backends are allowed to.
pub struct ShortMem {
    b: Vec<u8>,
    k: usize,
}

impl LinearMemory for ShortMem {
    fn len(&self) -> usize {
        self.b.len()
    }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> {
        if n > 1 << 32 || n < self.b.len() {
            return Err(Trap::OutOfMemory);
        }
        self.b.resize(n, 0);
        Ok(())
    }
    fn read(&self, a: usize, d: &mut [u8]) -> usize {
        let n = self.b.len().saturating_sub(a).min(d.len()).min(self.k);
        if n > 0 {
            d[..n].copy_from_slice(&self.b[a..a + n]);
        }
        n
    }
    fn write(&mut self, a: usize, d: &[u8]) -> usize {
        let n = self.b.len().saturating_sub(a).min(d.len()).min(self.k);
        if n > 0 {
            self.b[a..a + n].copy_from_slice(&d[..n]);
        }
        n
    }
}

pub fn backend_short(k: usize) -> MemoryBackend {
    use tinywasm::types::MemoryType;
    MemoryBackend::custom(move |t: MemoryType| {
        let n = usize::try_from(t.initial_size()).unwrap_or(usize::MAX);
        if n > 1 << 32 { Err(Error::Trap(Trap::OutOfMemory)) } else { Ok(ShortMem { b: vec![0; n], k }) }
    })
}

pub fn backend_flat() -> MemoryBackend {
    use tinywasm::types::MemoryType;
    MemoryBackend::custom(|t: MemoryType| FlatMem::new(usize::try_from(t.initial_size()).unwrap_or(usize::MAX)).map_err(Error::Trap))
}

/// Mostly the flat harness memory, sometimes the built-in backends.
pub fn some_backend(s: &mut crate::tape::Src) -> (MemoryBackend, &'static str) {
    match s.below(8) {
        0..=5 => (backend_flat(), "flat memory"),
        6 => (MemoryBackend::vec(), "default"),
        _ => (MemoryBackend::paged(*s.pick(&[4096usize, 1024, 65536])), "paged memory"),
    }
}

pub fn show_func(t: &FuncType) -> String {
    let f = |l: &[WasmType]| l.iter().map(|x| format!("{:?}", vt_of(*x))).collect::<Vec<_>>().join(" ");
    format!("func [{}] -> [{}]", f(t.params()), f(t.results()))
}
pub fn show_table(t: &TableType) -> String {
    format!("table {:?} {} {:?}{}", vt_of(t.element_type), t.size_initial, t.size_max, if t.arch() == MemoryArch::I64 { " i64" } else { "" })
}
pub fn show_memory(t: &MemoryType) -> String {
    let w = if t.arch() == MemoryArch::I64 { " i64" } else { "" };
    format!("memory {} {} page {}{w}", t.page_count_initial(), t.page_count_max(), t.page_size())
}
pub fn show_global(t: &GlobalType) -> String {
    format!("global {:?}{}", vt_of(t.ty), if t.mutable { " mut" } else { "" })
}
/// What a module says about its imports and exports.
pub fn listing(m: &Module) -> (Vec<(String, String, String)>, Vec<(String, String)>) {
    use tinywasm::types::{ExportType as E, ImportType as I};
    let imp = m.imports().map(|i| {
        let t = match i.ty {
            I::Func(t) => show_func(t),
            I::Table(t) => show_table(t),
            I::Memory(t) => show_memory(t),
            I::Global(t) => show_global(t),
        };
        (i.module.to_string(), i.name.to_string(), t)
    });
    let exp = m.exports().map(|e| {
        let t = match e.ty {
            E::Func(t) => show_func(t),
            E::Table(t) => show_table(t),
            E::Memory(t) => show_memory(t),
            E::Global(t) => show_global(t),
        };
        (e.name.to_string(), t)
    });
    (imp.collect(), exp.collect())
}

/// The progress reported by a slice; once an execution has ended, with results or an error, it cannot go on.
pub fn ended<T>(p: Result<ExecProgress<T>, Error>, again: impl FnOnce() -> (bool, bool)) -> Result<ExecProgress<T>, Error> {
    if !matches!(p, Ok(ExecProgress::Suspended)) && again() != (true, true) {
        return Err(Error::Other("twv: an execution went on after it had ended".into()));
    }
    p
}
