//! Histories: host definitions, instantiations, calls and host-side accesses, run in lock step on the
//! reference model and on tinywasm, comparing every observable after each step.

use crate::ir::*;
use crate::model::{Counts, Ext, HAct, HV, HostBeh, Store as MStore};
use crate::modgen::{self, AvDesc, Avail, Prof};
use crate::num::{Er, Tr};
use crate::runner::{Cx, R, Stop, discard, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Out, Tw, Variant, show, show_w};
use crate::val::*;
use std::rc::Rc;
use tinywasm::ModuleInstance;
use tinywasm::types::WasmValue;

#[derive(Clone, Debug)]
pub struct Plan {
    pub prof: Prof,
    /// number of steps after the first module
    pub steps: (u64, u64),
    pub w_inst: u32,
    pub w_call: u32,
    pub w_mem: u32,
    pub w_tab: u32,
    pub w_glob: u32,
    /// create host items between steps
    pub w_item: u32,
    pub max_insts: usize,
    /// host functions / memories / tables / globals defined before the first module
    pub host_funcs: u64,
    pub host_items: u64,
    /// probability (per mille) that a host function fails
    pub host_fail: u32,
    /// host functions may call back into WebAssembly
    pub host_calls: bool,
    /// probability (per mille) of host functions that return wrong results, trap, re-enter, look at their
    /// caller or charge fuel
    pub host_odd: u32,
    /// use typed host functions and handles
    pub typed: bool,
    pub max_steps: u64,
    /// probability (per mille) of binding an import to something that may not match
    pub bad_import: u32,
    /// further changes to generated modules
    pub post: Option<fn(&mut Src, &mut modgen::Made)>,
    /// start and drop resumable executions now and then
    pub w_drop: u32,
    /// stack limits may end calls early
    pub tight: bool,
    /// use every entry point of the memory / table and global handles, in and out of range
    pub rich_mem: bool,
    pub rich_tab: bool,
    /// sometimes let instantiation run the start function itself
    pub auto_start: bool,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            prof: Prof::default(),
            steps: (2, 10),
            w_inst: 1,
            w_call: 10,
            w_mem: 1,
            w_tab: 1,
            w_glob: 1,
            w_item: 0,
            max_insts: 2,
            host_funcs: 2,
            host_items: 2,
            host_fail: 30,
            host_calls: false,
            host_odd: 0,
            typed: false,
            max_steps: 20_000,
            bad_import: 0,
            post: None,
            w_drop: 0,
            tight: false,
            rich_mem: false,
            rich_tab: false,
            auto_start: false,
        }
    }
}

#[derive(Clone)]
pub struct Loaded {
    pub m: Rc<Module>,
    pub wasm: Rc<Vec<u8>>,
    pub tm: tinywasm::Module,
    pub imports: Vec<Ext>,
    /// index of the recursion fuel global (u32::MAX: none)
    pub gf: u32,
}

pub struct World {
    pub ms: MStore,
    pub tw: Tw,
    pub plan: Plan,
    pub avail: Vec<Avail>,
    pub trace: Vec<String>,
    pub loaded: Vec<Loaded>,
    /// live instances: (model instance, index into `loaded`)
    pub live: Vec<(usize, usize)>,
    pub host_id: u32,
    pub completed: u64,
    pub trapped: u64,
    pub steps_done: u64,
    pub drops: u64,
    pub host_ops: u64,
    pub items: u64,
    /// instantiations that trapped, start functions run
    pub inst_traps: u64,
    pub starts: u64,
    pub exhausted: u64,
    pub prop: &'static str,
}

pub fn features() -> wasmparser::WasmFeatures {
    use wasmparser::WasmFeatures as F;
    F::CALL_INDIRECT_OVERLONG
        | F::BULK_MEMORY_OPT
        | F::RELAXED_SIMD
        | F::GC_TYPES
        | F::REFERENCE_TYPES
        | F::MUTABLE_GLOBAL
        | F::MULTI_VALUE
        | F::FLOATS
        | F::BULK_MEMORY
        | F::SATURATING_FLOAT_TO_INT
        | F::SIGN_EXTENSION
        | F::EXTENDED_CONST
        | F::FUNCTION_REFERENCES
        | F::TAIL_CALL
        | F::MULTI_MEMORY
        | F::SIMD
        | F::MEMORY64
        | F::CUSTOM_PAGE_SIZES
        | F::WIDE_ARITHMETIC
}
pub fn validate(wasm: &[u8]) -> Result<(), String> {
    wasmparser::Validator::new_with_features(features()).validate_all(wasm).map(|_| ()).map_err(|e| e.to_string())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn show_module(m: &Module) -> String {
    let mut s = String::new();
    for (i, t) in m.types.iter().enumerate() {
        s += &format!("  type {i}: {:?} -> {:?}\n", t.p, t.r);
    }
    for i in &m.imports {
        s += &format!("  import {}.{}: {:?}\n", i.module, i.name, i.desc);
    }
    for t in &m.tables {
        s += &format!("  table {:?} init {:?}\n", t.0, t.1);
    }
    for t in &m.mems {
        s += &format!("  memory {t:?}\n");
    }
    for g in &m.globals {
        s += &format!("  global {:?} = {:?}\n", g.0, g.1);
    }
    for e in &m.elems {
        s += &format!("  elem {e:?}\n");
    }
    for d in &m.datas {
        s += &format!("  data {d:?}\n");
    }
    if let Some(x) = m.start {
        s += &format!("  start {x}\n");
    }
    for (i, f) in m.funcs.iter().enumerate() {
        s += &format!("  func {} (type {}) locals {:?}\n", m.n_imp(Kind::Func) + i as u32, f.ty, f.locals);
        show_body(&mut s, &f.body, 2);
    }
    s
}
fn show_body(s: &mut String, b: &[In], d: usize) {
    let pad = "  ".repeat(d);
    for i in b {
        match i {
            In::Block(t, b) => {
                *s += &format!("{pad}block {t:?}\n");
                show_body(s, b, d + 1);
            }
            In::Loop(t, b) => {
                *s += &format!("{pad}loop {t:?}\n");
                show_body(s, b, d + 1);
            }
            In::If(t, a, b) => {
                *s += &format!("{pad}if {t:?}\n");
                show_body(s, a, d + 1);
                if let Some(b) = b {
                    *s += &format!("{pad}else\n");
                    show_body(s, b, d + 1);
                }
            }
            In::Op(o) => *s += &format!("{pad}op {o:#04x}\n"),
            In::Simd(o) => *s += &format!("{pad}simd {o:#x}\n"),
            i => *s += &format!("{pad}{i:?}\n"),
        }
    }
}

impl World {
    pub fn new(prop: &'static str, plan: Plan, v: Variant) -> World {
        let mut ms = MStore::new();
        ms.max_steps = plan.max_steps;
        let mut tw = Tw::new(v);
        tw.typed = plan.typed;
        World {
            ms,
            tw,
            plan,
            avail: vec![],
            trace: vec![],
            loaded: vec![],
            live: vec![],
            host_id: 0,
            completed: 0,
            trapped: 0,
            steps_done: 0,
            drops: 0,
            host_ops: 0,
            items: 0,
            inst_traps: 0,
            starts: 0,
            exhausted: 0,
            prop,
        }
    }

    /// A violation: attach the whole history.
    pub fn bad<T>(&self, sig: impl Into<String>, what: impl Into<String>) -> R<T> {
        let mut d = what.into();
        d += &format!("\nvariant: {}\nhistory:\n", self.tw.v.name);
        for t in &self.trace {
            d += &format!("  {t}\n");
        }
        for (i, l) in self.loaded.iter().enumerate() {
            d += &format!("module {i} ({} bytes): {}\n{}", l.wasm.len(), hex(&l.wasm), show_module(&l.m));
        }
        fail(sig, d)
    }

    pub fn note(&mut self, s: String) {
        self.trace.push(s);
    }

    pub fn setup(&mut self, s: &mut Src) -> R {
        let n = s.below(self.plan.host_funcs + 1);
        for _ in 0..n {
            self.add_host(s);
        }
        let n = s.below(self.plan.host_items + 1);
        for _ in 0..n {
            self.add_item(s)?;
        }
        Ok(())
    }

    pub fn add_item(&mut self, s: &mut Src) -> R {
        let p = self.plan.prof.clone();
        match s.below(3) {
            0 if p.mem + p.bulk > 0 => {
                let t = modgen::mem_type(s, &p);
                let a = self.ms.add_mem(t);
                self.note(format!("host memory {a}: {t:?}"));
                if let Err(e) = self.tw.add_mem(a, &t) {
                    return self.bad("host memory creation", format!("Memory::new({t:?}) failed: {e}"));
                }
                self.avail.push(Avail { ext: Ext::Mem(a), desc: AvDesc::Mem(t) });
            }
            1 if p.table + p.indirect > 0 => {
                let t = modgen::tab_type(s, &p);
                let i = modgen::value(s, t.el);
                let a = self.ms.add_tab(t, i);
                self.note(format!("host table {a}: {t:?} filled with {}", show(t.el, i)));
                if let Err(e) = self.tw.add_tab(a, &t, i) {
                    return self.bad("host table creation", format!("Table::new({t:?}) failed: {e}"));
                }
                self.avail.push(Avail { ext: Ext::Tab(a), desc: AvDesc::Tab(t) });
            }
            _ => {
                let t = GlobTy { t: modgen::vt(s, &p), m: s.bool() };
                let v = modgen::value(s, t.t);
                let a = self.ms.add_glob(t, v);
                self.note(format!("host global {a}: {t:?} = {}", show(t.t, v)));
                if let Err(e) = self.tw.add_glob(a, &t, v) {
                    return self.bad("host global creation", format!("Global::new({t:?}) failed: {e}"));
                }
                self.avail.push(Avail { ext: Ext::Glob(a), desc: AvDesc::Glob(t) });
            }
        }
        Ok(())
    }

    pub fn host_beh(&mut self, s: &mut Src, t: &FT) -> HostBeh {
        let id = self.host_id;
        self.host_id += 1;
        let mut b = HostBeh { id, ..Default::default() };
        let pick_src = |s: &mut Src, want: VT| -> HV {
            let c: Vec<usize> = t.p.iter().enumerate().filter(|x| *x.1 == want).map(|x| x.0).collect();
            if !c.is_empty() && s.chance(2, 3) { HV::Param(*s.pick(&c)) } else { HV::Const(modgen::value(s, want)) }
        };
        let mut last: Vec<VT> = vec![];
        for _ in 0..s.below(3) {
            match s.below(6) {
                0 => {
                    let c: Vec<usize> = self
                        .avail
                        .iter()
                        .filter_map(|a| if let (Ext::Glob(g), AvDesc::Glob(t)) = (a.ext, &a.desc) { t.m.then_some(g) } else { None })
                        .collect();
                    if !c.is_empty() {
                        let g = *s.pick(&c);
                        let v = pick_src(s, self.ms.globs[g].ty.t);
                        b.acts.push(HAct::GlobSet(g, v));
                    }
                }
                1 => {
                    let c: Vec<usize> = self.avail.iter().filter_map(|a| if let Ext::Mem(g) = a.ext { Some(g) } else { None }).collect();
                    if !c.is_empty() {
                        let m = *s.pick(&c);
                        let len = self.ms.mems[m].ty.min * self.ms.mems[m].ty.page_size();
                        if len >= 8 {
                            let n = 1 + s.below(8);
                            let o = s.below(len - n + 1).min(64);
                            b.acts.push(HAct::MemWrite(m, o, (0..n).map(|_| s.u32() as u8).collect()));
                        }
                    }
                }
                2 => {
                    let c: Vec<usize> = self.avail.iter().filter_map(|a| if let Ext::Tab(g) = a.ext { Some(g) } else { None }).collect();
                    if !c.is_empty() {
                        let x = *s.pick(&c);
                        let n = self.ms.tabs[x].ty.min;
                        if n > 0 {
                            let i = s.below(n);
                            let v = pick_src(s, self.ms.tabs[x].ty.el);
                            b.acts.push(HAct::TabSet(x, i, v));
                        }
                    }
                }
                3 if s.chance(self.plan.host_fail as u64, 1000) => {
                    let c = id * 10 + 1;
                    match t.p.iter().position(|x| *x == VT::I32) {
                        Some(i) => b.acts.push(HAct::FailIfOdd(i, c)),
                        None => b.acts.push(HAct::Fail(c)),
                    }
                }
                4 if self.plan.host_calls => {
                    let c: Vec<usize> = self.avail.iter().filter_map(|a| if let Ext::Func(g) = a.ext { Some(g) } else { None }).collect();
                    if !c.is_empty() {
                        let f = *s.pick(&c);
                        let ft = self.ms.funcs[f].ty.clone();
                        let args = ft.p.iter().map(|p| pick_src(s, *p)).collect();
                        if s.chance(1, 3) {
                            b.acts.push(HAct::TryCall(f, args));
                        } else {
                            b.acts.push(HAct::Call(f, args));
                            last = ft.r.clone();
                        }
                    }
                }
                5 => {
                    let c: Vec<usize> = self.avail.iter().filter_map(|a| if let Ext::Mem(g) = a.ext { Some(g) } else { None }).collect();
                    if !c.is_empty() {
                        b.acts.push(HAct::MemGrow(*s.pick(&c), s.below(2)));
                    }
                }
                _ => {}
            }
        }
        if self.plan.host_odd > 0 {
            let p: Vec<usize> = t.p.iter().enumerate().filter(|x| *x.1 == VT::I32).map(|x| x.0).collect();
            let cond = |s: &mut Src| if p.is_empty() { None } else { Some(*s.pick(&p)) };
            let n = self.plan.host_odd as u64;
            if s.chance(n, 1000) {
                let c = cond(s);
                b.acts.push(HAct::FailTrap(c));
            }
            if s.chance(n, 1000) {
                let c = cond(s);
                b.bad = Some((s.below(4) as u8, c));
            }
            if s.chance(n, 1000) {
                let c: Vec<usize> = self.avail.iter().filter_map(|a| if let Ext::Func(g) = a.ext { Some(g) } else { None }).collect();
                if !c.is_empty() {
                    let at = s.usize(b.acts.len() + 1);
                    let f = *s.pick(&c);
                    b.acts.insert(at, HAct::Reenter(f));
                }
            }
            if s.chance(4 * n, 1000 + 4 * n) {
                let at = s.usize(b.acts.len() + 1);
                b.acts.insert(at, HAct::Who);
            }
            if s.chance(n, 1000) {
                b.acts.push(HAct::Charge(*s.pick(&[0, 1, 100, 1000, u32::MAX])));
            }
        }
        for r in &t.r {
            let c: Vec<usize> = last.iter().enumerate().filter(|x| x.1 == r).map(|x| x.0).collect();
            let v = if !c.is_empty() && s.bool() { HV::Res(*s.pick(&c)) } else { pick_src(s, *r) };
            b.ret.push(v);
        }
        b
    }

    pub fn add_host(&mut self, s: &mut Src) -> usize {
        let t = modgen::func_type(s, &self.plan.prof);
        let b = self.host_beh(s, &t);
        self.add_host_of(t, b)
    }
    pub fn add_host_of(&mut self, t: FT, b: HostBeh) -> usize {
        let a = self.ms.add_host(t.clone(), b.clone());
        self.note(format!("host function {a}: {:?} -> {:?} does {b:?}", t.p, t.r));
        self.tw.add_host(a, &t, &b);
        self.avail.push(Avail { ext: Ext::Func(a), desc: AvDesc::Func(t) });
        a
    }

    /// Generate, load and instantiate one module (imports always match).
    pub fn gen_inst(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        self.refresh_avail();
        let mut made = modgen::module(s, &self.plan.prof, &self.avail);
        if let Some(f) = self.plan.post {
            f(s, &mut made);
        }
        self.inst(cx, made.m, made.imports, made.gf)
    }

    /// Current sizes become the minimum offered to importers.
    pub fn refresh_avail(&mut self) {
        for a in &mut self.avail {
            match (&mut a.desc, a.ext) {
                (AvDesc::Mem(t), Ext::Mem(m)) => t.min = self.ms.mems[m].pages,
                (AvDesc::Tab(t), Ext::Tab(x)) => t.min = self.ms.tabs[x].el.len() as u64,
                _ => {}
            }
        }
    }

    pub fn load(&mut self, m: Module, imports: Vec<Ext>, gf: u32) -> R<usize> {
        let wasm = crate::tw::encode(&m);
        if (!self.tw.v.validate || std::env::var_os("TWV_VALIDATE").is_some())
            && let Err(e) = validate(&wasm)
        {
            panic!("generator produced an invalid module: {e}\n{}\n{}", hex(&wasm), show_module(&m));
        }
        let r = self.tw.v.load(&wasm);
        match r {
            Ok(tm) => {
                self.loaded.push(Loaded { m: Rc::new(m), wasm: Rc::new(wasm), tm, imports, gf });
                Ok(self.loaded.len() - 1)
            }
            Err(e) => {
                if let Err(v) = validate(&wasm) {
                    panic!("generator produced an invalid module: {v}\n{}\n{}", hex(&wasm), show_module(&m));
                }
                let sig = if e.starts_with("panic") { panic_sig(&e) } else { "valid module rejected".into() };
                self.bad(sig, format!("valid module rejected: {e}\n{}\n{}", hex(&wasm), show_module(&m)))
            }
        }
    }

    pub fn inst(&mut self, cx: &mut Cx, m: Module, imports: Vec<Ext>, gf: u32) -> R {
        let auto = self.plan.auto_start && m.start.is_some() && self.loaded.len() % 2 == 1;
        let li = self.load(m, imports, gf)?;
        if auto { self.instantiate_and_start(cx, li) } else { self.instantiate(cx, li) }
    }

    /// Instantiate and run the start function in one go.
    fn instantiate_and_start(&mut self, cx: &mut Cx, li: usize) -> R {
        let l = self.loaded[li].clone();
        self.note(format!("instantiate module {li} with {:?} and run its start function", l.imports));
        let imports = self.tw.imports(&l.m, &l.imports);
        let mr = match self.ms.instantiate(l.m.clone(), &l.imports) {
            Err(Er::Stop(s)) => return Err(s),
            Err(Er::Trap(t)) => Err(t),
            Ok(i) => match {
                self.starts += 1;
                self.ms.start(i)
            } {
                Err(Er::Stop(s)) => return Err(s),
                Err(Er::Trap(t)) => {
                    cx.label("start functions that trap");
                    Err(t)
                }
                Ok(()) => Ok(i),
            },
        };
        self.tw.h.borrow_mut().direct = start_is_host(&self.ms, &l);
        let tr = crate::tw::out_of(guarded(|| ModuleInstance::instantiate(&mut self.tw.store, &l.tm, Some(imports))));
        match (mr, tr) {
            (Ok(i), Out::Ok(ti)) => {
                self.tw.register(&self.ms, i, ti);
                self.live.push((i, li));
                self.publish(i);
            }
            (Err(t), Out::Trap(u)) if t == u => {
                cx.label("instantiation traps");
                self.inst_traps += 1;
                self.trapped += 1;
            }
            (m, t) => {
                let t = t.map(|_| ());
                let sig = if let Out::Panic(p) = &t { panic_sig(p) } else { "instantiation outcome".into() };
                return self.bad(sig, format!("instantiation of module {li}: expected {m:?}, got {}", t.kind()));
            }
        }
        self.check("after instantiation and start")
    }

    pub fn instantiate(&mut self, cx: &mut Cx, li: usize) -> R {
        let l = self.loaded[li].clone();
        self.note(format!("instantiate module {li} with {:?}", l.imports));
        let imports = self.tw.imports(&l.m, &l.imports);
        let mr = match self.ms.instantiate(l.m.clone(), &l.imports) {
            Err(Er::Stop(s)) => return Err(s),
            Err(Er::Trap(t)) => Err(t),
            Ok(i) => Ok(i),
        };
        let tr = self.tw.instantiate(&l.tm, imports);
        let mi = self.ms.insts.len() - 1;
        match (mr, tr) {
            (Ok(i), Out::Ok(ti)) => {
                self.tw.register(&self.ms, i, ti);
                self.live.push((i, li));
                self.publish(i);
            }
            (Err(t), Out::Trap(u)) if t == u => {
                cx.label("instantiation traps");
                self.inst_traps += 1;
                self.trapped += 1;
            }
            (m, t) => {
                let t = t.map(|_| ());
                let sig = if let Out::Panic(p) = &t { panic_sig(p) } else { "instantiation outcome".into() };
                return self.bad(sig, format!("instantiation of module {li}: expected {m:?}, got {}", t.kind()));
            }
        }
        self.check("after instantiation")?;
        if self.live.last().map(|x| x.0) == Some(mi) && l.m.start.is_some() {
            self.set_gf(mi, li, 4)?;
            self.note("run the start function".into());
            self.starts += 1;
            let before = self.plan.tight.then(|| self.ms.clone());
            let m = match self.ms.start(mi) {
                Err(Er::Stop(s)) => return Err(s),
                Err(Er::Trap(t)) => Err(t),
                Ok(()) => Ok(()),
            };
            let sa = self.ms.insts[mi].funcs[l.m.start.unwrap() as usize];
            self.tw.mark(sa);
            let sf = guarded(|| self.tw.insts[mi].as_ref().unwrap().start_func(&self.tw.store));
            let g = match sf {
                Ok(Ok(Some(f))) => {
                    let d = self.tw.v.drive.clone();
                    self.tw.drive(&f, &[], &d)
                }
                Ok(Ok(None)) => Out::Err("no start function reported".into()),
                Ok(Err(e)) => Out::Err(format!("{e:?}")),
                Err(p) => Out::Panic(p),
            };
            if let (Some(before), Out::Trap(Tr::Stack)) = (&before, &g) {
                self.exhausted += 1;
                let a = self.ms.insts[mi].funcs[l.m.start.unwrap() as usize];
                return self.resync(before, a, &[], "after stack exhaustion");
            }
            match (m, g) {
                (Ok(()), Out::Ok(r)) if r.is_empty() => {}
                (Err(a), Out::Trap(b)) if a == b => self.trapped += 1,
                (m, g) => {
                    let sig = if let Out::Panic(p) = &g { panic_sig(p) } else { "start function outcome".into() };
                    return self.bad(sig, format!("start function: expected {m:?}, got {}", g.kind()));
                }
            }
            self.check("after the start function")?;
        }
        Ok(())
    }

    /// Make the exports of an instance importable.
    pub fn publish(&mut self, i: usize) {
        let inst = &self.ms.insts[i];
        let m = inst.module.clone();
        let mut add = vec![];
        for e in &m.exports {
            if e.name == "gf" {
                continue;
            }
            let x = self.ms.ext_of(i, e.kind, e.idx);
            if self.avail.iter().any(|a| a.ext == x) {
                continue;
            }
            let desc = match x {
                Ext::Func(a) => AvDesc::Func(self.ms.funcs[a].ty.clone()),
                Ext::Tab(a) => AvDesc::Tab(self.ms.tabs[a].ty),
                Ext::Mem(a) => AvDesc::Mem(self.ms.mems[a].ty),
                Ext::Glob(a) => AvDesc::Glob(self.ms.globs[a].ty),
            };
            add.push(Avail { ext: x, desc });
        }
        self.avail.extend(add);
    }

    pub fn check(&mut self, when: &str) -> R {
        self.steps_done += 1;
        if let Some(d) = self.tw.compare(&self.ms) {
            let sig = match d.split_once("panic while reading the state: ") {
                Some((_, p)) => panic_sig(p),
                None => format!("state: {}", d.split([' ', ':']).next().unwrap_or("")),
            };
            return self.bad(sig, format!("{when}: {d}"));
        }
        Ok(())
    }

    /// Reset the recursion fuel of an instance on both sides.
    pub fn set_gf(&mut self, mi: usize, li: usize, v: u32) -> R {
        if self.loaded[li].gf == u32::MAX {
            return Ok(());
        }
        let g = self.ms.insts[mi].globs[self.loaded[li].gf as usize];
        self.ms.globs[g].v = i32v(v);
        let h = self.tw.h.borrow().globs[g].clone();
        if let Some(h) = h {
            match guarded(|| h.set(&mut self.tw.store, WasmValue::I32(v as i32))) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    return self.bad("global set", format!("setting global {g} failed: {e:?}"));
                }
                Err(p) => return self.bad(panic_sig(&p), p),
            }
        }
        Ok(())
    }

    pub fn arg(&self, s: &mut Src, t: VT) -> Val {
        if t == VT::Func && s.chance(2, 3) {
            let h = self.tw.h.borrow();
            let mut c: Vec<usize> = h.to_addr.keys().copied().collect();
            c.sort_unstable();
            if !c.is_empty() {
                return i64v(*s.pick(&c) as u64 + 1);
            }
        }
        modgen::value(s, t)
    }

    pub fn gen_call(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let Some(&(mi, li)) = (if self.live.is_empty() { None } else { Some(s.pick(&self.live)) }) else {
            return Ok(());
        };
        let m = self.loaded[li].m.clone();
        let nf = m.n_funcs();
        if nf == 0 {
            return Ok(());
        }
        let fimp = m.n_imp(Kind::Func);
        let f = if s.chance(1, 10) || fimp == nf { s.below(nf as u64) as u32 } else { s.range(fimp as u64, nf as u64 - 1) as u32 };
        self.set_gf(mi, li, 3)?;
        let a = self.ms.insts[mi].funcs[f as usize];
        if !self.tw.has_func(a) {
            return Ok(());
        }
        let ty = self.ms.funcs[a].ty.clone();
        let args: Vec<Val> = ty.p.iter().map(|t| self.arg(s, *t)).collect();
        self.note(format!("call i{mi}.f{f} ({})", args.iter().zip(&ty.p).map(|(v, t)| show(*t, *v)).collect::<Vec<_>>().join(", ")));
        self.call(cx, a, args)
    }

    /// Call function `a` on both sides and compare results and state.
    pub fn call(&mut self, cx: &mut Cx, a: usize, args: Vec<Val>) -> R {
        let ty = self.ms.funcs[a].ty.clone();
        let wargs: Vec<WasmValue> = {
            let h = self.tw.h.borrow();
            args.iter().zip(&ty.p).map(|(v, t)| h.to_wv(*t, *v)).collect()
        };
        let before = self.plan.tight.then(|| self.ms.clone());
        let c0 = self.ms.c.clone();
        let m = match self.ms.call(a, args.clone()) {
            Err(Er::Stop(s)) => return Err(s),
            Err(Er::Trap(t)) => Err(t),
            Ok(v) => Ok(v),
        };
        let (c0, spent) = (c0, self.tw.spent);
        let g = self.tw.call(a, &wargs);
        if self.prop == "F02" {
            let c = &self.ms.c;
            let spent = self.tw.spent - spent;
            let cost = 4 * (c.steps - c0.steps)
                + 8 * (c.calls - c0.calls + c.host_calls - c0.host_calls)
                + (c.charged - c0.charged)
                + 2 * (c.locals - c0.locals)
                + 64;
            if spent > cost {
                return self.bad(
                    "fuel out of proportion",
                    format!(
                        "slices of {spent} fuel in all were used up by {} instructions, {} calls and {} charged by hosts",
                        c.steps - c0.steps,
                        c.calls - c0.calls,
                        c.charged - c0.charged
                    ),
                );
            }
        }
        if let (Some(before), Out::Trap(Tr::Stack)) = (&before, &g) {
            cx.label("calls ending in stack exhaustion");
            self.exhausted += 1;
            self.note("stack exhausted".into());
            return self.resync(before, a, &args, "after stack exhaustion");
        }
        self.judge(m, g, &ty)?;
        self.check("after the call")
    }

    /// A call stopped early: the state must be the one after some prefix of the call's effects.
    /// The model is set back to that prefix.
    pub fn resync(&mut self, before: &MStore, a: usize, args: &[Val], when: &str) -> R {
        let n = self.ms.eff - before.eff;
        if n > 400 {
            return discard("too many effects to look for the prefix");
        }
        let mut first = None;
        for k in 0..=n {
            let mut m = before.clone();
            m.cut = Some(before.eff + k);
            match m.call(a, args.to_vec()) {
                Err(Er::Stop(Stop::Discard("cut"))) | Err(Er::Trap(_)) | Ok(_) => {}
                Err(Er::Stop(s)) => return Err(s),
            }
            m.cut = None;
            match self.tw.compare(&m) {
                None => {
                    self.note(format!("stopped after {k} of {n} effects"));
                    self.ms = m;
                    self.steps_done += 1;
                    return Ok(());
                }
                Some(d) => {
                    if let Some((_, p)) = d.split_once("panic while reading the state: ") {
                        return self.bad(panic_sig(p), d);
                    }
                    first.get_or_insert(d);
                }
            }
        }
        self.bad(
            "state is no prefix",
            format!("{when}: the state matches no prefix of the {n} effects of the call; without any: {}", first.unwrap_or_default()),
        )
    }

    /// Start a call, resume it a few times, and drop it.
    pub fn gen_drop(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let Some(&(mi, li)) = (if self.live.is_empty() { None } else { Some(s.pick(&self.live)) }) else {
            return Ok(());
        };
        let m = self.loaded[li].m.clone();
        if m.funcs.is_empty() {
            return Ok(());
        }
        let f = s.range(m.n_imp(Kind::Func) as u64, m.n_funcs() as u64 - 1) as u32;
        self.set_gf(mi, li, 3)?;
        let a = self.ms.insts[mi].funcs[f as usize];
        if !self.tw.has_func(a) {
            return Ok(());
        }
        let ty = self.ms.funcs[a].ty.clone();
        let args: Vec<Val> = ty.p.iter().map(|t| self.arg(s, *t)).collect();
        self.note(format!("i{mi}.f{f} ({})", args.iter().zip(&ty.p).map(|(v, t)| show(*t, *v)).collect::<Vec<_>>().join(", ")));
        self.drop_run(s, cx, a, args)
    }

    /// Start a resumable call of `a`, resume it a few times and drop it.
    pub fn drop_run(&mut self, s: &mut Src, cx: &mut Cx, a: usize, args: Vec<Val>) -> R {
        let ty = self.ms.funcs[a].ty.clone();
        let wargs: Vec<WasmValue> = {
            let h = self.tw.h.borrow();
            args.iter().zip(&ty.p).map(|(v, t)| h.to_wv(*t, *v)).collect()
        };
        let n = s.below(5);
        let slices: Vec<Option<u32>> = (0..n).map(|_| if s.chance(1, 4) { None } else { Some(s.below(60) as u32) }).collect();
        self.note(format!("start it, resume with {slices:?} and drop it"));
        let before = self.ms.clone();
        let m = match self.ms.call(a, args.clone()) {
            Err(Er::Stop(s)) => return Err(s),
            Err(Er::Trap(t)) => Err(t),
            Ok(v) => Ok(v),
        };
        match self.tw.partial(a, &wargs, &slices) {
            Some(g) => {
                self.judge(m, g, &ty)?;
                self.check("after the sliced call")
            }
            None => {
                cx.label("executions dropped while suspended");
                self.drops += 1;
                self.resync(&before, a, &args, "after dropping a suspended execution")
            }
        }
    }

    pub fn judge(&mut self, m: Result<Vec<Val>, Tr>, g: Out<Vec<WasmValue>>, ty: &FT) -> R {
        match (&m, &g) {
            (Ok(x), Out::Ok(y)) => {
                let h = self.tw.h.borrow();
                let ok = x.len() == y.len() && x.iter().zip(y).zip(&ty.r).all(|((x, y), t)| h.agree(*t, *x, y));
                drop(h);
                if !ok {
                    let e: Vec<String> = x.iter().zip(&ty.r).map(|(v, t)| show(*t, *v)).collect();
                    let g: Vec<String> = y.iter().map(show_w).collect();
                    return self.bad("result", format!("expected [{}], got [{}]", e.join(", "), g.join(", ")));
                }
                self.completed += 1;
                Ok(())
            }
            (Err(a), Out::Trap(b)) if a == b => {
                self.trapped += 1;
                Ok(())
            }
            _ => {
                let m = m.map(|v| v.len());
                let sig = if let Out::Panic(p) = &g { panic_sig(p) } else { "outcome".into() };
                self.bad(sig, format!("expected {m:?}, got {}", g.kind()))
            }
        }
    }

    pub fn mem_op(&mut self, s: &mut Src) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.mems.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let m = self.tw.h.borrow().mems[a].clone().unwrap();
        let len = self.ms.mems[a].len();
        match s.below(3) {
            0 => {
                let n = s.below(20).min(len);
                let o = match s.below(3) {
                    0 => s.below(64).min(len - n),
                    1 => len - n,
                    _ => s.below(len - n + 1),
                };
                let b: Vec<u8> = (0..n).map(|_| s.u32() as u8).collect();
                self.note(format!("host writes {n} bytes at {o} of memory {a}: {b:?}"));
                self.ms.mems[a].write(o, &b)?;
                match guarded(|| m.copy_from_slice(&mut self.tw.store, o as usize, &b)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return self.bad("host memory write", format!("{e:?}")),
                    Err(p) => return self.bad(panic_sig(&p), p),
                }
            }
            1 => {
                let n = s.below(3);
                self.note(format!("host grows memory {a} by {n}"));
                let e = match self.ms.mem_grow(a, n) {
                    Ok(x) => x.map(|x| x as i64),
                    Err(Er::Stop(s)) => return Err(s),
                    Err(Er::Trap(_)) => unreachable!(),
                };
                match guarded(|| m.grow(&mut self.tw.store, n as i64)) {
                    Ok(Ok(x)) if x == e => {}
                    Ok(r) => {
                        return self.bad("host memory grow", format!("expected {e:?}, got {r:?}"));
                    }
                    Err(p) => return self.bad(panic_sig(&p), p),
                }
            }
            _ => {
                let n = s.below(40).min(len);
                let o = s.below(len - n + 1);
                let b = s.u32() as u8;
                self.note(format!("host fills {n} bytes at {o} of memory {a} with {b}"));
                self.ms.mems[a].write(o, &vec![b; n as usize])?;
                match guarded(|| m.fill(&mut self.tw.store, o as usize, n as usize, b)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return self.bad("host memory fill", format!("{e:?}")),
                    Err(p) => return self.bad(panic_sig(&p), p),
                }
            }
        }
        self.check("after a host memory access")
    }

    pub fn tab_put(&mut self, a: usize, i: u64, v: Val) -> R {
        let t = self.tw.h.borrow().tabs[a].clone().unwrap();
        let el = self.ms.tabs[a].ty.el;
        let wv = self.tw.h.borrow().to_wv(el, v);
        self.note(format!("host sets table {a}[{i}] = {}", show(el, v)));
        self.ms.tabs[a].el[i as usize] = v;
        match guarded(|| t.set(&mut self.tw.store, i as u32, wv)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return self.bad("host table set", format!("{e:?}")),
            Err(p) => return self.bad(panic_sig(&p), p),
        }
        self.check("after a host table operation")
    }

    pub fn tab_op(&mut self, s: &mut Src) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.tabs.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let t = self.tw.h.borrow().tabs[a].clone().unwrap();
        let (len, el) = (self.ms.tabs[a].el.len() as u64, self.ms.tabs[a].ty.el);
        let v = self.arg(s, el);
        let wv = self.tw.h.borrow().to_wv(el, v);
        if s.chance(2, 3) && len > 0 {
            let i = s.below(len);
            return self.tab_put(a, i, v);
        } else {
            let n = s.below(3);
            let max = self.ms.tabs[a].ty.max;
            if max.is_some_and(|m| len + n > m) {
                return Ok(());
            }
            self.note(format!("host grows table {a} by {n}"));
            for _ in 0..n {
                self.ms.tabs[a].el.push(v);
            }
            match guarded(|| t.grow(&mut self.tw.store, n as i32, wv)) {
                Ok(Ok(x)) if x as u64 == len => {}
                Ok(r) => return self.bad("host table grow", format!("expected {len}, got {r:?}")),
                Err(p) => return self.bad(panic_sig(&p), p),
            }
        }
        self.check("after a host table access")
    }

    pub fn glob_op(&mut self, s: &mut Src) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.globs.iter().enumerate().filter(|x| x.1.is_some() && self.ms.globs[x.0].ty.m).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let g = self.tw.h.borrow().globs[a].clone().unwrap();
        let t = self.ms.globs[a].ty.t;
        let v = self.arg(s, t);
        let wv = self.tw.h.borrow().to_wv(t, v);
        self.note(format!("host sets global {a} = {}", show(t, v)));
        self.ms.globs[a].v = v;
        match guarded(|| g.set(&mut self.tw.store, wv)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return self.bad("host global set", format!("{e:?}")),
            Err(p) => return self.bad(panic_sig(&p), p),
        }
        self.check("after a host global write")
    }

    pub fn step(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let p = &self.plan;
        let wi = if self.loaded.len() < p.max_insts { p.w_inst } else { 0 };
        let w = [p.w_call, p.w_mem, p.w_tab, p.w_glob, p.w_drop, wi, p.w_item];
        match s.weighted(&w) {
            0 => self.gen_call(s, cx),
            1 if self.plan.rich_mem => self.mem_api(s, cx),
            1 => self.mem_op(s),
            2 if self.plan.rich_tab => self.tab_api(s, cx),
            2 => self.tab_op(s),
            3 if self.plan.rich_tab => self.glob_api(s, cx),
            3 => self.glob_op(s),
            4 => self.gen_drop(s, cx),
            6 => {
                self.items += 1;
                if s.chance(1, 4) {
                    self.add_host(s);
                } else {
                    self.add_item(s)?;
                }
                self.check("after creating an object")
            }
            _ => {
                if p_bool(s, self.plan.host_calls) {
                    // a host function that can call what exists by now
                    self.add_host(s);
                }
                self.gen_inst(s, cx)
            }
        }
    }

    pub fn labels(&self, cx: &mut Cx) {
        let c = &self.ms.c;
        for (n, v) in [
            ("instructions", c.steps),
            ("calls", c.calls),
            ("host calls", c.host_calls),
            ("guest calls made by host functions", c.nested),
            ("failed nested calls the host function carried on from", c.swallowed),
            ("indirect calls", c.indirect),
            ("tail calls", c.tail),
            ("branches taken", c.branches),
            ("loads", c.loads),
            ("stores", c.stores),
            ("bulk memory operations", c.bulk),
            ("grow operations", c.grows),
            ("table operations", c.table),
            ("global accesses", c.globals),
            ("float operations", c.fops),
            ("integer operations", c.iops),
            ("vector operations", c.vops),
            ("calls ending in a trap", self.trapped),
            ("calls completed", self.completed),
            ("resumptions", self.tw.resumes),
            ("suspensions", self.tw.suspends),
        ] {
            if v > 0 {
                cx.label_n(n, v);
            }
        }
    }
    pub fn sample(&self) -> String {
        let mut s = format!("[{}] ", self.tw.v.name);
        s += &self.trace.join("; ");
        if let Some(l) = self.loaded.first() {
            let m = show_module(&l.m);
            let mut k = 700.min(m.len());
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            s += &format!("\n{}", &m[..k]);
        }
        s.truncate((0..=1400.min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0));
        s
    }
}

/// Is the start function an imported host function?
fn start_is_host(ms: &MStore, l: &Loaded) -> bool {
    let Some(f) = l.m.start else { return false };
    let funcs: Vec<usize> = l.imports.iter().filter_map(|e| if let Ext::Func(a) = e { Some(*a) } else { None }).collect();
    funcs.get(f as usize).is_some_and(|a| matches!(&*ms.funcs[*a].code, crate::model::Code::Host(_)))
}

fn p_bool(s: &mut Src, on: bool) -> bool {
    on && s.bool()
}

/// Run a whole generated history. Returns the world for further inspection.
pub fn history(prop: &'static str, plan: Plan, v: Variant, s: &mut Src, cx: &mut Cx, max_steps: Option<u64>) -> (World, R) {
    let mut w = World::new(prop, plan, v);
    let r = run_history(&mut w, s, cx, max_steps);
    (w, r)
}

fn run_history(w: &mut World, s: &mut Src, cx: &mut Cx, max_steps: Option<u64>) -> R {
    w.setup(s)?;
    w.gen_inst(s, cx)?;
    let n = s.range(w.plan.steps.0, w.plan.steps.1);
    for _ in 0..n {
        if max_steps.is_some_and(|m| w.steps_done >= m) {
            break;
        }
        w.step(s, cx)?;
    }
    Ok(())
}

pub type Nontrivial = fn(&Counts, &World) -> bool;

/// Compare one variant against the model.
pub fn oracle_case(prop: &'static str, plan: Plan, v: Variant, s: &mut Src, cx: &mut Cx, nt: Nontrivial) -> R {
    let (w, r) = history(prop, plan, v, s, cx, None);
    finish(w, r, s, cx, nt)
}

pub fn finish(w: World, r: R, s: &Src, cx: &mut Cx, nt: Nontrivial) -> R {
    match r {
        Err(Stop::Fail(f)) => Err(Stop::Fail(f)),
        r => {
            // a history cut short by a discard still checked everything up to that point
            if let Err(Stop::Discard(d)) = &r {
                cx.label(&format!("cut short: {d}"));
                if w.completed + w.trapped == 0 {
                    return r;
                }
            }
            w.labels(cx);
            if nt(&w.ms.c, &w) {
                let b: Vec<u8> = w.loaded.iter().flat_map(|l| l.wasm.iter().copied()).chain(w.trace.join(";").bytes()).collect();
                cx.nontrivial(&b);
            }
            cx.sample(|| w.sample());
            let _ = s;
            Ok(())
        }
    }
}

/// Compare a variant against the model; a difference counts only when the base variant agrees with the
/// model on the same history (so that the difference is due to the variant).
pub fn diff_case(prop: &'static str, plan: Plan, v: Variant, base: Variant, s: &mut Src, cx: &mut Cx, nt: Nontrivial) -> R {
    let start = s.used();
    let (w, r) = history(prop, plan.clone(), v, s, cx, None);
    let r = against(r, start, s, |s2, cx2| history(prop, plan, base, s2, cx2, Some(w.steps_done + 1)).1)?;
    finish(w, r, s, cx, nt)
}

/// Keep a failure only when the base passes the same history.
pub fn against(r: R, start: usize, s: &Src, base: impl FnOnce(&mut Src, &mut Cx) -> R) -> R<R> {
    if let Err(Stop::Fail(mut f)) = r {
        let tape = s.tape[start.min(s.tape.len())..s.used().min(s.tape.len())].to_vec();
        let mut s2 = Src::replay(tape);
        let mut cx2 = Cx::default();
        if let Err(Stop::Fail(_)) = base(&mut s2, &mut cx2) {
            return discard("base configuration differs from the model too");
        }
        f.detail = format!("(the base configuration behaves as specified)\n{}", f.detail);
        return Err(Stop::Fail(f));
    }
    Ok(r)
}

pub fn instance(w: &World, mi: usize) -> &ModuleInstance {
    w.tw.insts[mi].as_ref().unwrap()
}
