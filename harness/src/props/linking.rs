//! Linking and instantiation: I01, I02, I03, R01.

use crate::ir::*;
use crate::model::Ext;
use crate::modgen::{self, Made, Prof, konst, value};
use crate::num::Er;
use crate::runner::{Cx, Prop, R, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Out, Route, Variant, fty, show, show_func};
use crate::val::*;
use crate::world::{Loaded, Plan, World, finish, hex, show_module};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use tinywasm::types::{FuncType, WasmValue};
use tinywasm::{Error, ExternItem, Function, FunctionTyped, Global, HostFunction, Imports, LinkingError, Memory, ModuleInstance, Table};

const A: &[&str] = &["the reference model (harness/src/model.rs) states the WebAssembly semantics correctly"];

// ------------------------------------------------------------------------------------------ I02

pub const I02: Prop = Prop {
    id: "I02",
    quick: 45_000,
    thorough: 6_000_000,
    rule: "an instantiation trapped or a start function ran",
    assumptions: A,
    case: i02,
    probes: &[],
};

/// A start function made of calls with constant arguments and a possible trap.
fn add_start(s: &mut Src, made: &mut Made) {
    let m = &mut made.m;
    if m.start.is_some() || s.chance(1, 3) {
        return;
    }
    let mut body = vec![];
    let n = m.n_funcs();
    for _ in 0..s.range(1, 3) {
        let f = s.below(n as u64) as u32;
        let t = m.func_ty(f).clone();
        for p in &t.p {
            let v = if p.is_ref() { Val::default() } else { value(s, *p) };
            body.push(konst(*p, v));
        }
        body.push(In::Call(f));
        body.extend(t.r.iter().map(|_| DROP));
        if s.chance(1, 6) {
            body.push(UNREACHABLE);
        }
    }
    let ty = m.ty(FT::default());
    m.funcs.push(Func { ty, locals: vec![], body });
    m.start = Some(n);
}

/// Offsets in other forms with the same value, and more segments on imported objects.
fn more_segments(s: &mut Src, made: &mut Made) {
    let m = &mut made.m;
    let (ti, mi) = (m.n_imp(Kind::Tab), m.n_imp(Kind::Mem));
    let n_funcs = m.n_funcs();
    let gs: Vec<GlobTy> = m.all_globs().into_iter().take(m.n_imp(Kind::Glob) as usize).collect();
    for _ in 0..s.below(4) {
        if ti > 0 && s.bool() {
            let tab = s.below(ti as u64) as u32;
            let t = m.all_tabs()[tab as usize];
            if t.el == VT::Func {
                let n = s.below(4).min(t.min);
                let o = if s.chance(1, 6) { modgen::outside(s, t.t64, t.min, 2) } else { s.range(0, t.min - n) };
                let off = modgen::offset(s, t.t64, o, &gs);
                let items = ElemItems::Funcs((0..n.max(1)).map(|_| s.below(n_funcs as u64) as u32).collect());
                m.elems.push(Elem { mode: ElemMode::Active { tab, off }, items });
            }
        } else if mi > 0 {
            let mem = s.below(mi as u64) as u32;
            let t = m.all_mems()[mem as usize];
            let sz = t.min * t.page_size();
            let n = s.range(1, 9).min(sz);
            let o = if s.chance(1, 6) { modgen::outside(s, t.m64, sz - n + 1, 3) } else { s.range(0, sz - n).min(300) };
            let off = modgen::offset(s, t.m64, o, &gs);
            let b = s.u32() as u8;
            m.datas.push(Data { active: Some((mem, off)), bytes: (0..n as u8).map(|i| b.wrapping_add(i * 3) | 1).collect() });
        }
    }
    if s.chance(1, 3) {
        leak_segments(s, made);
    }
    add_start(s, made);
}

/// Functions that use segments, leaked into an imported table by one segment; often a later one traps.
fn leak_segments(s: &mut Src, made: &mut Made) {
    let m = &mut made.m;
    let ti = m.n_imp(Kind::Tab);
    let tabs: Vec<u32> = (0..ti as u32).filter(|i| m.all_tabs()[*i as usize].el == VT::Func && m.all_tabs()[*i as usize].min > 0).collect();
    if tabs.is_empty() {
        return;
    }
    let tab = *s.pick(&tabs);
    let t = m.all_tabs()[tab as usize];
    let at = |o: u64| if t.t64 { In::I64(o) } else { In::I32(o as u32) };
    let first = m.n_funcs();
    // the leaking segment, then others
    let leak = m.elems.len();
    let slot = s.below(t.min);
    m.elems.push(Elem { mode: ElemMode::Active { tab, off: vec![at(slot)] }, items: ElemItems::Funcs(vec![first]) });
    for _ in 0..s.range(1, 3) {
        let items = |s: &mut Src, n: u64| ElemItems::Funcs((0..n).map(|_| s.below(first as u64 + 1) as u32).collect());
        let n = s.range(1, 2);
        let mode = match s.below(5) {
            0 => ElemMode::Passive,
            1 => ElemMode::Declared,
            2 => ElemMode::Active { tab, off: vec![at(modgen::outside(s, t.t64, t.min, 1))] },
            3 => ElemMode::Active { tab, off: vec![at(t.min + s.range(1, 70000))] },
            _ => ElemMode::Active { tab, off: vec![at(s.below(t.min))] },
        };
        let items = items(s, n);
        m.elems.push(Elem { mode, items });
    }
    let nd = m.datas.len();
    let mems = m.all_mems();
    let mut body = vec![];
    for _ in 0..s.range(1, 2) {
        if nd > 0 && !mems.is_empty() && s.chance(1, 3) {
            let mem = s.below(mems.len() as u64) as u32;
            let a = |o: u64| if mems[mem as usize].m64 { In::I64(o) } else { In::I32(o as u32) };
            let data = s.below(nd as u64) as u32;
            body.extend([a(s.below(8)), In::I32(0), In::I32(s.below(3) as u32), In::MInit { data, mem }]);
        } else {
            let elem = (leak as u64 + s.below((m.elems.len() - leak) as u64)) as u32;
            body.extend([at(s.below(t.min)), In::I32(0), In::I32(s.range(0, 2) as u32), In::TInit { elem, tab }]);
        }
    }
    let ty = m.ty(FT::default());
    m.funcs.push(Func { ty, locals: vec![], body });
}

fn i02(s: &mut Src, cx: &mut Cx) -> R {
    let prof = Prof {
        max_funcs: 3,
        body: (2, 14),
        trap: *s.pick(&[60, 300, 600]),
        segs: 4,
        imports: 5,
        globals: 4,
        table: 3,
        indirect: 4,
        refs: 2,
        mem: 4,
        bulk: 4,
        start: 150,
        max_mems: 2,
        max_tabs: 2,
        quiet_mems: true,
        mem64: 200,
        t64: 200,
        idioms: 1,
        simd: 1,
        ..Prof::default()
    };
    let plan = Plan {
        prof,
        steps: (2, 6),
        w_inst: 8,
        w_call: 5,
        max_insts: 5,
        host_funcs: 2,
        host_items: 5,
        host_calls: s.chance(1, 4),
        host_fail: 200,
        auto_start: true,
        post: Some(more_segments),
        ..Plan::default()
    };
    let mut w = World::new("I02", plan, Variant::any(s));
    let r = i02_run(&mut w, s, cx);
    finish(w, r, s, cx, |_, w| w.inst_traps + w.starts > 0)
}

fn i02_run(w: &mut World, s: &mut Src, cx: &mut Cx) -> R {
    w.setup(s)?;
    if s.bool() {
        w.add_host_of(FT::default(), Default::default());
    }
    w.gen_inst(s, cx)?;
    let n = s.range(w.plan.steps.0, w.plan.steps.1);
    for _ in 0..n {
        w.step(s, cx)?;
        if s.chance(1, 3) {
            call_slots(w, s, cx)?;
        }
    }
    call_slots(w, s, cx)
}

/// Call function references found in reachable tables through a fresh module, also those of instances whose
/// instantiation failed.
fn call_slots(w: &mut World, s: &mut Src, cx: &mut Cx) -> R {
    let c: Vec<usize> = (0..w.ms.tabs.len())
        .filter(|a| {
            w.ms.tabs[*a].ty.el == VT::Func && w.tw.h.borrow().tabs.get(*a).is_some_and(|t| t.is_some()) && w.ms.tabs[*a].el.iter().any(|v| v.b != 0)
        })
        .collect();
    if c.is_empty() {
        return Ok(());
    }
    let a = *s.pick(&c);
    let t = w.ms.tabs[a].ty;
    let slots: Vec<(usize, usize)> = w.ms.tabs[a].el.iter().enumerate().filter(|x| x.1.b != 0).map(|(i, v)| (i, v.b as usize - 1)).collect();
    let mut m = Module::default();
    m.imports.push(Import { module: "x".into(), name: "t".into(), desc: Desc::Tab(TabTy { min: 0, ..t }) });
    let mut calls = vec![];
    for _ in 0..s.range(1, 3) {
        let (i, f) = *s.pick(&slots);
        let ft = w.ms.funcs[f].ty.clone();
        let ty = m.ty(ft.clone());
        let mut body: Vec<In> = (0..ft.p.len() as u32).map(In::LGet).collect();
        body.push(if t.t64 { In::I64(i as u64) } else { In::I32(i as u32) });
        body.push(In::CallInd { ty, tab: 0 });
        m.funcs.push(Func { ty, locals: vec![], body });
        calls.push(ft);
    }
    for i in 0..m.funcs.len() as u32 {
        m.export(format!("f{i}"), Kind::Func, i);
    }
    let li = w.load(m, vec![Ext::Tab(a)], u32::MAX)?;
    w.note(format!("(module {li} calls slots of table {a})"));
    w.instantiate(cx, li)?;
    let Some(&(mi, _)) = w.live.last() else { return Ok(()) };
    w.live.pop();
    for (i, ft) in calls.iter().enumerate() {
        let f = w.ms.insts[mi].funcs[i];
        let args: Vec<Val> = ft.p.iter().map(|t| w.arg(s, *t)).collect();
        w.note(format!("call i{mi}.f{i} ({})", args.iter().zip(&ft.p).map(|(v, t)| show(*t, *v)).collect::<Vec<_>>().join(", ")));
        cx.label_n("calls of functions found in tables", 1);
        w.call(cx, f, args)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ I01

pub const I01: Prop = Prop {
    id: "I01",
    quick: 60_000,
    thorough: 6_000_000,
    rule: "an importer with at least one import was linked or refused",
    assumptions: A,
    case: i01,
    probes: &[],
};

#[derive(Clone, Debug)]
enum Bind {
    Def(Ext),
    /// through link_module of this model instance
    Link(usize),
    Missing,
}

fn i01(s: &mut Src, cx: &mut Cx) -> R {
    let prof = Prof {
        max_funcs: 3,
        body: (2, 10),
        globals: 5,
        table: 4,
        indirect: 2,
        refs: 2,
        mem: 4,
        bulk: 2,
        max_mems: 2,
        max_tabs: 2,
        quiet_mems: true,
        mem64: 300,
        t64: 300,
        custom_page: 250,
        idioms: 1,
        start: 0,
        trap: 20,
        ..Prof::default()
    };
    let plan = Plan { prof, host_funcs: 3, host_items: 5, ..Plan::default() };
    let mut w = World::new("I01", plan, Variant::any(s));
    let r = i01_run(&mut w, s, cx);
    finish(w, r, s, cx, |_, w| w.loaded.iter().any(|l| !l.m.imports.is_empty()))
}

fn desc_of(w: &World, m: &mut Module, e: Ext) -> Desc {
    match e {
        Ext::Func(a) => Desc::Func(m.ty(w.ms.funcs[a].ty.clone())),
        Ext::Tab(a) => Desc::Tab(TabTy { min: w.ms.tabs[a].el.len() as u64, ..w.ms.tabs[a].ty }),
        Ext::Mem(a) => Desc::Mem(MemTy { min: w.ms.mems[a].pages, ..w.ms.mems[a].ty }),
        Ext::Glob(a) => Desc::Glob(w.ms.globs[a].ty),
    }
}

/// A nearby type: sometimes it still matches, sometimes not.
fn perturb(s: &mut Src, m: &mut Module, d: &Desc, p: &Prof) -> Desc {
    if s.chance(1, 12) {
        return match s.below(4) {
            0 => Desc::Func(m.ty(modgen::func_type(s, p))),
            1 => Desc::Tab(modgen::tab_type(s, p)),
            2 => Desc::Mem(modgen::mem_type(s, p)),
            _ => Desc::Glob(GlobTy { t: *s.pick(&ALLT), m: s.bool() }),
        };
    }
    let limits = |s: &mut Src, min: u64, max: Option<u64>, cap: u64| -> (u64, Option<u64>) {
        let min2 = match s.below(6) {
            0 => min.saturating_sub(1),
            1 => min + 1,
            2 => 0,
            3 => min + s.below(4),
            _ => min,
        };
        let max2 = match (s.below(7), max) {
            (0, _) => None,
            (1, Some(x)) => Some(x + 1),
            (2, Some(x)) => Some(x.saturating_sub(1)),
            (3, None) => Some(min2 + s.below(5)),
            (4, _) => Some(cap),
            (5, Some(x)) if cap > 1 << 32 => Some(x + (1 << 32)),
            _ => max,
        };
        let min2 = min2.min(cap);
        (min2, max2.map(|x| x.min(cap).max(min2)))
    };
    match d {
        Desc::Func(t) => {
            let mut t = m.types[*t as usize].clone();
            let l = if s.bool() { &mut t.p } else { &mut t.r };
            match s.below(4) {
                0 => {
                    let at = s.usize(l.len() + 1);
                    l.insert(at, *s.pick(&ALLT));
                }
                1 if !l.is_empty() => {
                    let at = s.usize(l.len());
                    l.remove(at);
                }
                2 if !l.is_empty() => {
                    let at = s.usize(l.len());
                    l[at] = *s.pick(&ALLT);
                }
                _ if l.len() > 1 => {
                    let at = s.usize(l.len() - 1);
                    l.swap(at, at + 1);
                }
                _ => {}
            }
            Desc::Func(m.ty(t))
        }
        Desc::Tab(t) => {
            let mut t = *t;
            match s.below(6) {
                0 => t.el = if t.el == VT::Func { VT::Extern } else { VT::Func },
                1 => {
                    t.t64 = !t.t64;
                    t.max = t.max.map(|x| if t.t64 { x } else { x.min(u32::MAX as u64) });
                }
                _ => {
                    (t.min, t.max) = limits(s, t.min, t.max, if t.t64 { 1 << 40 } else { 10_000_000 });
                    t.min = t.min.min(10_000_000);
                }
            }
            Desc::Tab(t)
        }
        Desc::Mem(t) => {
            let mut t = *t;
            match s.below(7) {
                0 => {
                    t.m64 = !t.m64;
                    let cap = (1u64 << 32) / t.page_size() - (t.page_size() == 1) as u64;
                    t.min = t.min.min(cap);
                    t.max = t.max.map(|x| x.min(cap));
                }
                1 => {
                    t.page = if t.page == Some(0) { None } else { Some(0) };
                    let cap = 65536;
                    t.min = t.min.min(cap);
                    t.max = t.max.map(|x| x.min(cap).max(t.min));
                }
                2 if t.page_size() == 65536 => t.page = if t.page.is_none() { Some(16) } else { None },
                _ => {
                    let cap = if t.m64 { 1u64 << (if t.page_size() == 1 { 40 } else { 33 }) } else { (1u64 << 32) / t.page_size() };
                    (t.min, t.max) = limits(s, t.min, t.max, if t.page_size() == 1 && !t.m64 { u32::MAX as u64 } else { cap });
                }
            }
            Desc::Mem(t)
        }
        Desc::Glob(t) => {
            let mut t = *t;
            match s.below(3) {
                0 => t.m = !t.m,
                _ => t.t = *s.pick(&ALLT),
            }
            Desc::Glob(t)
        }
    }
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Func => "functions",
        Kind::Tab => "tables",
        Kind::Mem => "memories",
        Kind::Glob => "globals",
    }
}

fn i01_run(w: &mut World, s: &mut Src, cx: &mut Cx) -> R {
    w.setup(s)?;
    for _ in 0..s.below(3) {
        w.gen_inst(s, cx)?;
    }
    let mut saved = vec![];
    for _ in 0..s.range(1, 3) {
        // sizes change between links
        for _ in 0..s.below(3) {
            match s.below(4) {
                0 => w.mem_op(s)?,
                1 => w.tab_op(s)?,
                2 => w.glob_op(s)?,
                _ => w.gen_call(s, cx)?,
            }
        }
        link_one(w, s, cx, &mut saved)?;
    }
    for _ in 0..s.below(4) {
        w.step(s, cx)?;
    }
    // the original handles see the same state
    *w.tw.h.borrow_mut() = {
        let mut h = w.tw.h.borrow_mut();
        for (e, x) in saved.into_iter().rev() {
            match (e, x) {
                (Ext::Func(a), ExternItem::Func(x)) => h.funcs[a] = Some(x),
                (Ext::Tab(a), ExternItem::Table(x)) => h.tabs[a] = Some(x),
                (Ext::Mem(a), ExternItem::Memory(x)) => h.mems[a] = Some(x),
                (Ext::Glob(a), ExternItem::Global(x)) => h.globs[a] = Some(x),
                _ => {}
            }
        }
        std::mem::take(&mut *h)
    };
    w.check("through the exporter's handles")
}

fn item_of(w: &World, e: Ext) -> Option<ExternItem> {
    use tinywasm::Extern as X;
    Some(match w.tw.extern_of(e)? {
        X::Function(f) => ExternItem::Func(f),
        X::Table(f) => ExternItem::Table(f),
        X::Memory(f) => ExternItem::Memory(f),
        X::Global(f) => ExternItem::Global(f),
        _ => return None,
    })
}

/// Link one importer, matching or not.
fn link_one(w: &mut World, s: &mut Src, cx: &mut Cx, saved: &mut Vec<(Ext, ExternItem)>) -> R {
    let p = w.plan.prof.clone();
    let avail: Vec<Ext> = w.avail.iter().map(|a| a.ext).filter(|e| w.tw.extern_of(*e).is_some()).collect();
    let mut m = Module::default();
    let wrong = s.chance(1, 2);
    let n = s.range(if avail.is_empty() { 0 } else { 1 }, 5);
    let mut defs: Vec<(String, String, Ext)> = vec![];
    let mut links: Vec<(String, usize)> = vec![];
    let mut binds = vec![];
    for k in 0..n {
        if k > 0 && s.chance(1, 8) {
            // the same name again, with the same or another type
            let i = s.usize(m.imports.len());
            let mut im = m.imports[i].clone();
            if wrong && s.bool() {
                im.desc = perturb(s, &mut m, &im.desc.clone(), &p);
            }
            m.imports.push(im);
            continue;
        }
        if avail.is_empty() {
            let desc = Desc::Glob(GlobTy { t: VT::I32, m: false });
            m.imports.push(Import { module: "none".into(), name: format!("i{k}"), desc });
            binds.push(Bind::Missing);
            continue;
        }
        let e = *s.pick(&avail);
        let mut desc = desc_of(w, &mut m, e);
        if wrong && s.chance(1, 2) {
            desc = perturb(s, &mut m, &desc, &p);
        } else if s.chance(1, 3) {
            // a weaker demand that still matches
            match &mut desc {
                Desc::Tab(TabTy { min, max, .. }) | Desc::Mem(MemTy { min, max, .. }) => {
                    *min = s.range(0, *min);
                    if s.bool() {
                        *max = None;
                    }
                }
                _ => {}
            }
        }
        // an exporter of this object?
        let by: Vec<(usize, String)> = w
            .live
            .iter()
            .flat_map(|(mi, li)| w.loaded[*li].m.exports.iter().map(move |x| (*mi, x)))
            .filter(|(mi, x)| w.ms.ext_of(*mi, x.kind, x.idx) == e)
            .map(|(mi, x)| (mi, x.name.clone()))
            .collect();
        if wrong && s.chance(1, 10) {
            let (module, name) = match (s.below(3), w.live.first()) {
                (0, Some((mi, _))) => {
                    links.push((format!("L{mi}"), *mi));
                    (format!("L{mi}"), format!("absent{k}"))
                }
                (1, _) => ("h".into(), format!("absent{k}")),
                _ => (format!("absent{k}"), "x".into()),
            };
            m.imports.push(Import { module, name, desc });
            binds.push(Bind::Missing);
        } else if !by.is_empty() && s.chance(2, 3) {
            let (mi, name) = s.pick(&by).clone();
            links.push((format!("L{mi}"), mi));
            if s.chance(1, 10) {
                // an explicit definition goes first
                let e2 = if wrong { *s.pick(&avail) } else { e };
                defs.push((format!("L{mi}"), name.clone(), e2));
            }
            m.imports.push(Import { module: format!("L{mi}"), name, desc });
            binds.push(Bind::Link(mi));
        } else {
            let module = ["h", "", "env"][s.usize(3)].to_string();
            let name = format!("i{k}");
            let e2 = if wrong && s.chance(1, 10) { *s.pick(&avail) } else { e };
            defs.push((module.clone(), name.clone(), e2));
            m.imports.push(Import { module, name, desc });
            binds.push(Bind::Def(e2));
        }
    }
    // something nobody asked for
    if s.chance(1, 4) && !avail.is_empty() {
        defs.push(("h".into(), "unused".into(), *s.pick(&avail)));
    }
    // what each name resolves to
    let mut by_name: HashMap<(String, String), Ext> = HashMap::new();
    for (a, b, e) in &defs {
        by_name.insert((a.clone(), b.clone()), *e);
    }
    let res: Vec<Option<Ext>> = m
        .imports
        .iter()
        .map(|i| {
            if let Some(e) = by_name.get(&(i.module.clone(), i.name.clone())) {
                return Some(*e);
            }
            let mi = links.iter().find(|l| l.0 == i.module)?.1;
            w.ms.export(mi, &i.name)
        })
        .collect();
    let unknown: Vec<usize> = (0..res.len()).filter(|i| res[*i].is_none()).collect();
    let incompatible: Vec<usize> = (0..res.len()).filter(|i| res[*i].is_some_and(|e| !w.ms.matches(&m, &m.imports[*i].desc, e))).collect();

    // the importer exports everything again, reads and writes it, and initialises some of it
    let mut idx: HashMap<Kind, u32> = HashMap::new();
    for (k, im) in m.imports.clone().iter().enumerate() {
        let c = idx.entry(kind_of(&im.desc)).or_insert(0);
        m.export(format!("x{k}"), kind_of(&im.desc), *c);
        *c += 1;
    }
    accessors(s, &mut m);
    if let Err(e) = crate::world::validate(&crate::tw::encode(&m)) {
        panic!("importer is invalid: {e}\n{}", show_module(&m));
    }
    let wasm = crate::tw::encode(&m);
    let tm = match w.tw.v.load(&wasm) {
        Ok(t) => t,
        Err(e) => return w.bad("valid module rejected", format!("{e}\n{}\n{}", hex(&wasm), show_module(&m))),
    };
    let ok = unknown.is_empty() && incompatible.is_empty();
    let m = Rc::new(m);
    w.note(format!(
        "link module {} with definitions {defs:?} and linked modules {links:?}; unknown {unknown:?}, incompatible {incompatible:?}",
        w.loaded.len()
    ));
    w.loaded.push(Loaded { m: m.clone(), wasm: Rc::new(wasm), tm: tm.clone(), imports: res.iter().flatten().copied().collect(), gf: u32::MAX });
    let li = w.loaded.len() - 1;
    // two sets, merged; the second one wins
    let (mut ia, mut ib) = (Imports::new(), Imports::new());
    let mut names: Vec<&(String, String)> = by_name.keys().collect();
    names.sort();
    for n in names {
        let e = by_name[n];
        let x = w.tw.extern_of(e).unwrap();
        let stale = w.tw.extern_of(*s.pick(&avail)).unwrap();
        match s.below(4) {
            0 => {
                ia.define(&n.0, &n.1, stale);
                ib.define(&n.0, &n.1, x);
            }
            1 => {
                ia.define(&n.0, &n.1, stale).define(&n.0, &n.1, x);
            }
            2 => {
                ia.define(&n.0, &n.1, x);
            }
            _ => {
                ib.define(&n.0, &n.1, x);
            }
        }
    }
    for (n, mi) in &links {
        let i = w.tw.insts[*mi].clone().unwrap();
        // another instance linked under that name before
        let stale = if s.chance(1, 3) { w.tw.insts[s.pick(&w.live).0].clone() } else { None };
        let t = if s.bool() { &mut ia } else { &mut ib };
        if let Some(j) = stale {
            let _ = t.link_module(n, j);
        }
        let _ = t.link_module(n, i);
    }
    let imports = ia.merge(ib);
    let r = guarded(|| ModuleInstance::instantiate_no_start(&mut w.tw.store, &tm, Some(imports)));
    let r = match r {
        Ok(r) => r,
        Err(p) => return w.bad(panic_sig(&p), format!("panic while linking: {p}")),
    };
    for im in &m.imports {
        cx.label_n(kind_name(kind_of(&im.desc)), 1);
    }
    match (&r, ok) {
        (Err(Error::Linker(e)), false) => {
            let (list, module, name) = match e {
                LinkingError::UnknownImport { module, name } => (&unknown, module, name),
                LinkingError::IncompatibleImportType { module, name } => (&incompatible, module, name),
                #[allow(unreachable_patterns)]
                _ => return w.bad("link error", format!("{e:?}")),
            };
            if !list.iter().any(|i| m.imports[*i].module == *module && m.imports[*i].name == *name) {
                return w.bad("link error", format!("linking reported {e:?}"));
            }
            cx.label("imports refused");
            w.trapped += 1;
            return w.check("after imports were refused");
        }
        (Err(e), false) => return w.bad("link error", format!("mismatching imports ended in {e:?}")),
        (Ok(_), false) => {
            let k = incompatible.first().map(|i| kind_name(kind_of(&m.imports[*i].desc))).unwrap_or("missing");
            return w.bad(format!("accepted: {k}"), "imports that do not match were accepted");
        }
        _ => {}
    }
    cx.label("imports linked");
    let exts: Vec<Ext> = res.iter().map(|x| x.unwrap()).collect();
    let mr = match w.ms.instantiate(m.clone(), &exts) {
        Err(Er::Stop(s)) => return Err(s),
        Err(Er::Trap(t)) => Err(t),
        Ok(i) => Ok(i),
    };
    let (i, ti) = match (mr, crate::tw::out_of(Ok(r))) {
        (Ok(i), Out::Ok(ti)) => (i, ti),
        (Err(t), Out::Trap(u)) if t == u => {
            w.trapped += 1;
            return w.check("after a trapping instantiation");
        }
        (a, b) => return w.bad("instantiation outcome", format!("expected {a:?}, got {}", b.map(|_| ()).kind())),
    };
    w.tw.register(&w.ms, i, ti.clone());
    w.live.push((i, li));
    w.completed += 1;
    // from here on, some objects are reached through the importer's handles
    for (k, e) in exts.iter().enumerate() {
        if s.bool() {
            let Some(old) = item_of(w, *e) else { continue };
            let new = match guarded(|| ti.extern_item(&format!("x{k}"))) {
                Ok(Ok(x)) => x,
                r => return w.bad("re-export", format!("x{k}: {:?}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
            };
            let mut h = w.tw.h.borrow_mut();
            match (*e, new) {
                (Ext::Func(a), ExternItem::Func(x)) => h.funcs[a] = Some(x),
                (Ext::Tab(a), ExternItem::Table(x)) => h.tabs[a] = Some(x),
                (Ext::Mem(a), ExternItem::Memory(x)) => h.mems[a] = Some(x),
                (Ext::Glob(a), ExternItem::Global(x)) => h.globs[a] = Some(x),
                _ => {
                    drop(h);
                    return w.bad("re-export", format!("x{k} is of another kind than {e:?}"));
                }
            }
            drop(h);
            saved.push((*e, old));
        }
    }
    w.check("after linking")?;
    // use it from the importer
    let nf = m.funcs.len();
    for _ in 0..s.range(1, 6) {
        if nf == 0 {
            break;
        }
        let f = m.n_imp(Kind::Func) as usize + s.usize(nf);
        let a = w.ms.insts[i].funcs[f];
        let ty = w.ms.funcs[a].ty.clone();
        let args: Vec<Val> = ty.p.iter().map(|t| small_arg(w, s, *t)).collect();
        w.note(format!("call i{i}.f{f} ({})", args.iter().zip(&ty.p).map(|(v, t)| show(*t, *v)).collect::<Vec<_>>().join(", ")));
        w.call(cx, a, args)?;
        if s.chance(1, 3) {
            match s.below(3) {
                0 => w.mem_op(s)?,
                1 => w.tab_op(s)?,
                _ => w.glob_op(s)?,
            }
        }
    }
    Ok(())
}

fn small_arg(w: &World, s: &mut Src, t: VT) -> Val {
    match t {
        VT::I32 if s.chance(2, 3) => i32v(s.below(12) as u32),
        VT::I64 if s.chance(2, 3) => i64v(s.below(12)),
        t => w.arg(s, t),
    }
}

/// Functions that read and write every imported object.
fn accessors(s: &mut Src, m: &mut Module) {
    let mut ci: HashMap<Kind, u32> = HashMap::new();
    let mut fs: Vec<(FT, Vec<In>)> = vec![];
    for im in m.imports.clone() {
        let c = ci.entry(kind_of(&im.desc)).or_insert(0);
        let i = *c;
        *c += 1;
        match im.desc {
            Desc::Func(t) => {
                let t = m.types[t as usize].clone();
                let mut b: Vec<In> = (0..t.p.len() as u32).map(In::LGet).collect();
                b.push(if s.chance(1, 4) { In::RetCall(i) } else { In::Call(i) });
                fs.push((t, b));
            }
            Desc::Glob(t) => {
                fs.push((ft(&[], &[t.t]), vec![In::GGet(i)]));
                if t.m {
                    fs.push((ft(&[t.t], &[]), vec![In::LGet(0), In::GSet(i)]));
                }
            }
            Desc::Mem(t) => {
                let at = if t.m64 { VT::I64 } else { VT::I32 };
                let ma = |o: u64| MA { align: 0, off: o, mem: i };
                let o = s.below(20);
                fs.push((ft(&[at], &[VT::I32]), vec![In::LGet(0), In::Mem(0x2d, ma(o))]));
                fs.push((ft(&[at, VT::I64], &[]), vec![In::LGet(0), In::LGet(1), In::Mem(0x37, ma(o))]));
                fs.push((ft(&[], &[at]), vec![In::MSize(i)]));
                fs.push((ft(&[], &[at]), vec![if t.m64 { In::I64(1) } else { In::I32(1) }, In::MGrow(i)]));
                if t.min * t.page_size() > 0 && s.bool() {
                    let off = vec![if t.m64 { In::I64(0) } else { In::I32(0) }];
                    m.datas.push(Data { active: Some((i, off)), bytes: vec![s.u32() as u8 | 1] });
                }
            }
            Desc::Tab(t) => {
                let at = if t.t64 { VT::I64 } else { VT::I32 };
                fs.push((ft(&[at], &[t.el]), vec![In::LGet(0), In::TGet(i)]));
                fs.push((ft(&[at, t.el], &[]), vec![In::LGet(0), In::LGet(1), In::TSet(i)]));
                fs.push((ft(&[], &[at]), vec![In::TSize(i)]));
                fs.push((ft(&[t.el], &[at]), vec![In::LGet(0), if t.t64 { In::I64(1) } else { In::I32(1) }, In::TGrow(i)]));
                if t.el == VT::Func {
                    let ty = m.ty(ft(&[], &[VT::I32]));
                    fs.push((ft(&[at], &[VT::I32]), vec![In::LGet(0), In::CallInd { ty, tab: i }]));
                }
            }
        }
    }
    let base = m.n_imp(Kind::Func);
    // an own function of type [] -> [i32] to put into tables
    fs.push((ft(&[], &[VT::I32]), vec![In::I32(s.u32())]));
    for (t, b) in fs {
        let ty = m.ty(t);
        m.funcs.push(Func { ty, locals: vec![], body: b });
    }
    for i in 0..m.funcs.len() as u32 {
        m.export(format!("f{}", base + i), Kind::Func, base + i);
    }
}

// ------------------------------------------------------------------------------------------ I03

pub const I03: Prop = Prop {
    id: "I03",
    quick: 45_000,
    thorough: 6_000_000,
    rule: "at least 3 uses of a handle with another store were attempted, or at least 3 objects were created after handles were taken",
    assumptions: A,
    case: i03,
    probes: &[],
};

/// The handles a store gave out.
struct Given {
    funcs: Vec<(Function, FT)>,
    tabs: Vec<(Table, TabTy, u64)>,
    mems: Vec<(Memory, MemTy, u64)>,
    globs: Vec<(Global, GlobTy)>,
    insts: Vec<(ModuleInstance, Rc<Module>)>,
    typed: Vec<FunctionTyped<(), ()>>,
    typed1: Vec<FunctionTyped<i32, i32>>,
}

fn given(w: &World) -> Given {
    let h = w.tw.h.borrow();
    let names = || {
        w.live.iter().flat_map(|(mi, li)| {
            let i = w.tw.insts[*mi].clone().unwrap();
            w.loaded[*li].m.exports.iter().filter(|e| e.kind == Kind::Func).map(move |e| (i.clone(), &e.name))
        })
    };
    Given {
        typed: names().filter_map(|(i, n)| i.func::<(), ()>(&w.tw.store, n).ok()).collect(),
        typed1: names().filter_map(|(i, n)| i.func::<i32, i32>(&w.tw.store, n).ok()).collect(),
        funcs: h.funcs.iter().enumerate().filter_map(|(a, f)| Some((f.clone()?, w.ms.funcs[a].ty.clone()))).collect(),
        tabs: h.tabs.iter().enumerate().filter_map(|(a, f)| Some(((*f)?, w.ms.tabs[a].ty, w.ms.tabs[a].el.len() as u64))).collect(),
        mems: h.mems.iter().enumerate().filter_map(|(a, f)| Some(((*f)?, w.ms.mems[a].ty, w.ms.mems[a].pages))).collect(),
        globs: h.globs.iter().enumerate().filter_map(|(a, f)| Some(((*f)?, w.ms.globs[a].ty))).collect(),
        insts: w.live.iter().map(|(mi, li)| (w.tw.insts[*mi].clone().unwrap(), w.loaded[*li].m.clone())).collect(),
    }
}

fn i03(s: &mut Src, cx: &mut Cx) -> R {
    let prof = Prof {
        max_funcs: 3,
        body: (2, 10),
        globals: 5,
        table: 4,
        indirect: 2,
        refs: 2,
        mem: 4,
        bulk: 2,
        quiet_mems: true,
        mem64: 100,
        idioms: 1,
        start: 0,
        trap: 10,
        ..Prof::default()
    };
    if s.chance(1, 3) {
        // a long life with much else going on
        let plan = Plan { prof, host_funcs: 2, host_items: 3, steps: (8, 20), w_inst: 5, w_item: 5, max_insts: 8, ..Plan::default() };
        return crate::world::oracle_case("I03", plan, Variant::any(s), s, cx, |_, w| w.loaded.len() + w.items as usize >= 5);
    }
    let plan = Plan { prof, host_funcs: 3, host_items: 5, ..Plan::default() };
    let mut a = World::new("I03", plan.clone(), Variant::flat());
    let r = i03_build(&mut a, s, cx);
    if r.is_err() {
        return finish(a, r, s, cx, |_, _| false);
    }
    let gone = s.chance(1, 4);
    let g = given(&a);
    let mut g = Some(g);
    let mut a = Some(a);
    if gone {
        // the other store does not even exist any more
        a = None;
    }
    let mut b = World::new("I03", plan, Variant::any(s));
    if gone {
        b.note("(the handles' own store was dropped)".into());
    }
    let r = i03_build(&mut b, s, cx).and_then(|_| {
        for _ in 0..s.range(3, 12) {
            match (&mut a, s.bool()) {
                (Some(a), true) => {
                    // the other way round
                    let gb = given(&b);
                    foreign(a, &gb, s, cx)?;
                }
                _ => foreign(&mut b, g.as_ref().unwrap(), s, cx)?,
            }
            b.check("after using another store's handle")?;
            if let Some(a) = &mut a {
                a.check("after using another store's handle")?;
            }
            b.host_ops += 1;
        }
        g = None;
        // both are in working order
        for _ in 0..s.below(3) {
            b.step(s, cx)?;
            if let Some(a) = &mut a {
                a.step(s, cx)?;
            }
        }
        Ok(())
    });
    finish(b, r, s, cx, |_, w| w.host_ops >= 3)
}

fn i03_build(w: &mut World, s: &mut Src, cx: &mut Cx) -> R {
    w.setup(s)?;
    w.plan.post = Some(|s, made| {
        for t in [FT::default(), ft(&[VT::I32], &[VT::I32])] {
            if s.bool() {
                let i = made.m.n_funcs();
                let ty = made.m.ty(t.clone());
                made.m.funcs.push(Func { ty, locals: vec![], body: t.p.iter().map(|_| In::LGet(0)).collect() });
                made.m.export(format!("f{i}"), Kind::Func, i);
            }
        }
    });
    for _ in 0..s.range(1, 2) {
        w.gen_inst(s, cx)?;
    }
    Ok(())
}

/// Use a handle of another store (given in `g`) with the store of `w`, which must refuse.
fn foreign(w: &mut World, g: &Given, s: &mut Src, cx: &mut Cx) -> R {
    let mut what = String::new();
    // Ok(text): the use was accepted
    let r: Result<Result<(), String>, String> = {
        let st = &mut w.tw.store;
        macro_rules! tri {
            ($n:expr, $e:expr) => {{
                what = $n.to_string();
                guarded(|| $e.map(|_| ()).map_err(|e| e.to_string()))
            }};
        }
        let small = s.below(9) as usize;
        let n = *s.pick(&[0usize, 1, 4]);
        match s.weighted(&[
            if g.mems.is_empty() { 0 } else { 4 },
            if g.tabs.is_empty() { 0 } else { 3 },
            if g.globs.is_empty() { 0 } else { 3 },
            if g.funcs.is_empty() { 0 } else { 4 },
            if g.insts.is_empty() { 0 } else { 4 },
            4,
            if g.typed.is_empty() { 0 } else { 2 },
            if g.typed1.is_empty() { 0 } else { 2 },
        ]) {
            6 => {
                let f = s.pick(&g.typed);
                match s.below(2) {
                    0 => tri!("FunctionTyped::call", f.call(st, ())),
                    _ => tri!("FunctionTyped::call_resumable", f.call_resumable(st, ())),
                }
            }
            7 => {
                let f = s.pick(&g.typed1);
                match s.below(2) {
                    0 => tri!("FunctionTyped::call", f.call(st, 3)),
                    _ => tri!("FunctionTyped::call_resumable", f.call_resumable(st, 3)),
                }
            }
            0 => {
                let m = s.pick(&g.mems).0;
                let mut buf = vec![0u8; n];
                match s.below(21) {
                    0 => tri!("Memory::len", m.len(st)),
                    1 => tri!("Memory::ty", m.ty(st)),
                    2 => tri!("Memory::page_count", m.page_count(st)),
                    3 => tri!("Memory::read", m.read(st, small, &mut buf)),
                    4 => tri!("Memory::write", m.write(st, small, &buf)),
                    5 => tri!("Memory::read_exact", m.read_exact(st, small, &mut buf)),
                    6 => tri!("Memory::read_vec", m.read_vec(st, small, n)),
                    7 => tri!("Memory::grow", m.grow(st, n as i64)),
                    8 => tri!("Memory::copy_within", m.copy_within(st, small, 0, n)),
                    9 => tri!("Memory::fill", m.fill(st, small, n, 7)),
                    10 => tri!("Memory::copy_from_slice", m.copy_from_slice(st, small, &buf)),
                    11 => tri!("Memory::write_cstring", m.write_cstring(st, small, &c"ab".to_owned())),
                    12 => tri!("Memory::write_cstring_bytes", m.write_cstring_bytes(st, small, "ab")),
                    13 => tri!("Memory::read_cstring", m.read_cstring(st, small, n)),
                    14 => tri!("Memory::read_cstring_until_null", m.read_cstring_until_null(st, small, 9)),
                    15 => tri!("Memory::read_string", m.read_string(st, small, n)),
                    16 => tri!("Memory::read_js_string", m.read_js_string(st, small, n)),
                    #[cfg(feature = "full")]
                    17 => tri!("Memory::cursor", m.cursor(st)),
                    #[cfg(feature = "full")]
                    18 => tri!("Memory::cursor_at", m.cursor_at(st, small as u64)),
                    19 => tri!("Memory::grow by 0", m.grow(st, 0)),
                    _ => tri!("Memory::read of nothing", m.read(st, 0, &mut [])),
                }
            }
            1 => {
                let (t, ty, _) = *s.pick(&g.tabs);
                let v = WasmValue::default_for(crate::tw::wt(ty.el));
                let i = small as u32 / 2;
                match s.below(8) {
                    0 => tri!("Table::ty", t.ty(st)),
                    1 => tri!("Table::size", t.size(st)),
                    2 => tri!("Table::get", t.get(st, i)),
                    3 => tri!("Table::load", t.load(st, small, n)),
                    4 => tri!("Table::set", t.set(st, i, v)),
                    5 => tri!("Table::copy_within", t.copy_within(st, 0, small, n)),
                    6 => tri!("Table::grow", t.grow(st, n as i32, v)),
                    _ => tri!("Table::load of nothing", t.load(st, 0, 0)),
                }
            }
            2 => {
                let (x, ty) = *s.pick(&g.globs);
                let v = WasmValue::default_for(crate::tw::wt(ty.t));
                match s.below(3) {
                    0 => tri!("Global::ty", x.ty(st)),
                    1 => tri!("Global::get", x.get(st)),
                    _ => tri!("Global::set", x.set(st, v)),
                }
            }
            3 => {
                let (f, ty) = s.pick(&g.funcs).clone();
                let args: Vec<WasmValue> = ty.p.iter().map(|t| WasmValue::default_for(crate::tw::wt(*t))).collect();
                match s.below(4) {
                    0 => tri!("Function::call", f.call(st, &args)),
                    1 => tri!("Function::call_resumable", f.call_resumable(st, &args)),
                    2 => {
                        what = "FuncContext::call_untyped".into();
                        let seen: Rc<RefCell<Option<Result<(), String>>>> = Default::default();
                        let seen2 = seen.clone();
                        let host = HostFunction::from_untyped(st, &FuncType::new(&[], &[]), move |mut ctx, _| {
                            let r = ctx.call_untyped(&f, &args);
                            *seen2.borrow_mut() = Some(r.map(|_| ()).map_err(|e| e.to_string()));
                            Ok(vec![])
                        });
                        match guarded(|| host.call(st, &[])) {
                            Ok(Ok(_)) => Ok(seen.borrow_mut().take().unwrap_or(Err("not called".into()))),
                            Ok(Err(e)) => Ok(Err(e.to_string())),
                            Err(p) => Err(p),
                        }
                    }
                    _ => {
                        what = "handles used inside a host function".into();
                        let seen: Rc<RefCell<Vec<&'static str>>> = Default::default();
                        let seen2 = seen.clone();
                        let (mm, tt, gg) = (g.mems.first().map(|x| x.0), g.tabs.first().map(|x| x.0), g.globs.first().map(|x| x.0));
                        let host = HostFunction::from_untyped(st, &FuncType::new(&[], &[]), move |mut ctx, _| {
                            let mut l = seen2.borrow_mut();
                            if mm.is_some_and(|m| m.fill(ctx.store_mut(), 0, 1, 9).is_ok() || m.len(ctx.store()).is_ok()) {
                                l.push("memory");
                            }
                            if tt.is_some_and(|m| m.size(&ctx).is_ok()) {
                                l.push("table");
                            }
                            if gg.is_some_and(|m| m.get(&ctx).is_ok()) {
                                l.push("global");
                            }
                            Ok(vec![])
                        });
                        match guarded(|| host.call(st, &[])) {
                            Ok(Ok(_)) if !seen.borrow().is_empty() => Ok(Ok(())),
                            Ok(_) => Ok(Err(String::new())),
                            Err(p) => Err(p),
                        }
                    }
                }
            }
            4 => {
                let (i, m) = s.pick(&g.insts).clone();
                let f = m.exports.iter().find(|e| e.kind == Kind::Func).map(|e| e.name.clone()).unwrap_or_default();
                let gl = m.exports.iter().find(|e| e.kind == Kind::Glob).cloned();
                match s.below(8) {
                    0 => tri!("ModuleInstance::func_untyped", i.func_untyped(st, &f)),
                    1 => tri!("ModuleInstance::func", i.func::<(), ()>(st, &f)),
                    2 => tri!("ModuleInstance::start_func", i.start_func(st)),
                    3 => tri!("ModuleInstance::start", i.start(st)),
                    4 if gl.is_some() => tri!("ModuleInstance::global_get", i.global_get(st, &gl.unwrap().name)),
                    5 if gl.is_some() => {
                        let e = gl.unwrap();
                        let v = WasmValue::default_for(crate::tw::wt(m.all_globs()[e.idx as usize].t));
                        tri!("ModuleInstance::global_set", i.global_set(st, &e.name, v))
                    }
                    #[cfg(feature = "dbg")]
                    6 => tri!("ModuleInstance::func_by_index", i.func_by_index(st, 0)),
                    _ => {
                        // an exported handle of the instance, then used
                        what = "a handle from ModuleInstance::exports".into();
                        let items: Vec<ExternItem> = i.exports().map(|x| x.1).collect();
                        if items.is_empty() {
                            return Ok(());
                        }
                        let k = s.usize(items.len());
                        match &items[k] {
                            ExternItem::Func(f) => {
                                let args: Vec<WasmValue> =
                                    m.func_ty(m.exports[k].idx).p.iter().map(|t| WasmValue::default_for(crate::tw::wt(*t))).collect();
                                guarded(|| f.call(st, &args).map(|_| ()).map_err(|e| e.to_string()))
                            }
                            ExternItem::Memory(m) => guarded(|| m.fill(st, 0, 1, 1).map_err(|e| e.to_string())),
                            ExternItem::Table(m) => guarded(|| m.size(st).map(|_| ()).map_err(|e| e.to_string())),
                            ExternItem::Global(m) => guarded(|| m.get(st).map(|_| ()).map_err(|e| e.to_string())),
                        }
                    }
                }
            }
            _ => {
                // as an import of exactly its own type
                let mut m = Module::default();
                let mut im = Imports::new();
                let own: Vec<Ext> = w.avail.iter().map(|a| a.ext).filter(|e| w.tw.extern_of(*e).is_some()).collect();
                if !own.is_empty() && s.bool() {
                    let e = *s.pick(&own);
                    let d = desc_of(w, &mut m, e);
                    im.define("own", "x", w.tw.extern_of(e).unwrap());
                    m.imports.push(Import { module: "own".into(), name: "x".into(), desc: d });
                }
                let st = &mut w.tw.store;
                let lim = |s: &mut Src, n: u64| if s.bool() { 0 } else { n };
                let desc = match s.below(5) {
                    0 if !g.funcs.is_empty() => {
                        let (f, t) = s.pick(&g.funcs).clone();
                        im.define("a", "b", f);
                        Desc::Func(m.ty(t))
                    }
                    1 if !g.mems.is_empty() => {
                        let (x, t, n) = *s.pick(&g.mems);
                        im.define("a", "b", x);
                        Desc::Mem(MemTy { min: lim(s, n), ..t })
                    }
                    2 if !g.tabs.is_empty() => {
                        let (x, t, n) = *s.pick(&g.tabs);
                        im.define("a", "b", x);
                        Desc::Tab(TabTy { min: lim(s, n), ..t })
                    }
                    3 if !g.globs.is_empty() => {
                        let (x, t) = *s.pick(&g.globs);
                        im.define("a", "b", x);
                        Desc::Glob(t)
                    }
                    _ => {
                        let Some((i, gm)) = (if g.insts.is_empty() { None } else { Some(s.pick(&g.insts)) }) else { return Ok(()) };
                        let _ = im.link_module("a", i.clone());
                        let e = s.pick(&gm.exports).clone();
                        what = format!("link_module, export {}", e.name);
                        let d = match e.kind {
                            Kind::Func => Desc::Func(m.ty(gm.func_ty(e.idx).clone())),
                            Kind::Tab => Desc::Tab(TabTy { min: 0, max: None, ..gm.all_tabs()[e.idx as usize] }),
                            Kind::Mem => Desc::Mem(MemTy { min: 0, max: None, ..gm.all_mems()[e.idx as usize] }),
                            Kind::Glob => Desc::Glob(gm.all_globs()[e.idx as usize]),
                        };
                        m.imports.push(Import { module: "a".into(), name: e.name, desc: d.clone() });
                        d
                    }
                };
                if what.is_empty() {
                    m.imports.push(Import { module: "a".into(), name: "b".into(), desc: desc.clone() });
                }
                what = format!("import of {desc:?} {what}");
                let wasm = crate::tw::encode(&m);
                let tm = match w.tw.v.load(&wasm) {
                    Ok(t) => t,
                    Err(e) => return w.bad("valid module rejected", format!("{e}\n{}\n{}", hex(&wasm), show_module(&m))),
                };
                guarded(|| ModuleInstance::instantiate(st, &tm, Some(im)).map(|_| ()).map_err(|e| e.to_string()))
            }
        }
    };
    w.note(format!("{what} with a handle of another store"));
    cx.label_n("uses of another store's handles", 1);
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => {
            let k: String = what.chars().take_while(|c| *c != '(').collect();
            w.bad(format!("accepted: {k}"), format!("{what} with a handle of another store succeeded"))
        }
        Err(p) => w.bad(panic_sig(&p), format!("{what} with a handle of another store: panic: {p}")),
    }
}

// ------------------------------------------------------------------------------------------ R01

pub const R01: Prop = Prop {
    id: "R01",
    quick: 250_000,
    thorough: 6_000_000,
    rule: "the module has at least two exports or imports",
    assumptions: A,
    case: r01,
    probes: &[],
};

fn r01(s: &mut Src, cx: &mut Cx) -> R {
    let p = Prof { mem: 4, table: 4, refs: 2, mem64: 300, t64: 300, custom_page: 250, ..Prof::default() };
    let route = match s.below(5) {
        0 => Route::Archive,
        1 => Route::Stream(s.range(1, 50) as usize),
        _ => Route::Bytes,
    };
    let v = Variant { route, rewrite: s.chance(3, 4), lazy: s.chance(3, 4), ..Variant::flat() };
    let mut w = World::new("R01", Plan { prof: p, host_funcs: 3, host_items: 5, ..Plan::default() }, v);
    let r = r01_run(&mut w, s, cx);
    finish(w, r, s, cx, |_, w| w.loaded.iter().any(|l| l.m.imports.len() + l.m.exports.len() >= 2))
}

fn r01_run(w: &mut World, s: &mut Src, cx: &mut Cx) -> R {
    w.setup(s)?;
    let p = w.plan.prof.clone();
    let avail: Vec<Ext> = w.avail.iter().map(|a| a.ext).collect();
    let mut m = Module::default();
    let mut exts = vec![];
    for _ in 0..s.below(6) {
        let Some(e) = (if avail.is_empty() { None } else { Some(*s.pick(&avail)) }) else { break };
        let desc = desc_of(w, &mut m, e);
        let (mut module, mut name) = (super::names::name(s), super::names::name(s));
        if let Some(old) = m.imports.iter().position(|i| i.module == module && i.name == name) {
            // one definition per name
            if exts[old] != e {
                module = format!("{module}{}", m.imports.len());
                name = "z".into();
            }
        } else if !m.imports.is_empty() && s.chance(1, 6) {
            // the same import twice
            let k = s.usize(m.imports.len());
            let im = m.imports[k].clone();
            m.imports.push(im);
            exts.push(exts[k]);
            continue;
        }
        if m.imports.iter().any(|i| i.module == module && i.name == name) {
            continue;
        }
        m.imports.push(Import { module, name, desc });
        exts.push(e);
    }
    if !m.imports.is_empty() && s.chance(1, 40) {
        for _ in 0..s.range(50, 300) {
            let k = s.usize(m.imports.len());
            let im = m.imports[k].clone();
            // no more memories and tables than a module may have
            if matches!(im.desc, Desc::Func(_) | Desc::Glob(_)) {
                m.imports.push(im);
                exts.push(exts[k]);
            }
        }
    }
    // items that can be told apart
    for i in 0..s.below(5) {
        let t = modgen::func_type(s, &p);
        let body = t.r.iter().map(|r| konst_id(*r, i)).collect();
        let ty = m.ty(t);
        m.funcs.push(Func { ty, locals: vec![], body });
    }
    let limits = |s: &mut Src, min: u64| (min, if s.bool() { Some(min + s.below(4)) } else { None });
    for i in 0..s.below(4) {
        let (min, max) = limits(s, i + 1);
        m.tables.push((TabTy { t64: s.chance(1, 4), el: *s.pick(&[VT::Func, VT::Extern]), min, max }, None));
    }
    for i in 0..s.below(4) {
        let page = *s.pick(&[None, None, Some(16), Some(0)]);
        let (min, max) = limits(s, if page == Some(0) { 100 + i } else { i });
        m.mems.push(MemTy { m64: s.chance(1, 4), min, max, page });
    }
    for i in 0..s.below(5) {
        let t = modgen::vt(s, &p);
        m.globals.push((GlobTy { t, m: s.bool() }, vec![konst_id(t, i)]));
    }
    let mi = m.n_imp(Kind::Mem);
    for (i, t) in m.mems.clone().iter().enumerate() {
        if t.min > 0 && s.chance(3, 4) {
            let off = vec![if t.m64 { In::I64(1) } else { In::I32(1) }];
            m.datas.push(Data { active: Some((mi + i as u32, off)), bytes: vec![i as u8 + 1] });
        }
    }
    let mut items: Vec<(Kind, u32)> = vec![];
    items.extend((0..m.n_funcs()).map(|i| (Kind::Func, i)));
    items.extend((0..m.all_tabs().len() as u32).map(|i| (Kind::Tab, i)));
    items.extend((0..m.all_mems().len() as u32).map(|i| (Kind::Mem, i)));
    items.extend((0..m.all_globs().len() as u32).map(|i| (Kind::Glob, i)));
    for _ in 0..s.below(9) {
        if items.is_empty() {
            break;
        }
        let (kind, idx) = *s.pick(&items);
        let mut name = super::names::name(s);
        if let Some(e) = (if m.exports.is_empty() { None } else { Some(s.pick(&m.exports).clone()) })
            && s.chance(1, 4)
        {
            // close to an existing name
            name = match s.below(4) {
                0 => e.name.to_uppercase(),
                1 => format!("{} ", e.name),
                2 => format!("{}\0", e.name),
                _ => e.name.chars().skip(1).collect(),
            };
        }
        if m.exports.iter().any(|e| e.name == name) {
            continue;
        }
        m.exports.push(Export { name, kind, idx });
    }
    if s.chance(1, 4) {
        m.customs.push((s.below(13) as u8, super::names::name(s), vec![1]));
    }
    if s.chance(1, 40) {
        let big = s.chance(1, 20);
        crate::stretch::stretch(s, &mut m, None, big);
        if s.bool() {
            // many exports
            for k in 0..s.range(50, 300) {
                let Some(e) = (if m.exports.is_empty() { None } else { Some(s.pick(&m.exports).clone()) }) else { break };
                m.export(format!("x{k}"), e.kind, e.idx);
            }
        }
    }
    let ty_of = |d: &Desc| match d {
        Desc::Func(t) => show_func(&fty(&m.types[*t as usize])),
        Desc::Tab(t) => tab_text(t),
        Desc::Mem(t) => mem_text(t),
        Desc::Glob(t) => glob_text(t),
    };
    let ex_ty = |k: Kind, i: u32| match k {
        Kind::Func => show_func(&fty(m.func_ty(i))),
        Kind::Tab => tab_text(&m.all_tabs()[i as usize]),
        Kind::Mem => mem_text(&m.all_mems()[i as usize]),
        Kind::Glob => glob_text(&m.all_globs()[i as usize]),
    };
    let want_i: Vec<(String, String, String)> = m.imports.iter().map(|i| (i.module.clone(), i.name.clone(), ty_of(&i.desc))).collect();
    let want_e: Vec<(String, String)> = m.exports.iter().map(|e| (e.name.clone(), ex_ty(e.kind, e.idx))).collect();
    let exports = m.exports.clone();
    let li = w.load(m, exts, u32::MAX)?;
    let tm = w.loaded[li].tm.clone();
    w.note(format!("loaded {li} through {:?}", w.tw.v.route));
    let (gi, ge) = match guarded(|| crate::tw::listing(&tm)) {
        Ok(x) => x,
        Err(p) => return w.bad(panic_sig(&p), format!("panic while listing: {p}")),
    };
    if gi != want_i {
        return w.bad("import listing", format!("expected {want_i:?}\ngot {gi:?}"));
    }
    if ge != want_e {
        return w.bad("export listing", format!("expected {want_e:?}\ngot {ge:?}"));
    }
    w.instantiate(cx, li)?;
    let Some(&(mi, _)) = w.live.last() else { return w.bad("instantiation", "instantiation of a module of constants failed") };
    let inst = w.tw.insts[mi].clone().unwrap();
    w.completed += 1;
    // the instance's listing
    let list = match guarded(|| inst.exports().map(|(n, i)| (n.to_string(), i)).collect::<Vec<_>>()) {
        Ok(l) => l,
        Err(p) => return w.bad(panic_sig(&p), p),
    };
    let names: Vec<&String> = list.iter().map(|x| &x.0).collect();
    if names != exports.iter().map(|e| &e.name).collect::<Vec<_>>() {
        return w.bad("instance listing", format!("got {names:?}"));
    }
    for ((_, item), e) in list.iter().zip(&exports) {
        denotes(w, s, mi, e, item, "listed")?;
    }
    // look up every name, and names that do not exist, as every kind
    let mut names: Vec<String> = exports.iter().map(|e| e.name.clone()).collect();
    for _ in 0..3 {
        names.push(match s.below(4) {
            0 if !names.is_empty() => format!("{}x", s.pick(&names)),
            1 if !names.is_empty() => s.pick(&names).to_uppercase(),
            _ => super::names::name(s),
        });
    }
    for n in &names {
        let e = exports.iter().find(|e| e.name == *n);
        let k = e.map(|e| e.kind);
        cx.label_n("names looked up", 1);
        let st = &w.tw.store;
        let r = guarded(|| {
            (
                inst.extern_item(n),
                inst.func_untyped(st, n),
                inst.table(n),
                inst.memory(n),
                inst.global(n),
                inst.global_get(st, n).is_ok(),
                inst.export_addr(n),
                inst.func::<(), (f64, f64, f64, f64, f64)>(st, n).is_ok(),
            )
        });
        let (item, f, t, mm, g, gget, addr, typed) = match r {
            Ok(x) => x,
            Err(p) => return w.bad(panic_sig(&p), format!("panic while looking up {n:?}: {p}")),
        };
        let kinds = [
            (item.is_ok(), e.is_some(), "extern_item"),
            (addr.is_some(), e.is_some(), "export_addr"),
            (f.is_ok(), k == Some(Kind::Func), "func_untyped"),
            (t.is_ok(), k == Some(Kind::Tab), "table"),
            (mm.is_ok(), k == Some(Kind::Mem), "memory"),
            (g.is_ok(), k == Some(Kind::Glob), "global"),
            (gget, k == Some(Kind::Glob), "global_get"),
        ];
        for (got, want, what) in kinds {
            if got != want {
                return w.bad(format!("lookup: {what}"), format!("{what}({n:?}) succeeded: {got}, expected {want} (exported as {k:?})"));
            }
        }
        let five = k == Some(Kind::Func) && {
            let t = w.loaded[li].m.func_ty(e.unwrap().idx);
            t.p.is_empty() && t.r == [VT::F64; 5]
        };
        if typed != five {
            return w.bad("lookup: func", format!("func({n:?}) with type [] -> [f64 x 5] succeeded: {typed}, expected {five}"));
        }
        let Some(e) = e else { continue };
        denotes(w, s, mi, e, &item.unwrap(), "extern_item")?;
        if let Ok(x) = f {
            denotes(w, s, mi, e, &ExternItem::Func(x), "func_untyped")?;
        }
        if let Ok(x) = t {
            denotes(w, s, mi, e, &ExternItem::Table(x), "table")?;
        }
        if let Ok(x) = mm {
            denotes(w, s, mi, e, &ExternItem::Memory(x), "memory")?;
        }
        if let Ok(x) = g {
            denotes(w, s, mi, e, &ExternItem::Global(x), "global")?;
        }
    }
    #[cfg(feature = "dbg")]
    by_index(w, s, mi, &inst)?;
    w.check("after looking everything up")
}

#[cfg(feature = "dbg")]
fn by_index(w: &mut World, s: &mut Src, mi: usize, inst: &ModuleInstance) -> R {
    let i = w.ms.insts[mi].clone();
    for (kind, n) in [(Kind::Func, i.funcs.len()), (Kind::Tab, i.tabs.len()), (Kind::Mem, i.mems.len()), (Kind::Glob, i.globs.len())] {
        for idx in 0..n as u32 + 1 {
            let st = &w.tw.store;
            let r = guarded(|| match kind {
                Kind::Func => inst.func_by_index(st, idx).map(ExternItem::Func),
                Kind::Tab => inst.table_by_index(idx).map(ExternItem::Table),
                Kind::Mem => inst.memory_by_index(idx).map(ExternItem::Memory),
                Kind::Glob => inst.global_by_index(idx).map(ExternItem::Global),
            });
            match r {
                Err(p) => return w.bad(panic_sig(&p), p),
                Ok(Err(_)) if idx == n as u32 => {}
                Ok(Ok(x)) if idx < n as u32 => denotes(w, s, mi, &Export { name: String::new(), kind, idx }, &x, "index")?,
                Ok(r) => return w.bad("lookup: index", format!("{kind:?} {idx} of {n}: found {}", r.is_ok())),
            }
        }
    }
    Ok(())
}

fn konst_id(t: VT, i: u64) -> In {
    let b = i + 1;
    match t {
        VT::I32 => In::I32(b as u32),
        VT::I64 => In::I64(b << 33),
        VT::F32 => In::F32((b as f32).to_bits()),
        VT::F64 => In::F64((b as f64 * 1.5).to_bits()),
        VT::V128 => In::V128((b as u128) << 70),
        t => In::RefNull(t),
    }
}

fn tab_text(t: &TabTy) -> String {
    format!("table {:?} {} {:?}{}", t.el, t.min, t.max, if t.t64 { " i64" } else { "" })
}
fn mem_text(t: &MemTy) -> String {
    // without a declared maximum, the largest memory tinywasm supports is reported
    let cap = (1u64 << 32) / t.page_size();
    let max = t.max.unwrap_or(cap);
    format!("memory {} {} page {}{}", t.min, max, t.page_size(), if t.m64 { " i64" } else { "" })
}
fn glob_text(t: &GlobTy) -> String {
    format!("global {:?}{}", t.t, if t.m { " mut" } else { "" })
}

/// Is `item` the object exported as `e` by model instance `mi`?
fn denotes(w: &mut World, s: &mut Src, mi: usize, e: &Export, item: &ExternItem, how: &str) -> R {
    let x = w.ms.ext_of(mi, e.kind, e.idx);
    let st = &mut w.tw.store;
    let bad = match (x, item) {
        (Ext::Func(a), ExternItem::Func(f)) => {
            let ty = w.ms.funcs[a].ty.clone();
            // host functions are not called here
            if !matches!(*w.ms.funcs[a].code, crate::model::Code::Wasm { .. }) {
                return Ok(());
            }
            let args: Vec<Val> = ty.p.iter().map(|t| if t.is_ref() { Val::default() } else { value(s, *t) }).collect();
            let h = w.tw.h.borrow();
            let wargs: Vec<WasmValue> = args.iter().zip(&ty.p).map(|(v, t)| h.to_wv(*t, *v)).collect();
            let m = match w.ms.call(a, args) {
                Ok(v) => v,
                Err(Er::Stop(s)) => return Err(s),
                Err(Er::Trap(_)) => return Ok(()),
            };
            match guarded(|| f.call(st, &wargs)) {
                Ok(Ok(r)) if r.len() == m.len() && r.iter().zip(&m).zip(&ty.r).all(|((r, m), t)| h.agree(*t, *m, r)) => None,
                r => Some(format!("a call returned {:?}", r.map(|r| r.map_err(|e| e.to_string())))),
            }
        }
        (Ext::Tab(a), ExternItem::Table(t)) => {
            let m = &w.ms.tabs[a];
            match guarded(|| (t.ty(st), t.size(st))) {
                Ok((Ok(ty), Ok(n))) if n == m.el.len() && crate::tw::show_table(&ty) == tab_text(&m.ty) => None,
                r => Some(format!("{:?}", r.map(|r| (r.0.map(|t| crate::tw::show_table(&t)).ok(), r.1.ok())))),
            }
        }
        (Ext::Mem(a), ExternItem::Memory(t)) => {
            let m = &w.ms.mems[a];
            let mut b = [0u8; 2];
            let k = m.len().min(2) as usize;
            match guarded(|| (t.ty(st), t.len(st), t.read_exact(st, 0, &mut b[..k]).is_ok())) {
                Ok((Ok(ty), Ok(n), true))
                    if n as u64 == m.len() && crate::tw::show_memory(&ty) == mem_text(&m.ty) && m.read(0, k as u64) == b[..k] =>
                {
                    None
                }
                r => Some(format!("{:?}", r.map(|r| (r.0.map(|t| crate::tw::show_memory(&t)).ok(), r.1.ok(), b)))),
            }
        }
        (Ext::Glob(a), ExternItem::Global(g)) => {
            let m = &w.ms.globs[a];
            let h = w.tw.h.borrow();
            match guarded(|| (g.ty(st), g.get(st))) {
                Ok((Ok(ty), Ok(v))) if h.agree(m.ty.t, m.v, &v) && crate::tw::show_global(&ty) == glob_text(&m.ty) => None,
                r => Some(format!("{:?}", r.map(|r| (r.0.map(|t| crate::tw::show_global(&t)).ok(), r.1.ok())))),
            }
        }
        _ => Some("it is of another kind".into()),
    };
    match bad {
        None => Ok(()),
        Some(d) => {
            w.bad(format!("denotes: {how}"), format!("export {:?} ({:?} {}) found through {how} is not that object: {d}", e.name, e.kind, e.idx))
        }
    }
}
