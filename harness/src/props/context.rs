//! Part of H01: which module instance a host function works for.

use crate::ir::*;
use crate::runner::{Cx, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::encode;
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::types::WasmValue;
use tinywasm::{Error, ExecProgress, ExternItem, FuncContext, Function, FunctionTyped, HostFunction, Imports, ModuleInstance, Store};

/// How a function of an instance is obtained and called.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    Untyped,
    Item,
    Listing,
    Index,
    Typed,
    TypedIndex,
    Resumable,
}

#[derive(Clone, Copy, Debug)]
struct Hop {
    inst: usize,
    /// through a guest function that calls the host function
    guest: bool,
    route: Route,
}

/// What the host function saw: (which hop, before or after the nested call, instance number, global, pages, table size)
type Seen = (i32, bool, u32, i32, usize, usize);

#[derive(Clone)]
enum Handle {
    Plain(Function),
    Typed(Rc<FunctionTyped<i32, i32>>),
}

#[derive(Default)]
struct Log {
    seen: Vec<Seen>,
    chain: Vec<Handle>,
    odd: Option<String>,
}

fn look(c: &mut FuncContext<'_>, hop: i32, after: bool, log: &RefCell<Log>) -> Result<(), Error> {
    let id = c.module().id();
    let g = c.global_get("id")?.as_i32().unwrap_or(i32::MIN);
    let pages = c.memory("m")?.page_count(c.store())?;
    let size = c.table("t")?.size(c.store())?;
    if !after {
        c.global_set("cell", WasmValue::I32(g + hop))?;
    }
    let cell = c.global("cell")?;
    match cell.get(c.store())? {
        WasmValue::I32(_) => {}
        v => log.borrow_mut().odd = Some(format!("cell {v:?}")),
    }
    if !matches!(c.extern_item("id")?, ExternItem::Global(_)) || c.memory("id").is_ok() || c.table("m").is_ok() {
        log.borrow_mut().odd = Some("an item of another kind".into());
    }
    log.borrow_mut().seen.push((hop, after, id, g, pages, size));
    Ok(())
}

fn handle(inst: &ModuleInstance, store: &Store, h: &Hop) -> Result<Handle, Error> {
    let name = if h.guest { "guest" } else { "host" };
    #[cfg(feature = "dbg")]
    let index = if h.guest { 2 } else { 0 };
    let is_func = |i: ExternItem| match i {
        ExternItem::Func(f) => Ok(Handle::Plain(f)),
        _ => Err(Error::Other("not listed as a function".into())),
    };
    match h.route {
        Route::Untyped | Route::Resumable => Ok(Handle::Plain(inst.func_untyped(store, name)?)),
        Route::Item => is_func(inst.extern_item(name)?),
        Route::Listing => {
            let item = inst.exports().find(|e| e.0 == name).map(|e| e.1);
            is_func(item.ok_or_else(|| Error::Other("not listed".into()))?)
        }
        #[cfg(feature = "dbg")]
        Route::Index => Ok(Handle::Plain(inst.func_by_index(store, index)?)),
        Route::Typed => Ok(Handle::Typed(Rc::new(inst.func::<i32, i32>(store, name)?))),
        #[cfg(feature = "dbg")]
        Route::TypedIndex => Ok(Handle::Typed(Rc::new(inst.func_typed_by_index::<i32, i32>(store, index)?))),
        #[cfg(not(feature = "dbg"))]
        Route::Index | Route::TypedIndex => handle(inst, store, &Hop { route: Route::Typed, ..*h }),
    }
}

fn module(s: &mut Src, k: usize, start: u32) -> Module {
    let mut m = Module::default();
    let (tf, ts) = (m.ty(FT { p: vec![VT::I32], r: vec![VT::I32] }), m.ty(FT::default()));
    m.imports.push(Import { module: "h".into(), name: "host".into(), desc: Desc::Func(tf) });
    m.imports.push(Import { module: "h".into(), name: "start".into(), desc: Desc::Func(ts) });
    let mut body = vec![In::LGet(0)];
    match s.below(3) {
        0 => body.push(In::Call(0)),
        1 => body.push(In::RetCall(0)),
        _ => body.extend([In::Call(0), In::I32(0), In::Op(0x6a)]),
    }
    m.funcs.push(Func { ty: tf, locals: vec![], body });
    m.funcs.push(Func { ty: ts, locals: vec![], body: vec![In::Call(1)] });
    m.tables.push((TabTy { t64: false, el: VT::Func, min: 3 + k as u64, max: None }, None));
    m.mems.push(MemTy { m64: false, min: 1 + k as u64, max: None, page: None });
    m.globals.push((GlobTy { t: VT::I32, m: false }, vec![In::I32(1000 * (k as u32 + 1))]));
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    let mut ex = vec![("host", Kind::Func, 0), ("guest", Kind::Func, 2), ("m", Kind::Mem, 0), ("t", Kind::Tab, 0)];
    ex.extend([("id", Kind::Glob, 0), ("cell", Kind::Glob, 1)]);
    let r = s.usize(ex.len());
    ex.rotate_left(r);
    for (n, kind, i) in ex {
        m.export(n, kind, i);
    }
    m.start = match start {
        0 => None,
        1 => Some(1),
        _ => Some(3),
    };
    m
}

/// A host function sees the exports of the instance that called it, or through which it was obtained.
pub fn h01_context(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.range(1, 4) as usize;
    let log: Rc<RefCell<Log>> = Rc::default();
    let mut store = Store::default();
    let mut story = String::new();
    let l = log.clone();
    let host = HostFunction::from(&mut store, move |mut c: FuncContext<'_>, hop: i32| -> tinywasm::Result<i32> {
        look(&mut c, hop, false, &l)?;
        let next = l.borrow().chain.get(hop as usize + 1).cloned();
        match next {
            Some(Handle::Plain(f)) => drop(c.call_untyped(&f, &[WasmValue::I32(hop + 1)])?),
            Some(Handle::Typed(f)) => drop(c.call(&f, hop + 1)?),
            None => {}
        }
        look(&mut c, hop, true, &l)?;
        Ok(hop * 3)
    });
    let l = log.clone();
    let started = HostFunction::from(&mut store, move |mut c: FuncContext<'_>, (): ()| -> tinywasm::Result<()> { look(&mut c, -1, false, &l) });
    let mut insts: Vec<ModuleInstance> = vec![];
    let mut numbers = vec![];
    let seen =
        |k: usize, insts: &[ModuleInstance], hop: i32, after: bool| -> Seen { (hop, after, insts[k].id(), 1000 * (k as i32 + 1), k + 1, k + 3) };
    for k in 0..n {
        let start = s.below(3) as u32;
        let m = module(s, k, start);
        let mut im = Imports::new();
        im.define("h", "start", started.clone());
        // the host function itself, or as an earlier instance exports it
        let from = s.below(k as u64 + 1) as usize;
        let f = if from < k { insts[from].func_untyped(&store, "host") } else { Ok(host.clone()) };
        let Ok(f) = f else { return fail("exported host function not found", story) };
        im.define("h", "host", f);
        story += &format!("instance {k}: start {start}, host function from {from}\n");
        let Ok(tm) = tinywasm::parse_bytes(&encode(&m)) else { return fail("valid module rejected", story) };
        let late = s.chance(1, 3);
        let r = guarded(|| {
            if late {
                ModuleInstance::instantiate_no_start(&mut store, &tm, Some(im))
            } else {
                ModuleInstance::instantiate(&mut store, &tm, Some(im))
            }
        });
        match r {
            Ok(Ok(i)) => insts.push(i),
            Ok(Err(e)) => return fail("instantiation failed", format!("{e}\n{story}")),
            Err(p) => return fail(panic_sig(&p), format!("{p}\n{story}")),
        }
        if late {
            // started by hand
            let i = insts[k].clone();
            let hand = s.bool();
            let r = guarded(|| -> Result<(), Error> {
                if hand {
                    match i.start_func(&store)? {
                        Some(f) => f.call(&mut store, &[]).map(|_| ()),
                        None => Ok(()),
                    }
                } else {
                    i.start(&mut store).map(|_| ())
                }
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail("start failed", format!("{e}\n{story}")),
                Err(p) => return fail(panic_sig(&p), format!("{p}\n{story}")),
            }
        }
        let got = std::mem::take(&mut log.borrow_mut().seen);
        let want = if start == 0 { vec![] } else { vec![seen(k, &insts, -1, false)] };
        if got != want {
            return fail("the start function's module", format!("expected {want:?}, got {got:?}, late {late}\n{story}"));
        }
        if numbers.contains(&insts[k].id()) {
            return fail("two instances with one number", story);
        }
        numbers.push(insts[k].id());
    }
    for (k, i) in insts.iter().enumerate() {
        let same = store.get_module_instance(i.id()).and_then(|x| x.global_get(&store, "id").ok()).and_then(|v| v.as_i32());
        if same != Some(1000 * (k as i32 + 1)) {
            return fail("instance of a store by number", format!("instance {k}, number {}: {same:?}\n{story}", i.id()));
        }
    }
    let calls = s.range(1, 4);
    for _ in 0..calls {
        let hops: Vec<Hop> = (0..s.range(1, 4))
            .map(|_| Hop {
                inst: s.usize(n),
                guest: s.bool(),
                route: *s.pick(&[Route::Untyped, Route::Item, Route::Listing, Route::Index, Route::Typed, Route::TypedIndex, Route::Resumable]),
            })
            .collect();
        story += &format!("call chain {hops:?}\n");
        let mut hs = vec![];
        for h in &hops {
            match handle(&insts[h.inst], &store, h) {
                Ok(x) => hs.push(x),
                Err(e) => return fail("handle", format!("{h:?}: {e}\n{story}")),
            }
        }
        log.borrow_mut().chain = hs.clone();
        let resumable = hops[0].route == Route::Resumable;
        let fuel = *s.pick(&[1u32, 100, 100_000]);
        let r = guarded(|| -> Result<i32, Error> {
            let v = match &hs[0] {
                Handle::Plain(f) if resumable => {
                    let mut x = f.call_resumable(&mut store, &[WasmValue::I32(0)])?;
                    let mut left = 10_000;
                    loop {
                        left -= 1;
                        match x.resume_with_fuel(fuel)? {
                            ExecProgress::Completed(v) => break v,
                            ExecProgress::Suspended if left == 0 => return Err(Error::Other("no progress".into())),
                            ExecProgress::Suspended => {}
                        }
                    }
                }
                Handle::Plain(f) => f.call(&mut store, &[WasmValue::I32(0)])?,
                Handle::Typed(f) => vec![WasmValue::I32(f.call(&mut store, 0)?)],
            };
            match v[..] {
                [WasmValue::I32(v)] => Ok(v),
                _ => Err(Error::Other(format!("results {v:?}"))),
            }
        });
        match r {
            Ok(Ok(0)) => {}
            Ok(Ok(v)) => return fail("result", format!("{v}\n{story}")),
            Ok(Err(e)) => return fail("error", format!("{e}\n{story}")),
            Err(p) => return fail(panic_sig(&p), format!("{p}\n{story}")),
        }
        let got = std::mem::take(&mut log.borrow_mut().seen);
        let mut want: Vec<Seen> = hops.iter().enumerate().map(|(i, h)| seen(h.inst, &insts, i as i32, false)).collect();
        want.extend(hops.iter().enumerate().rev().map(|(i, h)| seen(h.inst, &insts, i as i32, true)));
        if got != want {
            return fail("the module a host function works for", format!("expected {want:?}\ngot {got:?}\n{story}"));
        }
        if let Some(o) = log.borrow_mut().odd.take() {
            return fail("module items seen by a host function", format!("{o}\n{story}"));
        }
        // what was set through the context last
        for (k, inst) in insts.iter().enumerate() {
            if let Some(i) = hops.iter().rposition(|h| h.inst == k) {
                let v = inst.global_get(&store, "cell").ok().and_then(|v| v.as_i32());
                let want = 1000 * (k as i32 + 1) + i as i32;
                if v != Some(want) {
                    return fail("a global set by a host function", format!("instance {k}: expected {want}, got {v:?}\n{story}"));
                }
            }
        }
    }
    log.borrow_mut().chain.clear();
    cx.label("which module a host function works for");
    if n > 1 {
        cx.nontrivial(story.as_bytes());
    }
    cx.sample(|| story.clone());
    Ok(())
}
