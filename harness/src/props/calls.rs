//! Calls across the host boundary: H01, A01, T01.

use crate::ir::*;
use crate::modgen::{self, AvDesc, Prof};
use crate::num::Er;
use crate::runner::{Cx, Prop, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Drive, Variant, out_of, show};
use crate::typed;
use crate::val::*;
use crate::world::{Plan, World, finish, hex, oracle_case, show_module};
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::types::{FuncType, WasmValue};
use tinywasm::{Engine, Error, ExecProgress, FuncContext, HostFunction, Imports, ModuleInstance, Store};

const A: &[&str] = &["the reference model (harness/src/model.rs) states the WebAssembly semantics correctly"];

pub fn drive(s: &mut Src) -> Drive {
    let sl = |s: &mut Src| (0..s.range(1, 4)).map(|_| *s.pick(&[1u32, 2, 100, 128, 129, 400, 5000, u32::MAX])).collect::<Vec<_>>();
    match s.below(6) {
        0..=2 => Drive::Call,
        3 => Drive::Fuel(sl(s)),
        4 => Drive::Time,
        _ => Drive::Mixed(sl(s)),
    }
}

pub const H01: Prop = Prop {
    id: "H01",
    quick: 80_000,
    thorough: 6_000_000,
    rule: "at least 3 calls of host functions were made and compared",
    assumptions: A,
    case: h01,
    probes: &[],
};
fn h01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 24) {
        return super::context::h01_context(s, cx);
    }
    let prof = Prof {
        calls: 14,
        indirect: 4,
        tail: 3,
        table: 1,
        mem: 1,
        bulk: 0,
        simd: 1,
        refs: 2,
        floats: 2,
        control: 2,
        max_funcs: 4,
        body: (8, 30),
        imports: 7,
        start: 100,
        typed: 350,
        prefer_imports: 500,
        ..Prof::default()
    };
    let plan = Plan {
        prof,
        steps: (4, 14),
        w_call: 14,
        w_inst: 3,
        w_mem: 1,
        w_tab: 1,
        w_glob: 1,
        w_item: 1,
        max_insts: 3,
        host_funcs: 6,
        host_items: 3,
        host_fail: 300,
        host_calls: true,
        host_odd: 80,
        typed: true,
        ..Plan::default()
    };
    let mut v = Variant::flat();
    v.drive = drive(s);
    v.name = format!("flat memory, {:?}", v.drive);
    oracle_case("H01", plan, v, s, cx, |c, _| c.host_calls >= 3)
}

// ------------------------------------------------------------------------------------------ A01

pub const A01: Prop = Prop {
    id: "A01",
    quick: 300_000,
    thorough: 6_000_000,
    rule: "at least 3 calls were made, one with a wrong argument list or a typed handle",
    assumptions: A,
    case: a01,
    probes: &[],
};

/// A function type: from the table of typed signatures, small, or with many values.
fn any_type(s: &mut Src, p: &Prof) -> FT {
    match s.below(8) {
        0..=3 => {
            let t = typed::table();
            t[s.usize(t.len())].ty.clone()
        }
        4 => {
            let (np, nr) = (s.below(40), s.below(30));
            FT { p: (0..np).map(|_| modgen::vt(s, p)).collect(), r: (0..nr).map(|_| modgen::vt(s, p)).collect() }
        }
        _ => modgen::func_type(s, p),
    }
}

/// Returns its parameters (in some order, through locals or not) and constants, and counts its calls.
fn echo(s: &mut Src, t: &FT, counter: u32) -> (Vec<VT>, Vec<In>) {
    let mut locals = vec![];
    let mut b = vec![In::GGet(counter), In::I32(1), In::Op(0x6a), In::GSet(counter)];
    if s.chance(1, 4) {
        // operands left below the results
        for _ in 0..s.range(1, 3) {
            let t = *s.pick(&[VT::I32, VT::I64, VT::V128]);
            b.push(modgen::konst(t, modgen::value(s, t)));
        }
    }
    for (i, r) in t.r.iter().enumerate() {
        let c: Vec<u32> = t.p.iter().enumerate().filter(|x| x.1 == r).map(|x| x.0 as u32).collect();
        if c.is_empty() || s.chance(1, 6) {
            b.push(modgen::konst(*r, modgen::value(s, *r)));
            continue;
        }
        let p = if c.contains(&(i as u32)) && s.bool() { i as u32 } else { *s.pick(&c) };
        b.push(In::LGet(p));
        if s.chance(1, 5) {
            let l = (t.p.len() + locals.len()) as u32;
            locals.push(*r);
            b.push(In::LSet(l));
            b.push(In::LGet(l));
        }
    }
    b.push(In::Op(0x0f));
    (locals, b)
}

fn a01(s: &mut Src, cx: &mut Cx) -> R {
    let prof = Prof { floats: 4, simd: 2, refs: 3, mem: 0, bulk: 0, table: 0, indirect: 0, typed: 500, ..Prof::default() };
    let plan = Plan { prof, host_funcs: 3, host_items: 0, host_fail: 0, typed: true, ..Plan::default() };
    let mut v = Variant::flat();
    v.drive = drive(s);
    v.name = format!("flat memory, {:?}", v.drive);
    let mut w = World::new("A01", plan, v);
    let mut odd = 0u64;
    let r = a01_run(&mut w, s, cx, &mut odd);
    if odd == 0 {
        return finish(w, r, s, cx, |_, _| false);
    }
    finish(w, r, s, cx, |_, w| w.completed >= 2)
}

fn a01_run(w: &mut World, s: &mut Src, cx: &mut Cx, odd: &mut u64) -> R {
    w.setup(s)?;
    let p = w.plan.prof.clone();
    let mut m = Module::default();
    let mut exts = vec![];
    for a in w.avail.clone() {
        if let AvDesc::Func(t) = &a.desc {
            let ty = m.ty(t.clone());
            m.imports.push(Import { module: "h".into(), name: format!("f{}", exts.len()), desc: Desc::Func(ty) });
            exts.push(a.ext);
        }
    }
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("n", Kind::Glob, 0);
    for _ in 0..s.range(1, 4) {
        let t = any_type(s, &p);
        let (locals, body) = echo(s, &t, 0);
        let ty = m.ty(t);
        m.funcs.push(Func { ty, locals, body });
    }
    for i in 0..m.n_funcs() {
        m.export(format!("f{i}"), Kind::Func, i);
    }
    let n = m.n_funcs();
    w.inst(cx, m, exts, u32::MAX)?;
    for _ in 0..s.range(2, 8) {
        let f = s.below(n as u64) as u32;
        let a = w.ms.insts[0].funcs[f as usize];
        let ty = w.ms.funcs[a].ty.clone();
        let args: Vec<Val> = ty.p.iter().map(|t| w.arg(s, *t)).collect();
        match s.below(5) {
            0 | 1 => {
                w.note(format!("call f{f} ({})", shown(&ty.p, &args)));
                w.call(cx, a, args)?;
            }
            2 => {
                *odd += 1;
                wrong_args(w, s, cx, a, f, &ty, args)?;
            }
            _ => {
                *odd += 1;
                typed_handle(w, s, cx, a, f, &ty, args)?;
            }
        }
    }
    Ok(())
}

fn shown(t: &[VT], v: &[Val]) -> String {
    v.iter().zip(t).map(|(v, t)| show(*t, *v)).collect::<Vec<_>>().join(", ")
}

const ALL: [VT; 7] = [VT::I32, VT::I64, VT::F32, VT::F64, VT::V128, VT::Func, VT::Extern];

/// Runs `f` as a host function that the embedder calls; what it returns is returned.
fn nested<T: 'static>(store: &mut Store, f: impl FnOnce(&mut FuncContext<'_>) -> Result<T, Error> + 'static) -> Result<T, Error> {
    let (out, work) = (Rc::new(RefCell::new(None)), RefCell::new(Some(f)));
    let o = out.clone();
    let h = HostFunction::from_untyped(store, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _: &[WasmValue]| {
        let f = work.borrow_mut().take();
        *o.borrow_mut() = f.map(|f| f(&mut c));
        Ok(vec![])
    });
    h.call(store, &[])?;
    out.take().unwrap_or_else(|| Err(Error::Other("the host function did not run".into())))
}

/// An argument list that does not fit must be refused before anything runs.
fn wrong_args(w: &mut World, s: &mut Src, cx: &mut Cx, a: usize, f: u32, ty: &FT, mut args: Vec<Val>) -> R {
    let mut tys = ty.p.clone();
    match s.below(6) {
        0 if !tys.is_empty() => {
            let k = s.usize(tys.len());
            tys.remove(k);
            args.remove(k);
        }
        1 => {
            let k = s.usize(tys.len() + 1);
            let t = if k > 0 && s.bool() { tys[k - 1] } else { *s.pick(&ALL) };
            tys.insert(k, t);
            args.insert(k, modgen::value(s, t));
        }
        2 if !tys.is_empty() => {
            let k = s.usize(tys.len());
            let t = *s.pick(&ALL);
            tys[k] = t;
            args[k] = modgen::value(s, t);
        }
        3 if tys.len() >= 2 => {
            let (i, j) = (s.usize(tys.len()), s.usize(tys.len()));
            tys.swap(i, j);
            args.swap(i, j);
        }
        4 => {
            tys.clear();
            args.clear();
        }
        _ => {
            let n = s.usize(tys.len() + 1);
            tys.truncate(n);
            args.truncate(n);
            for _ in 0..s.below(3) {
                let t = *s.pick(&ALL);
                tys.push(t);
                args.push(modgen::value(s, t));
            }
        }
    }
    w.note(format!("call f{f} ({})", shown(&tys, &args)));
    if tys == ty.p {
        return w.call(cx, a, args);
    }
    cx.label("calls with a wrong argument list");
    let wargs: Vec<WasmValue> = {
        let h = w.tw.h.borrow();
        args.iter().zip(&tys).map(|(v, t)| h.to_wv(*t, *v)).collect()
    };
    let g = w.tw.func(a);
    let r = guarded(|| {
        let x = g.call(&mut w.tw.store, &wargs).map(|v| format!("{v:?}"));
        let y = g.call_resumable(&mut w.tw.store, &wargs).and_then(|mut x| x.resume_with_fuel(1000)).map(|_| ());
        let (g, a) = (g.clone(), wargs.clone());
        let z = nested(&mut w.tw.store, move |c| c.call_untyped(&g, &a)).map(|v| format!("{v:?}"));
        (x, y, z)
    });
    match r {
        Ok((Err(_), Err(_), Err(_))) => {}
        Ok(r) => return w.bad("wrong arguments accepted", format!("arguments [{}] for {:?}: {r:?}", shown(&tys, &args), ty.p)),
        Err(p) => return w.bad(panic_sig(&p), p),
    }
    w.check("after a call with wrong arguments")
}

/// A typed handle exists exactly for the function's own type, and does what the untyped one does.
fn typed_handle(w: &mut World, s: &mut Src, cx: &mut Cx, a: usize, f: u32, ty: &FT, args: Vec<Val>) -> R {
    let tab = typed::table();
    let same: Vec<usize> = (0..tab.len()).filter(|i| tab[*i].ty == *ty).collect();
    let near: Vec<usize> = (0..tab.len()).filter(|i| tab[*i].ty != *ty && (tab[*i].ty.p == ty.p || tab[*i].ty.r == ty.r)).collect();
    let k = match s.below(4) {
        0 | 1 if !same.is_empty() => *s.pick(&same),
        2 if !near.is_empty() => *s.pick(&near),
        _ => s.usize(tab.len()),
    };
    let pair = &tab[k];
    let ti = w.tw.insts[0].clone().unwrap();
    let name = match s.below(12) {
        0 => "n".to_string(),
        1 => format!("f{f}x"),
        _ => format!("f{f}"),
    };
    let want = name == format!("f{f}") && pair.ty == *ty;
    w.note(format!("typed handle of {name} as {:?} -> {:?}", pair.ty.p, pair.ty.r));
    let by_idx = cfg!(feature = "dbg") && s.chance(1, 3) && name == format!("f{f}");
    let r = guarded(|| if by_idx { typed_idx(pair, &ti, &w.tw.store, f) } else { (pair.get)(&ti, &w.tw.store, &name) });
    let h = match r {
        Err(p) => return w.bad(panic_sig(&p), p),
        Ok(Err(_)) if !want => {
            cx.label("typed handles refused");
            return w.check("after refusing a typed handle");
        }
        Ok(Ok(h)) if want => h,
        Ok(r) => return w.bad("typed handle", format!("expected {want}, got {:?}", r.map(|_| ()).map_err(|e| e.to_string()))),
    };
    cx.label("typed handles called");
    let wargs: Vec<WasmValue> = {
        let h = w.tw.h.borrow();
        args.iter().zip(&ty.p).map(|(v, t)| h.to_wv(*t, *v)).collect()
    };
    w.note(format!("call it ({})", shown(&ty.p, &args)));
    let m = match w.ms.call(a, args) {
        Err(Er::Stop(s)) => return Err(s),
        Err(Er::Trap(t)) => Err(t),
        Ok(v) => Ok(v),
    };
    if s.chance(1, 5) {
        // from within a host function
        cx.label("typed handles called by a host function");
        w.tw.mark(a);
        let (plain, by_type) = (w.tw.func(a), s.bool());
        let f = move |c: &mut FuncContext<'_>| if by_type { h.nested(c, &wargs) } else { c.call_untyped(&plain, &wargs) };
        let g = out_of(guarded(|| nested(&mut w.tw.store, f)));
        w.judge(m, g, ty)?;
        return w.check("after the typed call by a host function");
    }
    let d = drive(s);
    w.tw.mark(a);
    let g = w.tw.drive_typed(&*h, &wargs, &d);
    w.judge(m, g, ty)?;
    w.check("after the typed call")
}

#[cfg(feature = "dbg")]
fn typed_idx(p: &typed::Pair, i: &ModuleInstance, s: &Store, f: u32) -> Result<Rc<dyn typed::TypedCall>, Error> {
    (p.get_idx)(i, s, f)
}
#[cfg(not(feature = "dbg"))]
fn typed_idx(_: &typed::Pair, _: &ModuleInstance, _: &Store, _: u32) -> Result<Rc<dyn typed::TypedCall>, Error> {
    unreachable!()
}

// ------------------------------------------------------------------------------------------ T01

pub const T01: Prop =
    Prop { id: "T01", quick: 60_000, thorough: 6_000_000, rule: "a call trapped and a later call completed", assumptions: A, case: t01, probes: &[] };
fn t01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        return t01_health(s, cx);
    }
    let prof = Prof {
        trap: 200,
        calls: 6,
        indirect: 3,
        tail: 2,
        table: 3,
        mem: 6,
        bulk: 4,
        refs: 2,
        globals: 4,
        control: 4,
        max_funcs: 4,
        body: (4, 30),
        max_mems: 2,
        max_tabs: 2,
        segs: 3,
        typed: 100,
        ..Prof::default()
    };
    let plan = Plan {
        prof,
        steps: (4, 12),
        w_call: 14,
        w_inst: 2,
        w_mem: 1,
        w_tab: 1,
        w_glob: 1,
        w_drop: 1,
        max_insts: 3,
        host_funcs: 3,
        host_items: 3,
        host_fail: 300,
        host_calls: true,
        host_odd: 60,
        typed: true,
        ..Plan::default()
    };
    let mut v = Variant::any(s);
    v.drive = drive(s);
    v.name = format!("{}, {:?}", v.name, v.drive);
    oracle_case("T01", plan, v, s, cx, |_, w| w.trapped > 0 && w.completed > 0)
}

/// Calls of known depth around the stack limits: every call of a history must end as it does in a store of
/// its own, whatever ended early before it.
fn t01_health(s: &mut Src, cx: &mut Cx) -> R {
    #[derive(Clone, Copy, Debug)]
    enum Op {
        /// recurse n deep, then return / trap / call the failing host function
        Rec(u32, u32),
        /// the embedder calls a host function that calls Rec(n, k)
        Host(u32, u32),
        /// start Rec(n, k) and drop it after a slice
        Drop(u32, u32, u32),
        /// recurse n deep, then a host function that calls Rec(m, k) and passes on or hides its error
        Nest(u32, u32, u32),
    }
    let cap = s.range(4, 40) as usize;
    let vcap = s.range(16, 200) as usize;
    let fixed = s.chance(2, 3);
    let cfg = {
        let (c, v) = if fixed {
            (StackConfig::fixed(cap), StackConfig::fixed(vcap))
        } else {
            (StackConfig::dynamic(s.range(1, cap as u64) as usize, cap), StackConfig::dynamic(s.range(1, vcap as u64) as usize, vcap))
        };
        let cfg = Config::new().with_call_stack(c);
        if s.bool() { cfg.with_value_stack(v) } else { cfg }
    };
    let hide = s.bool();
    // (n, k): n deep; k: 0 return, 1 unreachable, 2 failing host function
    let mut m = Module::default();
    let t2 = m.ty(ft(&[VT::I32, VT::I32], &[VT::I32]));
    let t3 = m.ty(ft(&[VT::I32, VT::I32, VT::I32], &[VT::I32]));
    m.imports.push(Import { module: "h".into(), name: "fail".into(), desc: Desc::Func(t2) });
    m.imports.push(Import { module: "h".into(), name: "nest".into(), desc: Desc::Func(t2) });
    let pad: Vec<VT> = (0..s.below(6)).map(|_| *s.pick(&[VT::I32, VT::I64, VT::V128])).collect();
    // rec(n, k)
    let rec = vec![
        In::LGet(0),
        In::If(BT::Empty, vec![In::LGet(0), In::I32(1), In::Op(0x6b), In::LGet(1), In::Call(2), In::I32(1), In::Op(0x6a), In::Op(0x0f)], None),
        In::LGet(1),
        In::I32(1),
        In::Op(0x46),
        In::If(BT::Empty, vec![In::Op(0)], None),
        In::LGet(1),
        In::I32(2),
        In::Op(0x46),
        In::If(BT::Empty, vec![In::LGet(0), In::LGet(1), In::Call(0), In::Op(0x1a)], None),
        In::I32(0),
    ];
    m.funcs.push(Func { ty: t2, locals: pad.clone(), body: rec });
    // deep(n, m, k): n deep, then the host function nest(m, k)
    let deep = vec![
        In::LGet(0),
        In::If(
            BT::Empty,
            vec![In::LGet(0), In::I32(1), In::Op(0x6b), In::LGet(1), In::LGet(2), In::Call(3), In::I32(1), In::Op(0x6a), In::Op(0x0f)],
            None,
        ),
        In::LGet(1),
        In::LGet(2),
        In::Call(1),
        // and once more something of the guest's own
        In::LGet(1),
        In::I32(0),
        In::Call(2),
        In::Op(0x6a),
    ];
    m.funcs.push(Func { ty: t3, locals: pad, body: deep });
    m.export("rec", Kind::Func, 2);
    m.export("deep", Kind::Func, 3);
    let wasm = crate::tw::encode(&m);
    let ops: Vec<Op> = (0..s.range(2, 8))
        .map(|_| {
            let d = |s: &mut Src| if s.bool() { s.below(6) as u32 } else { s.below(cap as u64 + 4) as u32 };
            let (n, m, k) = (d(s), d(s), s.below(3) as u32);
            match s.below(5) {
                0 | 1 => Op::Rec(n, k),
                2 => Op::Host(n, k),
                3 => Op::Drop(n, s.below(20 * cap as u64 + 200) as u32, k),
                _ => Op::Nest(n, m, k),
            }
        })
        .collect();
    type Rig = (Store, ModuleInstance, tinywasm::Function);
    let rig = |wasm: &[u8]| -> Result<Rig, Error> {
        let mut store = Store::new(Engine::new(cfg.clone()));
        let m = tinywasm::parse_bytes(wasm)?;
        let fail = HostFunction::from(&mut store, |_: FuncContext<'_>, _: (i32, i32)| -> tinywasm::Result<i32> { Err(Error::Other("no".into())) });
        let slot: Rc<RefCell<Option<tinywasm::Function>>> = Default::default();
        let s2 = slot.clone();
        let nest = HostFunction::from(&mut store, move |mut c: FuncContext<'_>, (n, k): (i32, i32)| -> tinywasm::Result<i32> {
            let f = s2.borrow().clone().unwrap();
            let r = c.call_untyped(&f, &[WasmValue::I32(n), WasmValue::I32(k)]);
            match r {
                Ok(v) => Ok(v[0].as_i32().unwrap()),
                Err(_) if hide => Ok(-1000),
                Err(e) => Err(e),
            }
        });
        let mut i = Imports::new();
        i.define("h", "fail", fail);
        i.define("h", "nest", nest.clone());
        let inst = ModuleInstance::instantiate(&mut store, &m, Some(i))?;
        *slot.borrow_mut() = Some(inst.func_untyped(&store, "rec")?);
        Ok((store, inst, nest))
    };
    let run = |r: &mut Rig, op: Op| -> String {
        let (store, inst, nest) = r;
        let g = guarded(|| -> Result<String, Error> {
            let i = |x: &[u32]| x.iter().map(|x| WasmValue::I32(*x as i32)).collect::<Vec<_>>();
            Ok(match op {
                Op::Rec(n, k) => format!("{:?}", inst.func_untyped(store, "rec")?.call(store, &i(&[n, k]))?),
                Op::Host(n, k) => format!("{:?}", nest.call(store, &i(&[n, k]))?),
                Op::Nest(n, m, k) => format!("{:?}", inst.func_untyped(store, "deep")?.call(store, &i(&[n, m, k]))?),
                Op::Drop(n, fuel, k) => {
                    let f = inst.func_untyped(store, "rec")?;
                    let mut x = f.call_resumable(store, &i(&[n, k]))?;
                    match x.resume_with_fuel(fuel)? {
                        ExecProgress::Completed(v) => format!("{v:?}"),
                        ExecProgress::Suspended => "suspended".into(),
                    }
                }
            })
        });
        match g {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => format!("error: {e}"),
            Err(p) => format!("panic: {p}"),
        }
    };
    let case = format!(
        "call stack {cap}, value stacks {vcap}, fixed {fixed}, hide errors {hide}, operations {ops:?}\nmodule {}\n{}",
        hex(&wasm),
        show_module(&m)
    );
    let mut long = match rig(&wasm) {
        Ok(r) => r,
        Err(e) => return fail("rig", format!("{e}\n{case}")),
    };
    let (mut errs, mut oks) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        let a = run(&mut long, *op);
        let b = match rig(&wasm) {
            Ok(mut r) => run(&mut r, *op),
            Err(e) => return fail("rig", format!("{e}\n{case}")),
        };
        if let Some(p) = a.strip_prefix("panic: ") {
            return fail(panic_sig(p), format!("operation {i}: {a}\n{case}"));
        }
        if a != b {
            return fail("a call ends differently after earlier ones", format!("operation {i} ({op:?}): {a}; in a store of its own: {b}\n{case}"));
        }
        if a.starts_with("error") || a == "suspended" {
            errs += 1;
        } else if errs > 0 {
            oks += 1;
        }
    }
    cx.label_n("calls that ended early, of known depth", errs);
    cx.label_n("calls completed after one that ended early, of known depth", oks);
    if errs > 0 && oks > 0 {
        cx.nontrivial(case.as_bytes());
    }
    cx.sample(|| case.chars().take(900).collect());
    Ok(())
}
