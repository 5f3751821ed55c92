//! F02: fuel bounds the work, and execution progresses.

use super::variants::{any_prof, some_drive};
#[cfg(not(feature = "full"))]
use crate::compat::*;
use crate::ir::*;
use crate::runner::{Cx, Prop, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Drive, Variant, backend_flat, encode, fty};
use crate::world::{Plan, oracle_case};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::{Config, Engine, FuelPolicy, StackConfig};
use tinywasm::types::WasmValue;
use tinywasm::{Error, ExecProgress, Extern, HostFunction, Imports, ModuleInstance, Store};

pub const F02: Prop = Prop {
    id: "F02",
    quick: 50_000,
    thorough: 6_000_000,
    rule: "an endless program was suspended with visible progress, or a terminating history was completed in at least two slices, or a program was measured under both policies",
    assumptions: &[
        "declaring a local costs at most two units of fuel per call",
        "an instruction of the program costs at most four units of fuel, a call at most eight more (the constant of proportionality)",
        "the fixed number of instructions by which a slice may overrun is at most 512",
    ],
    case: f02,
    probes: &[],
};

/// how far a slice may overrun its fuel
const OVER: u64 = 512;

fn f02(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(2, 5) {
        let mut prof = any_prof(s);
        prof.body = (20, 80);
        prof.idioms = prof.idioms.max(6);
        prof.control = prof.control.max(8);
        prof.trap = 10;
        let plan = Plan { prof, host_calls: s.chance(1, 3), host_odd: 200, host_fail: 30, host_funcs: 3, ..Plan::default() };
        let mut drive = some_drive(s);
        if drive == Drive::Time {
            drive = Drive::Fuel(vec![s.range(1, 300) as u32]);
        }
        let mut cfg = Variant::any(s).cfg;
        let weighted = s.bool();
        cfg = cfg.with_fuel_policy(if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction });
        let v = Variant { name: format!("{drive:?}, weighted fuel {weighted}"), drive, cfg, ..Variant::default() };
        return oracle_case("F02", plan, v, s, cx, |_, w| w.tw.suspends > 0);
    }
    if s.chance(1, 8) {
        return weights(s, cx);
    }
    endless(s, cx)
}

struct Gen<'a> {
    s: &'a mut Src,
    calls: u64,
    leaf: u32,
}
impl Gen<'_> {
    /// Code that leaves the stack alone. Locals: 1 i32, 2 i64, 3 f64, 4 v128 after the first `base`.
    fn filler(&mut self, b: u32, out: &mut Vec<In>) {
        for _ in 0..self.s.below(5) {
            let s = &mut *self.s;
            let ma = |a: u32| MA { align: a, off: 16, mem: 0 };
            match s.below(18) {
                0 => out.extend([NOP, In::Block(BT::Empty, vec![NOP])]),
                1 => out.extend([In::I32(7), DROP]),
                2 => out.extend([In::LGet(b + 1), In::I32(1), In::Op(0x6a), In::LSet(b + 1)]),
                3 => out.extend([In::LGet(b + 2), In::LGet(b + 2), In::Op(0x7e), In::LSet(b + 2)]),
                4 => out.extend([In::LGet(b + 3), In::F64(0x3ff0_0000_0000_0000), In::Op(0xa0), In::LSet(b + 3)]),
                5 => out.extend([In::I32(4), In::Mem(0x28, ma(2)), In::LSet(b + 1)]),
                6 => out.extend([In::I32(4), In::LGet(b + 2), In::Mem(0x37, ma(3))]),
                7 => out.extend([In::I32(64), In::I32(3), In::I32(s.below(100) as u32), In::MFill(0)]),
                8 => out.extend([In::I32(64), In::I32(32), In::I32(s.below(40) as u32), In::MCopy { d: 0, s: 0 }]),
                9 => out.extend([In::LGet(b + 4), In::LGet(b + 4), In::Simd(0xae), In::LSet(b + 4)]),
                10 => out.extend([In::LGet(b + 1), In::I32(3), In::LGet(b + 1), SELECT, In::LTee(b + 1), DROP]),
                11 => out.extend([In::LGet(b + 1), In::If(BT::Val(VT::I32), vec![In::I32(1)], Some(vec![In::I32(2)])), In::LSet(b + 1)]),
                12 => out.push(In::Block(BT::Empty, vec![In::Block(BT::Empty, vec![In::LGet(b + 1), In::BrTable(vec![0, 1, 0], 1)])])),
                13 => out.push(In::Block(BT::Val(VT::I64), vec![In::I32(5), In::I64(9), In::Br(0)])),
                14 => out.extend([In::I32(0), In::TGet(0), REF_IS_NULL, DROP]),
                15 | 16 => {
                    self.calls += 1;
                    out.push(In::Call(self.leaf));
                    continue;
                }
                _ => out.extend([In::Loop(BT::Empty, vec![NOP]), In::GGet(2), In::GSet(2)]),
            }
            if let Some(In::Block(BT::Val(VT::I64), _)) = out.last() {
                out.push(DROP);
            }
        }
    }
}

fn count(c: &[In]) -> u64 {
    c.iter()
        .map(|i| match i {
            In::Block(_, b) | In::Loop(_, b) => 2 + count(b),
            In::If(_, a, b) => 3 + count(a) + b.as_ref().map_or(0, |b| count(b)),
            _ => 1,
        })
        .sum()
}

#[derive(Default)]
struct Rec {
    /// last value reported, number of host calls, fuel readings that make no sense
    last: u64,
    calls: u64,
    odd: Vec<String>,
    /// fuel of the current slice (None: not fuel-driven), and the last reading in it
    budget: Option<u32>,
    seen: Option<u32>,
    limit: u64,
    charge: u32,
    nest: Option<tinywasm::Function>,
    /// fuel charged by a host function called from nested guest code, and how much of it the last nested call charged
    inner: u32,
    charged: u64,
}

/// Guest work called from the host: how often it calls a charging host function, and what that charges.
#[derive(Clone, Copy, Debug)]
struct Nested {
    times: u32,
    inner: u32,
    tail: bool,
}

fn bump() -> Vec<In> {
    vec![In::GGet(0), In::I32(1), In::Op(0x6a), In::GSet(0)]
}
fn stop() -> Vec<In> {
    vec![In::GGet(0), In::GGet(1), In::Op(0x4f), In::If(BT::Empty, vec![RETURN], None)]
}

/// One marker per round: a global (0) counted up, or a local counted up `unroll` times and reported to host 0.
fn endless(s: &mut Src, cx: &mut Cx) -> R {
    let mut m = Module::default();
    let shape = s.below(13);
    let th = m.ty(ft(&[VT::I32], &[]));
    let tv = m.ty(ft(&[], &[]));
    m.imports.push(Import { module: "h".into(), name: "h".into(), desc: Desc::Func(th) });
    m.imports.push(Import { module: "h".into(), name: "n".into(), desc: Desc::Func(tv) });
    let ext = shape == 12;
    if ext {
        m.imports.push(Import { module: "a".into(), name: "bump".into(), desc: Desc::Func(tv) });
    }
    let fimp = m.n_imp(Kind::Func);
    for mm in [true, true, true] {
        m.globals.push((GlobTy { t: VT::I32, m: mm }, vec![In::I32(0)]));
    }
    m.export("g", Kind::Glob, 0);
    m.export("lim", Kind::Glob, 1);
    m.mems.push(MemTy { m64: false, min: 1, max: Some(1), page: None });
    // function 0 of the module: a leaf
    m.funcs.push(Func { ty: tv, locals: vec![], body: vec![NOP] });
    let leaf = fimp;
    let locals = |v: &mut Vec<VT>| v.extend([VT::I32, VT::I32, VT::I64, VT::F64, VT::V128]);
    let mut g = Gen { s, calls: 0, leaf };
    let mut n_loop = 1u64; // rounds per marker step reported
    let mut host_per_round = 0u64;
    let mut len = 0;
    let mut names = vec![];
    // (params, body) of the functions under test
    let mut tab: Vec<u32> = vec![leaf];
    let run;
    match shape {
        // loops in one function
        0..=3 => {
            let mut b = bump();
            let tail: Vec<In> = match shape {
                0 => {
                    b.extend(stop());
                    vec![In::Br(0)]
                }
                1 => vec![In::GGet(0), In::GGet(1), In::Op(0x49), In::BrIf(0)],
                2 => {
                    b.extend(stop());
                    let t = (0..g.s.below(4)).map(|_| 0).collect();
                    vec![In::GGet(0), In::I32(3), In::Op(0x71), In::BrTable(t, 0)]
                }
                _ => {
                    b.extend(stop());
                    vec![In::LGet(0), In::I32(1), In::Op(0x6a), In::LTee(0), In::I32(g.s.range(1, 8) as u32), In::Op(0x70), In::BrIf(0), In::Br(1)]
                }
            };
            g.filler(0, &mut b);
            b.extend(tail);
            let mut l = In::Loop(BT::Empty, b.clone());
            if shape == 3 {
                l = In::Loop(BT::Empty, vec![l]);
            } else if g.s.bool() {
                l = In::Block(BT::Empty, vec![l]);
            }
            len += count(&b) + 4;
            let mut lv = vec![];
            locals(&mut lv);
            m.funcs.push(Func { ty: tv, locals: lv, body: vec![l] });
            run = fimp + 1;
            names.push("loop");
        }
        // functions calling each other in turn
        4..=7 => {
            let n = g.s.range(1, 3) as u32;
            let np = g.s.below(4);
            let p: Vec<VT> = (0..np).map(|_| *g.s.pick(&ALLT)).collect();
            let ty = m.ty(ft(&p, &[]));
            for i in 0..n {
                let mut b = bump();
                b.extend(stop());
                g.filler(np as u32, &mut b);
                for k in 0..np {
                    b.push(In::LGet(k as u32));
                }
                let next = fimp + 1 + (i + 1) % n;
                match shape {
                    4 => b.push(In::RetCall(next)),
                    5 => b.extend([In::I32(1 + (i + 1) % n), In::RetCallInd { ty, tab: 0 }]),
                    6 => b.push(In::Call(next)),
                    _ => b.extend([In::I32(1 + (i + 1) % n), In::CallInd { ty, tab: 0 }]),
                }
                len = len.max(count(&b) + 4);
                let mut lv = vec![];
                locals(&mut lv);
                let lv = if g.s.bool() { lv } else { lv.into_iter().chain([VT::I64, VT::Func]).collect() };
                m.funcs.push(Func { ty, locals: lv, body: b });
                tab.push(fimp + 1 + i);
            }
            g.calls += 1;
            // the entry has no parameters
            let b = p.iter().map(|t| crate::modgen::konst(*t, crate::model::default_of(*t))).chain([In::Call(fimp + 1)]).collect();
            m.funcs.push(Func { ty: tv, locals: vec![], body: b });
            run = fimp + 1 + n;
            names.push(["return calls", "indirect return calls", "recursion", "indirect recursion"][shape as usize - 4]);
        }
        // a loop that calls
        8 | 9 | 12 => {
            let mut fb = bump();
            g.filler(0, &mut fb);
            if g.s.bool() {
                fb.push(RETURN);
            }
            len += count(&fb);
            let mut lv = vec![];
            locals(&mut lv);
            m.funcs.push(Func { ty: tv, locals: lv.clone(), body: fb });
            tab.push(fimp + 1);
            let mut b = match shape {
                8 => vec![In::Call(fimp + 1)],
                9 => vec![In::I32(1), In::CallInd { ty: tv, tab: 0 }],
                _ => vec![In::Call(2), In::GGet(0), In::I32(1), In::Op(0x6a), In::GSet(0)],
            };
            b.extend(stop());
            g.filler(0, &mut b);
            b.push(In::Br(0));
            len += count(&b) + 12;
            g.calls += 1;
            m.funcs.push(Func { ty: tv, locals: lv, body: vec![In::Loop(BT::Empty, b)] });
            run = fimp + 2;
            names.push(["loop with calls", "loop with indirect calls", "", "", "loop with calls of another instance"][shape as usize - 8]);
        }
        // a dense counter reported to the host
        _ => {
            n_loop = g.s.range(1, 64);
            host_per_round = 1;
            let mut b = vec![];
            for _ in 0..n_loop {
                b.extend([In::LGet(0), In::I32(1), In::Op(0x6a), In::LSet(0)]);
            }
            if shape == 10 {
                b.extend([In::LGet(0), In::Call(0)]);
            } else {
                m.funcs.push(Func { ty: th, locals: vec![], body: vec![In::LGet(0), In::RetCall(0)] });
                b.extend([In::LGet(0), In::Call(fimp + 1)]);
                g.calls += 1;
            }
            g.filler(0, &mut b);
            b.push(In::Br(0));
            len += count(&b) + 8;
            g.calls += 1;
            let mut lv = vec![];
            locals(&mut lv);
            m.funcs.push(Func { ty: tv, locals: lv, body: vec![In::Loop(BT::Empty, b)] });
            run = fimp + if shape == 10 { 1 } else { 2 };
            names.push("dense loop reporting to the host");
        }
    }
    let calls = g.calls;
    m.tables.push((TabTy { t64: false, el: VT::Func, min: tab.len() as u64, max: None }, None));
    m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(0)] }, items: ElemItems::Funcs(tab) });
    m.export("run", Kind::Func, run);
    // work for nested calls from the host
    m.funcs.push(Func {
        ty: tv,
        locals: vec![VT::I32],
        body: vec![In::I32(300), In::LSet(0), In::Loop(BT::Empty, vec![In::LGet(0), In::I32(1), In::Op(0x6b), In::LTee(0), In::BrIf(0)])],
    });
    m.export("work", Kind::Func, run + 1);
    // nested work that makes the host charge fuel
    m.funcs.push(Func {
        ty: th,
        locals: vec![],
        body: vec![In::Loop(BT::Empty, vec![In::Call(1), In::LGet(0), In::I32(1), In::Op(0x6b), In::LTee(0), In::I32(0), In::Op(0x4b), In::BrIf(0)])],
    });
    m.export("chargen", Kind::Func, run + 2);
    m.funcs.push(Func { ty: th, locals: vec![], body: vec![In::LGet(0), In::RetCall(run + 2)] });
    m.export("chargent", Kind::Func, run + 3);
    // the slices
    let time = s.chance(1, 6);
    let weighted = s.bool();
    let k = s.range(1, 7);
    let small = s.chance(1, 3);
    let mut slices: Vec<Option<u32>> = (0..k)
        .map(|_| {
            Some(match s.below(7) {
                0 => 0,
                1 => 1,
                2 => s.range(1, 20) as u32,
                3 => s.range(126, 130) as u32,
                4 => s.range(254, 258) as u32,
                5 => s.range(1, 1000) as u32,
                _ => s.range(1000, if small { 2000 } else { 12_000 }) as u32,
            })
        })
        .collect();
    match s.below(6) {
        0 => slices = vec![Some(0); k as usize],
        1 => slices = vec![Some(s.range(1, 3) as u32); 40 * k as usize],
        2 => slices = vec![Some(s.range(5000, 40_000) as u32)],
        _ => {}
    }
    if time {
        for x in &mut slices {
            if s.bool() {
                *x = None;
            }
        }
    }
    let charge = if host_per_round > 0 { *s.pick(&[0u32, 0, 1, 50, 1000, 5000, u32::MAX]) } else { 0 };
    let nest = (host_per_round > 0 && s.chance(1, 2)).then(|| Nested {
        times: if s.bool() { 0 } else { s.range(1, 9) as u32 },
        inner: *s.pick(&[0u32, 1, 10, 300, 4000, u32::MAX]),
        tail: s.bool(),
    });
    let wasm = encode(&m);
    cx.label(names[0]);
    let shown = format!(
        "{}, slices {slices:?}, weighted {weighted}, unroll {n_loop}, host charges {charge}, nested work {nest:?}, module {}",
        names[0],
        crate::world::hex(&wasm)
    );
    let bad = |sig: &str, what: String| -> R { fail(format!("{sig}: {}", names[0]), format!("{what}\n{shown}")) };

    let single = |slices: &[Option<u32>], weighted: bool| -> Result<Result<(u64, u64, Vec<String>), String>, String> {
        guarded(|| run_slices(&wasm, ext, slices, weighted, charge, nest, n_loop))
    };
    let (got, hosts, odd) = match single(&slices, weighted) {
        Err(p) => return bad(&panic_sig(&p), p),
        Ok(Err(e)) => return bad(e.split(':').next().unwrap_or(""), e.clone()),
        Ok(Ok(x)) => x,
    };
    if !odd.is_empty() {
        return bad("fuel as seen by a host function", odd.join("; "));
    }
    let budget: u64 = slices.iter().flatten().map(|b| *b as u64).sum();
    let timed = slices.iter().filter(|b| b.is_none()).count() as u64;
    let positive = slices.iter().filter(|b| !matches!(b, Some(0))).count() as u64;
    // at least one instruction per marker; the last report may be a whole round old
    let most = budget + positive * OVER + timed * 20_000;
    if got > most {
        return bad("more work than fuel", format!("{got} marker steps with {budget} fuel in {positive} slices"));
    }
    let charge = charge as u64 + nest.map_or(0, |n| n.times as u64 * n.inner as u64);
    if charge > 0 && timed == 0 {
        let most: u64 = slices.iter().flatten().filter(|b| **b > 0).map(|b| *b as u64 / charge + 2 + OVER).sum();
        if hosts > most {
            return bad("host charges not deducted", format!("{hosts} host calls of {charge} fuel each within {budget} fuel"));
        }
    }
    if positive == 0 && (got > 0 || hosts > 0) {
        return bad("progress without fuel", format!("{got} marker steps, {hosts} host calls"));
    }
    // every slice used up its fuel: the rounds made must account for it
    let maxb = slices.iter().flatten().copied().max().unwrap_or(0) as u64;
    let per_round =
        4 * len + 8 * (calls + host_per_round) + if hosts > 0 { (charge + nest.map_or(0, |n| 20 + 20 * n.times as u64)).min(maxb) } else { 0 };
    let rounds = got / n_loop;
    // time slices make progress without fuel, which only adds rounds
    if budget > (rounds + 2) * per_round + 64 {
        return bad("fuel without progress", format!("{rounds} rounds of {len} instructions and {calls} calls account for {budget} fuel"));
    }
    if timed == slices.len() as u64 && timed > 0 && 4 * len * (rounds + 2) + 64 < timed {
        return bad("time slices without progress", format!("{rounds} rounds of {len} instructions after {timed} slices"));
    }
    // extra cost never lets a slice do more
    if slices.len() == 1 && timed == 0 {
        match single(&slices, !weighted) {
            Err(p) => return bad(&panic_sig(&p), p),
            Ok(Err(e)) => return bad(e.split(':').next().unwrap_or(""), e.clone()),
            Ok(Ok((other, ..))) => {
                let (w, p) = if weighted { (got, other) } else { (other, got) };
                if w > p {
                    return bad("weighted fuel does more", format!("{w} marker steps weighted, {p} otherwise"));
                }
            }
        }
    }
    if got > 0 {
        cx.nontrivial(shown.as_bytes());
    }
    cx.label_n("slices of endless programs", slices.len() as u64);
    cx.label_n("marker steps seen", got);
    cx.sample(|| format!("{got} marker steps; {shown}"));
    Ok(())
}

/// Run the slices, then drop the execution; the marker, the number of host calls and odd fuel readings.
fn run_slices(
    wasm: &[u8],
    ext: bool,
    slices: &[Option<u32>],
    weighted: bool,
    charge: u32,
    nest: Option<Nested>,
    unroll: u64,
) -> Result<(u64, u64, Vec<String>), String> {
    let ample = StackConfig::dynamic(64, 1 << 24);
    let cfg = Config::new().with_memory_backend(backend_flat()).with_call_stack(ample).with_value_stack(ample).with_fuel_policy(if weighted {
        FuelPolicy::Weighted
    } else {
        FuelPolicy::PerInstruction
    });
    let mut store = Store::new(Engine::new(cfg));
    let e = |e: Error| format!("unexpected error: {e}");
    let budget: u64 = slices.iter().map(|b| b.map_or(20_000, |b| b as u64) + OVER).sum();
    let limit = 3 * budget + 20_000;
    // there is no fuel before the first fuel-driven run
    let peek = HostFunction::from_untyped(&mut store, &fty(&ft(&[], &[VT::I32])), |ctx, _: &[WasmValue]| {
        Ok(vec![WasmValue::I32(ctx.remaining_fuel() as i32)])
    });
    match peek.call(&mut store, &[]).map_err(e)?[..] {
        [WasmValue::I32(0)] => {}
        ref r => return Err(format!("fuel outside fuel-driven runs: a new store has {r:?}")),
    }
    let rec = Rc::new(RefCell::new(Rec { limit, charge, ..Rec::default() }));
    let r2 = rec.clone();
    let nested = nest;
    let host = HostFunction::from_untyped(&mut store, &fty(&ft(&[VT::I32], &[])), move |mut ctx, args: &[WasmValue]| {
        let nest = {
            let mut r = r2.borrow_mut();
            if let WasmValue::I32(x) = args[0] {
                r.last = x as u32 as u64;
            }
            r.calls += 1;
            let f = ctx.remaining_fuel();
            let before = r.seen.unwrap_or(r.budget.unwrap_or(0));
            if f > before {
                r.odd.push(format!("{f} fuel left, {before} before"));
            }
            let c = r.charge;
            ctx.charge_fuel(c);
            let after = ctx.remaining_fuel();
            if after != f.saturating_sub(c) {
                r.odd.push(format!("{f} fuel left, {c} charged, {after} left"));
            }
            r.seen = Some(after);
            if r.last > r.limit || r.calls > r.limit {
                return Err(Error::Other("ran away".into()));
            }
            r.nest.clone()
        };
        if let Some(f) = nest {
            let times = nested.map_or(0, |n| n.times);
            let before = ctx.remaining_fuel();
            r2.borrow_mut().charged = 0;
            if times > 0 {
                ctx.call_untyped(&f, &[WasmValue::I32(times as i32)])?;
            } else {
                ctx.call_untyped(&f, &[])?;
            }
            let after = ctx.remaining_fuel();
            let mut r = r2.borrow_mut();
            if after as u64 > (before as u64).saturating_sub(r.charged) {
                let c = r.charged;
                r.odd.push(format!("{after} fuel left after a nested call in which {c} of {before} were charged"));
            }
            r.seen = Some(after);
        }
        Ok(vec![])
    });
    let r3 = rec.clone();
    let inner = HostFunction::from_untyped(&mut store, &fty(&ft(&[], &[])), move |mut ctx, _: &[WasmValue]| {
        let mut r = r3.borrow_mut();
        let f = ctx.remaining_fuel();
        let c = r.inner;
        ctx.charge_fuel(c);
        r.charged += c as u64;
        let after = ctx.remaining_fuel();
        if after != f.saturating_sub(c) {
            r.odd.push(format!("{f} fuel left in nested code, {c} charged, {after} left"));
        }
        Ok(vec![])
    });
    let mut imports = Imports::new();
    imports.define("h", "h", Extern::Function(host));
    imports.define("h", "n", Extern::Function(inner));
    if ext {
        let mut a = Module::default();
        let tv = a.ty(ft(&[], &[]));
        a.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
        a.funcs.push(Func { ty: tv, locals: vec![], body: bump() });
        a.export("bump", Kind::Func, 0);
        let am = tinywasm::parse_bytes(&encode(&a)).map_err(|e| format!("unexpected error: {e}"))?;
        let ai = ModuleInstance::instantiate(&mut store, &am, None).map_err(e)?;
        imports.link_module("a", ai).map_err(e)?;
    }
    let md = tinywasm::parse_bytes(wasm).map_err(|e| format!("unexpected error: {e}"))?;
    let inst = ModuleInstance::instantiate(&mut store, &md, Some(imports)).map_err(e)?;
    inst.global_set(&mut store, "lim", WasmValue::I32(limit as i32)).map_err(e)?;
    let run = inst.func_untyped(&store, "run").map_err(e)?;
    if let Some(n) = nest {
        let name = if n.times == 0 { "work" } else { ["chargen", "chargent"][n.tail as usize] };
        let mut r = rec.borrow_mut();
        r.nest = Some(inst.func_untyped(&store, name).map_err(e)?);
        r.inner = n.inner;
    }
    let mut x = run.call_resumable(&mut store, &[]).map_err(e)?;
    let mut earlier = 0;
    for (i, b) in slices.iter().enumerate() {
        {
            let mut r = rec.borrow_mut();
            r.budget = *b;
            r.seen = None;
            earlier = r.calls;
        }
        let p = match b {
            Some(b) => x.resume_with_fuel(*b),
            None => x.resume_with_time_budget(Duration::from_nanos(1)),
        };
        match p {
            Ok(ExecProgress::Suspended) => {}
            Ok(ExecProgress::Completed(_)) => {
                return Err(format!("ran away: slice {i} ({b:?}) ran the endless program to its limit of {limit} rounds"));
            }
            Err(e) => return Err(format!("ran away: slice {i} ({b:?}): {e}; limit {limit}")),
        }
        if *b == Some(0) && rec.borrow().calls != earlier {
            return Err(format!("progress without fuel: slice {i} called the host"));
        }
    }
    let _ = earlier;
    drop(x);
    let g = match inst.global_get(&store, "g").map_err(e)? {
        WasmValue::I32(x) => x as u32 as u64,
        v => return Err(format!("unexpected error: {v:?}")),
    };
    let r = rec.borrow();
    let marker = if r.calls > 0 || unroll > 1 { r.last } else { g };
    let out = (marker.max(g), r.calls, r.odd.clone());
    drop(r);
    // the store still works, and fuel is gone
    {
        let mut r = rec.borrow_mut();
        r.budget = None;
        r.seen = None;
        r.limit = r.calls + 3;
        r.limit = if unroll == 1 && r.last == 0 { r.limit } else { 1 };
        r.nest = None;
    }
    inst.global_set(&mut store, "lim", WasmValue::I32((g + 3) as i32)).map_err(e)?;
    match run.call(&mut store, &[]) {
        Ok(v) if v.is_empty() => {}
        Err(_) if rec.borrow().calls > 0 => {}
        r => return Err(format!("broken afterwards: {r:?}")),
    }
    // an execution that ends with fuel left takes it along
    {
        let mut r = rec.borrow_mut();
        r.budget = Some(1_000_000);
        r.seen = None;
        r.limit = if r.limit == 1 { 1 } else { r.calls + 3 };
    }
    inst.global_set(&mut store, "lim", WasmValue::I32((g + 6) as i32)).map_err(e)?;
    let p = run.call_resumable(&mut store, &[]).map_err(e)?.resume_with_fuel(1_000_000);
    if !matches!(&p, Ok(ExecProgress::Completed(v)) if v.is_empty()) && !(p.is_err() && rec.borrow().calls > 0) {
        return Err(format!("broken afterwards: {:?}", p.err()));
    }
    {
        let mut r = rec.borrow_mut();
        r.budget = None;
        r.seen = None;
    }
    let p = run.call(&mut store, &[]);
    if p.is_err() && rec.borrow().calls == 0 {
        return Err(format!("broken afterwards: {p:?}"));
    }
    if let Some(o) = rec.borrow().odd.first()
        && out.2.is_empty()
    {
        return Err(format!("fuel outside fuel-driven runs: {o}"));
    }
    Ok(out)
}

/// What a call costs under the weighted policy: the same extra in whatever way it is made. The same program under both policies;
/// readings of the remaining fuel around pieces whose number of calls is known.
fn weights(s: &mut Src, cx: &mut Cx) -> R {
    let mut m = Module::default();
    let tr = m.ty(ft(&[], &[]));
    // every function has the same type, so that each can be called in every way
    let np = s.below(3);
    let p: Vec<VT> = (0..np).map(|_| *s.pick(&ALLT)).collect();
    let ty = m.ty(ft(&[vec![VT::I32], p.clone()].concat(), &[]));
    for (n, t) in [("read", tr), ("host", ty)] {
        m.imports.push(Import { module: "h".into(), name: n.into(), desc: Desc::Func(t) });
    }
    m.imports.push(Import { module: "a".into(), name: "f".into(), desc: Desc::Func(ty) });
    let fimp = 3u32;
    m.mems.push(MemTy { m64: false, min: 1, max: Some(1), page: None });
    m.globals = vec![(GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]); 3];
    let konsts = |depth: u32| -> Vec<In> {
        [In::I32(depth)].into_iter().chain(p.iter().map(|t| crate::modgen::konst(*t, crate::model::default_of(*t)))).collect()
    };
    // calls made by one invocation with first argument 0; per further unit of the first argument
    let mut costs: Vec<(u64, u64)> = vec![(0, 0), (0, 0), (0, 0)];
    let n = s.range(1, 6) as u32;
    let tab = fimp + n + 1;
    let mut forms = std::collections::BTreeSet::new();
    let call = |s: &mut Src, costs: &[(u64, u64)], tail: bool, out: &mut Vec<In>| -> (u64, &'static str) {
        let f = 1 + s.below(costs.len() as u64 - 1) as u32;
        let deep = if costs[f as usize].1 > 0 { s.below(5) } else { 0 };
        out.extend(konsts(deep as u32));
        let ind = s.bool();
        match (ind, tail) {
            (false, false) => out.push(In::Call(f)),
            (false, true) => out.push(In::RetCall(f)),
            (true, false) => out.extend([In::I32(f), In::CallInd { ty, tab: 0 }]),
            (true, true) => out.extend([In::I32(f), In::RetCallInd { ty, tab: 0 }]),
        }
        let (a, b) = costs[f as usize];
        let what = match (f, ind, tail) {
            (1, false, false) => "host",
            (1, true, false) => "indirect host",
            (1, false, true) => "tail host",
            (1, true, true) => "indirect tail host",
            (2, false, false) => "imported",
            (2, true, false) => "indirect imported",
            (2, false, true) => "tail imported",
            (2, true, true) => "indirect tail imported",
            (_, false, false) => "direct",
            (_, true, false) => "indirect",
            (_, false, true) => "tail",
            (_, true, true) => "indirect tail",
        };
        (1 + a + b * deep, what)
    };
    let weight = |c: &(u64, u64)| c.0 + 4 * c.1 < 300;
    for i in 0..n {
        let me = fimp + i;
        let mut body = vec![];
        let mut cost = 0;
        let mut g = Gen { s, calls: 0, leaf: 0 };
        let fill = |g: &mut Gen, out: &mut Vec<In>| {
            if g.s.bool() {
                let k = out.len();
                g.filler(1 + np as u32, out);
                // calls in the filler would be counted wrongly
                if g.calls > 0 {
                    out.truncate(k);
                    g.calls = 0;
                }
            }
        };
        fill(&mut g, &mut body);
        for _ in 0..g.s.below(3) {
            let (k, w) = call(g.s, &costs, false, &mut body);
            cost += k;
            forms.insert(w);
            fill(&mut g, &mut body);
        }
        // recursion while the first parameter is not 0
        let mut per = 0;
        match g.s.below(6) {
            x @ 0..=3 => {
                let mut r = vec![In::LGet(0), In::I32(1), In::Op(0x6b)];
                r.extend((0..np).map(|k| In::LGet(1 + k as u32)));
                match x {
                    0 => r.push(In::Call(me)),
                    1 => r.push(In::RetCall(me)),
                    2 => r.extend([In::I32(me), In::CallInd { ty, tab: 0 }]),
                    _ => r.extend([In::I32(me), In::RetCallInd { ty, tab: 0 }]),
                }
                forms.insert(["self", "tail self", "indirect self", "indirect tail self"][x as usize]);
                body.extend([In::LGet(0), In::If(BT::Empty, r, None)]);
                per = 1 + cost;
            }
            4 => {
                let (k, w) = call(g.s, &costs, true, &mut body);
                cost += k;
                forms.insert(w);
            }
            _ => {}
        }
        costs.push(if weight(&(cost, per)) { (cost, per) } else { (0, 0) });
        if costs[me as usize] == (0, 0) && (cost > 0 || per > 0) {
            body = vec![];
        }
        let locals = vec![VT::I32, VT::I32, VT::I64, VT::F64, VT::V128];
        m.funcs.push(Func { ty, locals, body });
    }
    // the driver reads the fuel around every piece
    let mut want: Vec<u64> = vec![];
    let mut body = vec![In::Call(0)];
    for _ in 0..s.range(2, 6) {
        let mut c = 0;
        for _ in 0..s.below(3) {
            let (k, w) = call(s, &costs, false, &mut body);
            c += k;
            forms.insert(w);
        }
        body.push(In::Call(0));
        want.push(c + 1);
    }
    m.funcs.push(Func { ty: tr, locals: vec![], body });
    m.export("run", Kind::Func, fimp + n);
    m.tables.push((TabTy { t64: false, el: VT::Func, min: tab as u64, max: None }, None));
    m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(0)] }, items: ElemItems::Funcs((0..fimp + n).collect()) });
    let wasm = encode(&m);
    if let Err(e) = crate::world::validate(&wasm) {
        panic!("weights module is invalid: {e}");
    }
    let unopt = s.chance(1, 4);
    let readings = |weighted: bool| -> Result<Vec<u32>, String> {
        let e = |e: Error| format!("unexpected error: {e}");
        let cfg = Config::new().with_memory_backend(backend_flat()).with_fuel_policy(if weighted {
            FuelPolicy::Weighted
        } else {
            FuelPolicy::PerInstruction
        });
        let mut store = Store::new(Engine::new(cfg));
        let rec = Rc::new(RefCell::new(vec![]));
        let r2 = rec.clone();
        let read = HostFunction::from_untyped(&mut store, &fty(&ft(&[], &[])), move |ctx, _: &[WasmValue]| {
            r2.borrow_mut().push(ctx.remaining_fuel());
            Ok(vec![])
        });
        let nothing =
            HostFunction::from_untyped(&mut store, &fty(&ft(&[vec![VT::I32], p.clone()].concat(), &[])), move |_, _: &[WasmValue]| Ok(vec![]));
        let mut a = Module::default();
        let t = a.ty(ft(&[vec![VT::I32], p.clone()].concat(), &[]));
        a.funcs.push(Func { ty: t, locals: vec![VT::I64], body: vec![] });
        a.export("f", Kind::Func, 0);
        let mut imports = Imports::new();
        imports.define("h", "read", Extern::Function(read));
        imports.define("h", "host", Extern::Function(nothing));
        let am = tinywasm::parse_bytes(&encode(&a)).map_err(|e| format!("unexpected error: {e}"))?;
        let ai = ModuleInstance::instantiate(&mut store, &am, None).map_err(e)?;
        imports.link_module("a", ai).map_err(e)?;
        let md = Variant { rewrite: !unopt, ..Variant::default() }.load(&wasm)?;
        let inst = ModuleInstance::instantiate(&mut store, &md, Some(imports)).map_err(e)?;
        let run = inst.func_untyped(&store, "run").map_err(e)?;
        let mut x = run.call_resumable(&mut store, &[]).map_err(e)?;
        match x.resume_with_fuel(u32::MAX).map_err(e)? {
            ExecProgress::Completed(_) => {}
            ExecProgress::Suspended => return Err("suspended with ample fuel".into()),
        }
        drop(x);
        let v = rec.borrow().clone();
        Ok(v)
    };
    let shown = || format!("calls between the readings {want:?}, forms {forms:?}\n{}", crate::world::show_module(&m));
    let mut got = vec![];
    for w in [false, true] {
        match guarded(|| readings(w)) {
            Err(p) => return fail(panic_sig(&p), format!("panic: {p}\n{}", shown())),
            Ok(Err(e)) => return fail("outcome", format!("{e}\n{}", shown())),
            Ok(Ok(r)) => got.push(r),
        }
    }
    if got.iter().any(|g| g.len() != want.len() + 1) {
        return fail("readings", format!("{got:?}\n{}", shown()));
    }
    let used = |g: &[u32], i: usize| g[i] as i64 - g[i + 1] as i64;
    let mut each: Option<i64> = None;
    for (i, n) in want.iter().enumerate() {
        let extra = used(&got[1], i) - used(&got[0], i);
        let x = extra / *n as i64;
        if extra % *n as i64 != 0 || x <= 0 || each.is_some_and(|e| e != x) {
            return fail(
                "weighted calls",
                format!(
                    "piece {i} with {n} calls used {extra} more units under the weighted policy, other calls {each:?} each; readings {got:?}\n{}",
                    shown()
                ),
            );
        }
        each = Some(x);
    }
    for f in &forms {
        cx.label(f);
    }
    cx.label("programs run under both fuel policies");
    cx.nontrivial(&wasm);
    cx.sample(shown);
    Ok(())
}
