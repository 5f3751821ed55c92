//! K01: what is left of the stacks after executions that did not run to their end.

use super::variants::some_drive;
use crate::ir::*;
use crate::modgen::{konst, value};
use crate::num::Tr;
use crate::runner::{Cx, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Drive, Out, Tw, Variant, backend_flat, encode, fty};
use crate::world::hex;
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::types::WasmValue;
use tinywasm::{Error, Extern, Function, HostFunction, Imports, ModuleInstance, Trap};

const PAD: i32 = 0x0100_0000;

#[derive(Default)]
struct Rec {
    f: Option<Function>,
    rest: Vec<WasmValue>,
    ok: u32,
    failed: u32,
    odd: Vec<String>,
}

fn class(t: VT) -> usize {
    match t {
        VT::I64 | VT::F64 => 1,
        VT::V128 => 2,
        _ => 0,
    }
}

/// Code that takes a value and leaves 1 if it is not `v`.
fn differs(t: VT, v: crate::val::Val) -> Vec<In> {
    let c = konst(t, v);
    match t {
        VT::I32 => vec![c, In::Op(0x47)],
        VT::I64 => vec![c, In::Op(0x52)],
        VT::F32 => vec![In::Op(0xbc), In::I32(v.b as u32), In::Op(0x47)],
        VT::F64 => vec![In::Op(0xbd), In::I64(v.b as u64), In::Op(0x52)],
        VT::V128 => vec![c, In::Simd(0x51), In::Simd(0x53)],
        _ => vec![REF_IS_NULL, In::Op(0x45)],
    }
}

/// A function of known depth, called from the host, without parameters, and by a host function that goes on when the call
/// exhausts a stack; between the calls, executions that are given up half-way.
pub fn k01_leftovers(s: &mut Src, cx: &mut Cx) -> R {
    let mut m = Module::default();
    let pt: Vec<VT> = (0..s.below(5)).map(|_| *s.pick(&ALLT)).collect();
    let lt: Vec<VT> = (0..s.below(5)).map(|_| *s.pick(&ALLT)).collect();
    let ut: Vec<VT> = (0..s.below(4)).map(|_| *s.pick(&ALLT)).collect();
    let yt: Vec<VT> = (0..s.below(9)).map(|_| *s.pick(&ALLT)).collect();
    let mut p = vec![VT::I32];
    p.extend(&pt);
    let th = m.ty(ft(&[VT::I32], &[VT::I32]));
    let tf = m.ty(FT { p: p.clone(), r: vec![VT::I32] });
    let tyy = m.ty(ft(&[VT::I32, VT::I32], &[VT::I32]));
    let tz = m.ty(ft(&[], &[VT::I32]));
    m.imports.push(Import { module: "h".into(), name: "h".into(), desc: Desc::Func(th) });
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("depth", Kind::Glob, 0);
    // f(d, ..) = if d == 0 { 0 } else { 1 + f(d - 1, ..) }
    let mut call = vec![];
    for t in &ut {
        let v = value(s, *t);
        call.push(konst(*t, v));
    }
    call.extend([In::LGet(0), In::I32(1), In::Op(0x6b)]);
    for k in 0..pt.len() {
        call.push(In::LGet(k as u32 + 1));
    }
    call.extend([In::Call(1), In::LSet(1 + pt.len() as u32)]);
    call.extend(ut.iter().map(|_| DROP));
    call.extend([In::LGet(1 + pt.len() as u32), In::I32(1), In::Op(0x6a)]);
    let mut locals = vec![VT::I32];
    locals.extend(&lt);
    m.funcs.push(Func { ty: tf, locals, body: vec![In::LGet(0), In::If(BT::Val(VT::I32), call, Some(vec![In::I32(0)]))] });
    // y(d, n): n times: values that have to stay as they are under a call of the host function
    let mut body = vec![];
    let vals: Vec<_> = yt.iter().map(|t| (*t, value(s, *t))).collect();
    for (t, v) in &vals {
        body.push(konst(*t, *v));
    }
    body.extend([In::I32(PAD as u32), In::LGet(0), In::Call(0), In::Op(0x6a), In::LGet(2), In::Op(0x6a), In::LSet(2)]);
    for (t, v) in vals.iter().rev() {
        body.extend(differs(*t, *v));
        body.extend([In::I32(12), In::Op(0x74), In::LGet(2), In::Op(0x6a), In::LSet(2)]);
    }
    body.extend([In::LGet(1), In::I32(1), In::Op(0x6b), In::LTee(1), In::BrIf(0)]);
    m.funcs.push(Func { ty: tyy, locals: vec![VT::I32], body: vec![In::Loop(BT::Empty, body), In::LGet(2)] });
    // z() = f(depth, ..)
    let mut body = vec![In::GGet(0)];
    for t in &pt {
        let v = value(s, *t);
        body.push(konst(*t, v));
    }
    body.push(In::Call(1));
    m.funcs.push(Func { ty: tz, locals: vec![], body });
    for (i, n) in ["f", "y", "z"].iter().enumerate() {
        m.export(*n, Kind::Func, i as u32 + 1);
    }

    let mut held = [0u64; 3];
    let mut left = [0u64; 3];
    let mut yheld = [3u64, 0, 0];
    for t in &ut {
        left[class(*t)] += 1;
    }
    for t in p.iter().chain(&lt).chain(&ut).chain(&[VT::I32]) {
        held[class(*t)] += 1;
    }
    let mut peak = held;
    for t in &p {
        peak[class(*t)] += 1;
    }
    peak[0] += 4;
    for t in &yt {
        yheld[class(*t)] += 1;
    }
    // the pad under the call
    yheld[0] += 1;

    let ample = StackConfig::dynamic(64, 1 << 20);
    let mut cfg = Config::new().with_memory_backend(backend_flat()).with_call_stack(ample).with_value_stack(ample);
    let lim = match s.below(3) {
        0 => s.below(5),
        1 => s.range(1, 60),
        _ => s.range(60, if cx.thorough { 2000 } else { 400 }),
    };
    let stack = |s: &mut Src, n: u64| {
        let n = n as usize;
        match s.below(2) {
            0 => (StackConfig::fixed(n), format!("fixed({n})")),
            _ => {
                let i = s.below(n as u64 + 1) as usize;
                (StackConfig::dynamic(i, n), format!("dynamic({i}, {n})"))
            }
        }
    };
    let name;
    let vlim;
    if s.chance(1, 3) {
        let (c, t) = stack(s, lim);
        cfg = cfg.with_call_stack(c);
        name = format!("call stack {t}");
        vlim = None;
    } else {
        let k = *s.pick(&(0..3usize).filter(|k| held[*k] > 0).collect::<Vec<_>>());
        // room for the caller, and then for a few activations or for a part of the arguments
        let size = match s.below(4) {
            0 => yheld[k] + s.below(p.len() as u64 + 3),
            1 => yheld[k] + 4 + s.below(held[k] * 2 + 3),
            2 => yheld[k] + lim.min(8) * held[k] + s.below(held[k] + 3),
            _ => lim * held[k] + s.below(held[k] + 3),
        };
        let (c, t) = stack(s, size);
        cfg = match k {
            0 => cfg.with_value_stack_32(c),
            1 => cfg.with_value_stack_64(c),
            _ => cfg.with_value_stack_128(c),
        };
        name = format!("value stack {} {t}", ["32", "64", "128"][k]);
        vlim = Some((k, size));
    }
    let around = match vlim {
        None => lim,
        Some((k, size)) => size / held[k],
    };
    let v = Variant { cfg, name: name.clone(), ..Variant::default() };
    let wasm = encode(&m);
    let module = match v.load(&wasm) {
        Ok(x) => x,
        Err(e) => return fail("load", e),
    };
    let mut tw = Tw::new(v);
    let rec = Rc::new(RefCell::new(Rec::default()));
    for t in &pt {
        let v = value(s, *t);
        rec.borrow_mut().rest.push(tw.h.borrow().to_wv(*t, v));
    }
    let r2 = rec.clone();
    let host = HostFunction::from_untyped(&mut tw.store, &fty(&ft(&[VT::I32], &[VT::I32])), move |mut ctx, args: &[WasmValue]| {
        let (f, a) = {
            let r = r2.borrow();
            let mut a = vec![args[0]];
            a.extend_from_slice(&r.rest);
            (r.f.clone(), a)
        };
        let Some(f) = f else { return Err(Error::Other("not yet".into())) };
        let WasmValue::I32(d) = args[0] else { return Err(Error::Other("not a depth".into())) };
        let out = ctx.call_untyped(&f, &a);
        let mut r = r2.borrow_mut();
        Ok(vec![WasmValue::I32(match out {
            Ok(x) => {
                if !matches!(x[..], [WasmValue::I32(k)] if k == d) {
                    r.odd.push(format!("f({d}) returned {x:?}"));
                }
                r.ok += 1;
                1
            }
            Err(Error::Trap(Trap::CallStackOverflow | Trap::ValueStackOverflow)) => {
                r.failed += 1;
                0
            }
            Err(e) => {
                r.odd.push(format!("f({d}) failed: {e}"));
                0
            }
        })])
    });
    let mut imports = Imports::new();
    imports.define("h", "h", Extern::Function(host));
    let mut log = vec![format!("{name}; parameters {p:?}, locals {lt:?}, under the inner call {ut:?}, under the host call {yt:?}")];
    let bad = |log: &[String], sig: &str, what: String| -> R {
        fail(format!("leftovers: {sig}"), format!("{what}\n{}\nmodule {}", log.join("\n"), hex(&wasm)))
    };
    let inst = match guarded(|| ModuleInstance::instantiate(&mut tw.store, &module, Some(imports))) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return bad(&log, "instantiate", e.to_string()),
        Err(p) => return bad(&log, &panic_sig(&p), p),
    };
    let get = |tw: &Tw, n: &str| inst.func_untyped(&tw.store, n).map_err(|e| e.to_string());
    let (f, y, z) = match (get(&tw, "f"), get(&tw, "y"), get(&tw, "z")) {
        (Ok(f), Ok(y), Ok(z)) => (f, y, z),
        (a, b, c) => return bad(&log, "exports", format!("{:?}", [a.err(), b.err(), c.err()])),
    };
    rec.borrow_mut().f = Some(f.clone());
    // f at this depth, with `under` slots and frames below it: Some(completes)
    let must = |d: u64, frames: u64, under: [u64; 3]| match vlim {
        None => Some(d + frames <= lim),
        Some((k, size)) => {
            if under[k] + (d + 1) * held[k] - left[k] > size {
                Some(false)
            } else if under[k] + d * held[k] + peak[k] + 1 <= size {
                Some(true)
            } else {
                None
            }
        }
    };
    let rest = rec.borrow().rest.clone();
    let fargs = |d: u64| {
        let mut a = vec![WasmValue::I32(d as i32)];
        a.extend_from_slice(&rest);
        a
    };
    let (mut given_up, mut exhausted, mut completed) = (0u64, 0u64, 0u64);
    let mut key = log[0].clone().into_bytes();
    for _ in 0..s.range(2, 8) {
        let d = match s.below(7) {
            0 => s.below(around + 1),
            1 => around,
            2 => around + 1,
            3 => around.saturating_sub(1),
            4 => around.saturating_sub(2),
            5 => around * 2 + s.below(5),
            _ => s.below(3),
        };
        let times = s.range(1, 5);
        let kind = s.below(3);
        key.extend([kind as u8, d as u8, times as u8]);
        {
            let mut r = rec.borrow_mut();
            (r.ok, r.failed) = (0, 0);
        }
        if let Err(e) = inst.global_set(&mut tw.store, "depth", WasmValue::I32(d as i32)) {
            return bad(&log, "global", e.to_string());
        }
        let (fun, args, what) = match kind {
            0 => (&f, fargs(d), format!("f({d})")),
            1 => (&y, vec![WasmValue::I32(d as i32), WasmValue::I32(times as i32)], format!("y({d}, {times})")),
            _ => (&z, vec![], format!("z() at depth {d}")),
        };
        if s.chance(1, 3) {
            // given up after some fuel
            let fuel: Vec<u32> = (0..s.below(3)).map(|_| *s.pick(&[1u32, 100, 128, 300, 1000])).collect();
            log.push(format!("begin {what}, slices {fuel:?}, drop it"));
            let r = guarded(|| {
                let mut x = fun.call_resumable(&mut tw.store, &args)?;
                for n in &fuel {
                    if !matches!(x.resume_with_fuel(*n)?, tinywasm::ExecProgress::Suspended) {
                        break;
                    }
                }
                Ok::<(), Error>(())
            });
            match r {
                Ok(Ok(())) | Ok(Err(Error::Trap(Trap::CallStackOverflow | Trap::ValueStackOverflow))) => given_up += 1,
                Ok(Err(e)) => return bad(&log, "given up", e.to_string()),
                Err(p) => return bad(&log, &panic_sig(&p), p),
            }
            continue;
        }
        let drive = if s.chance(1, 4) { some_drive(s) } else { Drive::Call };
        let m = match kind {
            0 => must(d, 0, [0; 3]),
            1 => must(d, 1, yheld),
            _ => must(d, 1, [0; 3]),
        };
        log.push(format!("{what}, {drive:?}: must f complete: {m:?}"));
        let r = tw.drive(fun, &args, &drive);
        let rc = rec.borrow();
        if let Some(o) = rc.odd.first() {
            return bad(&log, "nested result", o.clone());
        }
        match (r, kind) {
            (Out::Panic(p), _) => return bad(&log, &panic_sig(&p), p),
            (Out::Ok(x), 1) => {
                let want = (PAD as u32).wrapping_mul(times as u32).wrapping_add(rc.ok) as i32;
                if !matches!(x[..], [WasmValue::I32(k)] if k == want) {
                    return bad(&log, "values of the caller", format!("expected {want:#x}, got {x:x?}"));
                }
                if (rc.ok + rc.failed) as u64 != times || (rc.ok > 0 && rc.failed > 0) || m.is_some_and(|m| m != (rc.ok > 0)) {
                    return bad(&log, "limit of nested calls", format!("{} of {times} nested calls completed, {} did not", rc.ok, rc.failed));
                }
                exhausted += (rc.failed > 0) as u64;
                completed += (rc.ok > 0) as u64;
            }
            // the caller itself may not fit
            (Out::Trap(Tr::Stack), 1) if vlim.is_some_and(|(k, size)| yheld[k] + 4 > size) => exhausted += 1,
            (Out::Ok(x), _) if m != Some(false) => {
                if !matches!(x[..], [WasmValue::I32(k)] if k as u64 == d) {
                    return bad(&log, "result", format!("expected {d}, got {x:?}"));
                }
                completed += 1;
            }
            (Out::Trap(Tr::Stack), k) if k != 1 && m != Some(true) => exhausted += 1,
            (r, _) => return bad(&log, "limit not respected", format!("got {}", r.kind())),
        }
    }
    cx.label("leftovers of executions that did not end");
    cx.label_n("executions given up", given_up);
    cx.label_n("executions exhausted", exhausted);
    if given_up + exhausted > 0 && completed > 0 {
        cx.nontrivial(&key);
    }
    cx.sample(|| log.join("\n"));
    Ok(())
}
