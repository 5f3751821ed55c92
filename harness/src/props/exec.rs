//! Execution semantics: E01..E06.

use super::crash::capped;
use crate::forms::{self, Op, form};
use crate::ir::*;
use crate::model::Ext;
use crate::modgen::{Prof, akin, hot, konst, v128b, value};
use crate::ops;
use crate::peep::{self, peep};
use crate::relay::{self, Mix};
use crate::runner::{Cx, Prop, R, fail, guarded, panic_sig};
use crate::simd::{agrees_any, relaxed};
use crate::tape::Src;
use crate::tw::{Out, Variant, encode};
use crate::val::*;
use crate::world::{Plan, World, finish, oracle_case};
use tinywasm::engine::Config;
use tinywasm::types::WasmValue;
use tinywasm::{Engine, Error, ModuleInstance, Store, Trap};

const A: &[&str] = &["the reference model (harness/src/model.rs, num.rs, simd.rs) states the WebAssembly semantics correctly"];

pub const E01: Prop = Prop {
    id: "E01",
    quick: 120_000,
    thorough: 12_000_000,
    rule: "the history executed at least 40 instructions including taken branches or calls",
    assumptions: A,
    case: e01,
    probes: &[],
};

fn e01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        if s.bool() {
            let v = Variant::any(s);
            return relay::case("E01", Mix::default(), v, s, cx, |c, _| c.steps >= 40 && c.branches + c.calls > 2);
        }
        return peep_case("E01", peep::Want { control: 10, mem: 2, maze: 50, ..peep::Want::default() }, s, cx);
    }
    let mut prof = Prof::default();
    match s.below(4) {
        0 => {}
        1 => {
            // control-heavy, few memory accesses
            prof.mem = 1;
            prof.bulk = 0;
            prof.table = 0;
            prof.control = 12;
            prof.dead = 500;
            prof.simd = 0;
        }
        2 => {
            prof.calls = 12;
            prof.indirect = 5;
            prof.refs = 3;
            prof.simd = 3;
            prof.max_funcs = 9;
        }
        _ => {
            prof.many_locals = 300;
            prof.globals = 6;
            prof.idioms = 10;
            prof.simd = 2;
        }
    }
    let plan = Plan { prof, ..Plan::default() };
    let v = Variant::any(s);
    oracle_case("E01", plan, v, s, cx, |c, _| c.steps >= 40 && c.branches + c.calls > 2)
}

pub const E02: Prop = Prop {
    id: "E02",
    quick: 200_000,
    thorough: 12_000_000,
    rule: "at least one call of a generated operand form completed or trapped as predicted with at least 8 instructions executed",
    assumptions: A,
    case: e02,
    probes: &[],
};

pub fn form_case(prop: &'static str, f: forms::Form, s: &mut Src, cx: &mut Cx) -> R {
    let v = Variant::any(s);
    let (w, r) = form_history(prop, &f, v, s, cx, None);
    for o in &f.ops {
        cx.label(&match o {
            Op::Scalar(o) => format!("op {o:#04x}"),
            Op::Fc(o) => format!("op 0xfc {o:#x}"),
            Op::Simd(o) | Op::Lane(o, _) => format!("op 0xfd {o:#x}"),
            Op::Shuffle(_) => "op 0xfd 0xd".into(),
        });
    }
    finish(w, r, s, cx, |c, w| c.steps >= 8 && w.completed + w.trapped > 0)
}

/// Load the module and call its function with a few argument lists.
pub fn form_history(prop: &'static str, f: &forms::Form, v: Variant, s: &mut Src, cx: &mut Cx, max_steps: Option<u64>) -> (World, R) {
    let mut w = World::new(prop, Plan::default(), v);
    let r = (|| -> R {
        w.inst(cx, f.m.clone(), vec![], 0)?;
        let a = w.ms.insts[0].funcs[0];
        let n = s.range(1, 6);
        for _ in 0..n {
            if max_steps.is_some_and(|m| w.steps_done >= m) {
                break;
            }
            let pool = if s.chance(1, 3) { hot } else { value };
            let mut args: Vec<Val> = f.params.iter().map(|t| pool(s, *t)).collect();
            if s.chance(1, 4) {
                // equal or neighbouring operands
                for i in (0..args.len() / 2 * 2).step_by(2) {
                    args[i + 1] = args[i];
                }
            }
            w.note(format!("call f0 ({})", args.iter().zip(&f.params).map(|(v, t)| crate::tw::show(*t, *v)).collect::<Vec<_>>().join(", ")));
            w.call(cx, a, args)?;
        }
        Ok(())
    })();
    (w, r)
}

/// Short instruction sequences under a variant that must behave like the base.
pub fn peep_diff(prop: &'static str, want: peep::Want, v: Variant, base: Variant, s: &mut Src, cx: &mut Cx, nt: crate::world::Nontrivial) -> R {
    let start = s.used();
    let f = peep(s, want);
    cx.label("instruction sequences over few names");
    let (w, r) = form_history(prop, &f, v, s, cx, None);
    let n = w.steps_done + 1;
    let r = crate::world::against(r, start, s, |s2, cx2| {
        let f = peep(s2, want);
        form_history(prop, &f, base, s2, cx2, Some(n)).1
    })?;
    finish(w, r, s, cx, nt)
}

/// Short instruction sequences over few names.
pub fn peep_case(prop: &'static str, want: peep::Want, s: &mut Src, cx: &mut Cx) -> R {
    let f = peep(s, want);
    cx.label("instruction sequences over few names");
    form_case(prop, f, s, cx)
}

fn e02(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 5) {
        let prof = Prof {
            simd: 0,
            refs: 0,
            floats: 6,
            numeric: 12,
            idioms: 16,
            mem: 3,
            bulk: 0,
            table: 0,
            indirect: 0,
            tail: 0,
            calls: 1,
            globals: 5,
            control: 5,
            trap: 60,
            max_funcs: 2,
            ..Prof::default()
        };
        let plan = Plan { prof, max_insts: 1, w_tab: 0, ..Plan::default() };
        let v = Variant::any(s);
        return oracle_case("E02", plan, v, s, cx, |c, _| c.fops + c.iops >= 5);
    }
    if s.chance(1, 4) {
        return peep_case("E02", peep::Want { simd: false, mem: 3, control: 4, ..peep::Want::default() }, s, cx);
    }
    let f = form(s, false, forms::scalar_op, forms::inner_scalar);
    form_case("E02", f, s, cx)
}

pub const E03: Prop = Prop {
    id: "E03",
    quick: 150_000,
    thorough: 10_000_000,
    rule: "a vector instruction was executed and its result (or the state derived from it) was compared",
    assumptions: A,
    case: e03,
    probes: &[],
};

fn e03(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(10) {
        0 | 1 => {
            let prof = Prof {
                simd: 12,
                numeric: 4,
                idioms: 8,
                mem: 8,
                floats: 3,
                bulk: 0,
                table: 0,
                refs: 0,
                indirect: 0,
                tail: 0,
                calls: 2,
                control: 3,
                max_funcs: 2,
                relaxed: true,
                ..Prof::default()
            };
            let plan = Plan { prof, max_insts: 1, w_tab: 0, ..Plan::default() };
            let v = Variant::any(s);
            oracle_case("E03", plan, v, s, cx, |c, _| c.vops >= 1)
        }
        2 => {
            let op = 0x100 + s.below(0x14) as u32;
            e03_relaxed("E03", op, s, cx)
        }
        3 if s.chance(1, 4) => {
            let f = pool_form(s);
            form_case("E03", f, s, cx)
        }
        3 | 4 => peep_case("E03", peep::Want { mem: 4, control: 2, ..peep::Want::default() }, s, cx),
        _ => {
            let f = form(s, true, |s| forms::simd_op(s, false), forms::inner_any);
            form_case("E03", f, s, cx)
        }
    }
}

/// Many vector constants and shuffle patterns in each of a few functions, resembling the ones before them.
fn pool_form(s: &mut Src) -> forms::Form {
    let mut m = Module::default();
    let ty = m.ty(FT { p: vec![VT::V128; 2], r: vec![VT::V128] });
    let mut ops = vec![];
    for _ in 0..s.range(1, 3) {
        let mut body = vec![In::LGet(0)];
        let n = if s.chance(1, 20) { s.range(250, 300) } else { s.range(1, 24) };
        for _ in 0..n {
            if s.bool() {
                body.push(In::LGet(s.below(2) as u32));
                let mut l = [0; 16];
                l.iter_mut().for_each(|x| *x = s.below(32) as u8);
                ops.push(Op::Shuffle(l));
                body.push(In::Shuffle(l));
            } else {
                body.push(In::V128(v128b(s)));
                // xor, i8x16.add, i64x2.sub, i16x8.max_u, i8x16.swizzle
                let op = *s.pick(&[0x51u32, 0x6e, 0xd1, 0x99, 0x0e]);
                ops.push(Op::Simd(op));
                body.push(In::Simd(op));
            }
        }
        akin(s, &mut body, &mut None);
        let f = m.funcs.len() as u32;
        if f > 0 {
            // the functions are called from the first one
            let first = &mut m.funcs[0].body;
            first.extend([In::LGet(1), In::Call(f)]);
        }
        m.funcs.push(Func { ty, locals: vec![], body });
    }
    m.export("f0", Kind::Func, 0);
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("gf", Kind::Glob, 0);
    forms::Form { m, params: vec![VT::V128; 2], ops }
}

/// A relaxed operator applied directly: every lane must be one of the permitted results.
pub fn e03_relaxed(prop: &'static str, op: u32, s: &mut Src, cx: &mut Cx) -> R {
    let (p, _) = ops::simd_sig(op).unwrap();
    let mut m = Module::default();
    let params = vec![VT::V128; 3];
    let consts: Vec<u128> = (0..3).map(|_| v128b(s)).collect();
    let mut body = vec![];
    let mut srcs = vec![];
    for i in 0..p.len() {
        match s.below(4) {
            0 => {
                body.push(konst(VT::V128, v128v(consts[i])));
                srcs.push(None);
            }
            1 => {
                body.extend([In::LGet(i as u32), In::LTee(3 + i as u32)]);
                srcs.push(Some(i));
            }
            _ => {
                let j = s.usize(3);
                body.push(In::LGet(j as u32));
                srcs.push(Some(j));
            }
        }
    }
    body.push(In::Simd(op));
    match s.below(3) {
        0 => {}
        1 => body.extend([In::LSet(3), In::LGet(3)]),
        _ => body.push(In::LTee(4)),
    }
    let ty = m.ty(FT { p: params.clone(), r: vec![VT::V128] });
    m.funcs.push(Func { ty, locals: vec![VT::V128; 3], body });
    m.export("f0", Kind::Func, 0);
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    let mut w = World::new(prop, Plan::default(), Variant::flat());
    w.inst(cx, m, vec![], 0)?;
    let a = w.ms.insts[0].funcs[0];
    let mut key = vec![];
    let n = s.range(1, 6);
    for _ in 0..n {
        let warm = s.chance(1, 3);
        let mut args: Vec<u128> = (0..3).map(|_| if warm { hot(s, VT::V128).b } else { v128b(s) }).collect();
        if s.chance(1, 4) {
            args[1] = args[0];
        }
        let wa: Vec<WasmValue> = args.iter().map(|x| WasmValue::V128(x.to_le_bytes())).collect();
        let opnds: Vec<Val> = srcs.iter().enumerate().map(|(i, x)| v128v(x.map_or(consts[i], |j| args[j]))).collect();
        let (lane, alts) = relaxed(op, &opnds)?;
        match w.tw.call(a, &wa) {
            Out::Ok(r) if r.len() == 1 => {
                let WasmValue::V128(b) = r[0] else {
                    return w.bad("result type", format!("{:?}", r[0]));
                };
                let got = u128::from_le_bytes(b);
                if !agrees_any(lane, &alts, got) {
                    let al: Vec<String> = alts.iter().map(|v| crate::tw::show(VT::V128, *v)).collect();
                    return w
                        .bad("relaxed result", format!("relaxed op {op:#x} on {opnds:x?}: got {got:#034x}, permitted per {lane}-byte lane: {al:?}"));
                }
                w.completed += 1;
                key.extend_from_slice(&got.to_le_bytes());
            }
            Out::Panic(p) => return w.bad(panic_sig(&p), p),
            o => return w.bad("outcome", o.map(|_| ()).kind()),
        }
    }
    cx.label(&format!("op 0xfd {op:#x}"));
    cx.nontrivial(&key);
    cx.sample(|| format!("relaxed {op:#x} {srcs:?}"));
    let _ = Ext::Func(0);
    Ok(())
}

pub const E04: Prop = Prop {
    id: "E04",
    quick: 100_000,
    thorough: 8_000_000,
    rule: "the history executed at least 4 memory instructions",
    assumptions: A,
    case: e04,
    probes: &[],
};

/// memory.grow when the embedder's backend refuses: -1, or a trap if so configured; never a change.
fn refused_growth(s: &mut Src, cx: &mut Cx) -> R {
    let page = *s.pick(&[0u32, 16]);
    let unit = 1u64 << page;
    let min = s.below(3);
    let max = s.chance(1, 2).then(|| min + s.below(9));
    let room = s.below(6);
    let cap = ((min + room) * unit + if s.bool() { s.below(unit) } else { 0 }) as usize;
    let m64 = s.chance(1, 3);
    let it = if m64 { VT::I64 } else { VT::I32 };
    let mut m = Module::default();
    let ty = m.ty(ft(&[it], &[it]));
    m.mems.push(MemTy { m64, min, max, page: Some(page) });
    m.funcs.push(Func { ty, locals: vec![], body: vec![In::LGet(0), In::MGrow(0)] });
    m.export("grow", Kind::Func, 0);
    m.export("m", Kind::Mem, 0);
    let trap = s.bool();
    let wasm = encode(&m);
    let cfg = Config::new().with_memory_backend(capped(cap, usize::MAX)).with_trap_on_oom(trap);
    let shown = format!("page {unit}, minimum {min}, maximum {max:?}, backend limited to {cap} bytes, 64-bit {m64}, trap on exhaustion {trap}");
    let lazy = s.bool();
    let v = Variant { cfg, lazy, ..Variant::default() };
    let tm = match v.load(&wasm) {
        Ok(m) => m,
        Err(e) => return fail("valid module rejected", format!("{e}\n{shown}")),
    };
    let mut store = Store::new(Engine::new(v.cfg.clone()));
    let inst = match guarded(|| ModuleInstance::instantiate(&mut store, &tm, None)) {
        Ok(Ok(i)) => i,
        r => return fail("instantiation", format!("{:?}\n{shown}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
    };
    let (f, mem) = (inst.func_untyped(&store, "grow").unwrap(), inst.memory("m").unwrap());
    let mut pages = min;
    let mut key = shown.clone().into_bytes();
    let mut refused = 0;
    for _ in 0..s.range(1, 6) {
        let n: i64 = match s.below(8) {
            0 => *s.pick(&[-1, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, 65536, 65537]),
            _ => s.below(room + 4) as i64,
        };
        let n = if m64 { n } else { n as i32 as i64 };
        key.extend(n.to_le_bytes());
        let guest = s.bool();
        let n_u = if m64 { n as u64 } else { n as u32 as u64 };
        // the host handle takes a signed number of pages
        let n_u = if guest || n >= 0 { n_u } else { u64::MAX };
        let top = max.unwrap_or(if m64 { u64::MAX } else { (1u64 << 32) / unit });
        let new = pages.checked_add(n_u).filter(|x| *x <= top && x.checked_mul(unit).is_some());
        // Some(old) or refused, and whether by the backend
        let (want, oom) = match new {
            None => (None, false),
            Some(x) if x * unit > cap as u64 => (None, true),
            Some(_) => (Some(pages), false),
        };
        let huge = max.is_none() && n_u >= 1 << 31 || new.is_some_and(|x| x * unit >= (1 << 32) - unit);
        let what = format!("grow({n}) at {pages} pages by the {}\n{shown}", if guest { "guest" } else { "host" });
        if guest {
            let a = if m64 { WasmValue::I64(n) } else { WasmValue::I32(n as i32) };
            let r = guarded(|| f.call(&mut store, &[a]));
            let got = match r {
                Err(p) => return fail(panic_sig(&p), format!("{p}\n{what}")),
                Ok(Ok(v)) => match v[..] {
                    [WasmValue::I32(x)] => x as i64,
                    [WasmValue::I64(x)] => x,
                    _ => return fail("results", format!("{v:?}\n{what}")),
                },
                Ok(Err(Error::Trap(Trap::OutOfMemory))) if trap => i64::MIN,
                Ok(Err(e)) => return fail("memory.grow trapped", format!("{e}\n{what}")),
            };
            let want = match want {
                Some(p) => p as i64,
                // the engine's own limit may come first
                None if oom && trap && !(huge && got == -1) => i64::MIN,
                None => -1,
            };
            if want != got {
                return fail("memory.grow result", format!("expected {want}, got {got} (-2^63: trap)\n{what}"));
            }
        } else {
            match guarded(|| mem.grow(&mut store, n)) {
                Err(p) => return fail(panic_sig(&p), format!("{p}\n{what}")),
                Ok(Ok(r)) if r == want.map(|x| x as i64) => {}
                Ok(Err(_)) if want.is_none() => {}
                Ok(r) => return fail("host grow result", format!("expected {want:?}, got {:?}\n{what}", r.map_err(|e| e.to_string()))),
            }
        }
        match want {
            Some(_) => pages += n_u,
            None => refused += oom as u64,
        }
        match (mem.page_count(&store), mem.len(&store)) {
            (Ok(p), Ok(l)) if p as u64 == pages && l as u64 == pages * unit => {}
            r => return fail("size after memory.grow", format!("expected {pages} pages, got {r:?}\n{what}")),
        }
    }
    if refused > 0 {
        cx.label("growth refused by the backend");
        cx.nontrivial(&key);
    }
    Ok(())
}

fn e04(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 30) {
        return refused_growth(s, cx);
    }
    if s.chance(1, 20) {
        return super::vast::vast(false, s, cx);
    }
    if s.chance(1, 12) {
        return super::weave::weave((1, 8), s, cx);
    }
    if s.chance(1, 4) {
        let want = peep::Want { mem: 14, control: 2, max_mems: 3, simd: s.bool(), ..peep::Want::default() };
        return peep_case("E04", want, s, cx);
    }
    let trap = *s.pick(&[0u32, 60, 250]);
    let prof = Prof {
        mem: 14,
        bulk: 8,
        simd: 3,
        table: 0,
        indirect: 0,
        tail: 0,
        refs: 0,
        calls: 1,
        control: 3,
        trap,
        max_mems: 4,
        mem64: 400,
        custom_page: 250,
        max_funcs: 3,
        segs: 5,
        idioms: 6,
        start: 0,
        ..Prof::default()
    };
    let plan = Plan { prof, w_mem: 3, w_tab: 0, w_glob: 0, ..Plan::default() };
    let v = Variant::any(s);
    oracle_case("E04", plan, v, s, cx, |c, _| c.loads + c.stores + c.bulk + c.grows >= 4)
}

pub const E05: Prop = Prop {
    id: "E05",
    quick: 150_000,
    thorough: 10_000_000,
    rule: "the history executed at least 3 table instructions or indirect calls",
    assumptions: A,
    case: e05,
    probes: &[],
};

fn e05(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 24) {
        let v = Variant::any(s);
        return super::bulk::tables(v, s, cx);
    }
    if s.chance(1, 10) {
        return super::weave::weave((8, 1), s, cx);
    }
    if s.chance(1, 4) {
        let v = Variant::any(s);
        return relay::case("E05", Mix::default(), v, s, cx, |c, _| c.table + c.indirect >= 3);
    }
    let trap = *s.pick(&[0u32, 60, 250]);
    let prof = Prof {
        mem: 0,
        bulk: 0,
        simd: 0,
        floats: 0,
        table: 14,
        indirect: 8,
        tail: 2,
        refs: 5,
        calls: 3,
        control: 3,
        trap,
        max_tabs: 4,
        t64: 250,
        max_funcs: 6,
        segs: 5,
        idioms: 1,
        ..Prof::default()
    };
    let plan = Plan { prof, w_mem: 0, w_tab: 3, max_insts: 3, w_inst: 2, ..Plan::default() };
    let v = Variant::any(s);
    oracle_case("E05", plan, v, s, cx, |c, _| c.table + c.indirect >= 3)
}

pub const E06: Prop = Prop {
    id: "E06",
    quick: 90_000,
    thorough: 10_000_000,
    rule: "the history executed at least 1 tail call",
    assumptions: A,
    case: e06,
    probes: &[],
};

fn e06(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 6) {
        return e06_chain(s, cx);
    }
    if s.chance(2, 5) {
        let v = Variant::any(s);
        return relay::case("E06", Mix { call: 1, tail: 3, hosts: 3, ..Mix::default() }, v, s, cx, |c, _| c.tail >= 1);
    }
    let prof = Prof {
        tail: 16,
        calls: 3,
        indirect: 4,
        refs: 2,
        simd: 2,
        mem: 1,
        bulk: 0,
        table: 1,
        max_funcs: 7,
        imports: 5,
        trap: 30,
        many_locals: 60,
        ..Prof::default()
    };
    let plan = Plan { prof, host_funcs: 4, host_fail: 60, w_mem: 0, max_insts: 3, w_inst: 2, ..Plan::default() };
    let v = Variant::any(s);
    oracle_case("E06", plan, v, s, cx, |c, _| c.tail >= 1)
}

/// A long chain of tail calls between functions with different signatures must complete within the
/// call-depth limit one call needs (plus the wrapper's frame) and a value stack sized for the widest frames.
fn e06_chain(s: &mut Src, cx: &mut Cx) -> R {
    use tinywasm::engine::{Config, StackConfig};
    let mut m = Module::default();
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    let n = s.range(1, 4) as usize;
    let ret: Vec<VT> = (0..s.below(4)).map(|_| *s.pick(&ALLT)).collect();
    let tys: Vec<FT> = (0..n)
        .map(|_| {
            let mut p = vec![VT::I32];
            for _ in 0..s.below(6) {
                p.push(*s.pick(&ALLT));
            }
            FT { p, r: ret.clone() }
        })
        .collect();
    let tab = s.bool();
    let imported = 0u32;
    for i in 0..n {
        let ty = m.ty(tys[i].clone());
        let extra: Vec<VT> = (0..s.below(5)).map(|_| *s.pick(&ALLT)).collect();
        let nx = (i + 1) % n;
        let np = tys[i].p.len() as u32;
        let mut b = vec![];
        // if counter == 0 return the results (from parameters where possible)
        let mut fin = vec![];
        for t in &ret {
            let c: Vec<u32> = tys[i].p.iter().enumerate().filter(|x| x.1 == t && x.0 > 0).map(|x| x.0 as u32).collect();
            if !c.is_empty() {
                fin.push(In::LGet(*s.pick(&c)))
            } else {
                let v = value(s, *t);
                fin.push(konst(*t, v))
            }
        }
        fin.push(RETURN);
        b.push(In::LGet(0));
        b.push(In::Op(0x45));
        b.push(In::If(BT::Empty, fin, None));
        // some junk under the arguments
        for _ in 0..s.below(3) {
            let t = *s.pick(&ALLT);
            let v = value(s, t);
            b.push(konst(t, v));
        }
        for (k, t) in tys[nx].p.iter().enumerate() {
            if k == 0 {
                b.extend([In::LGet(0), In::I32(1), In::Op(0x6b)]);
                continue;
            }
            let c: Vec<u32> = tys[i].p.iter().enumerate().filter(|x| x.1 == t && x.0 > 0).map(|x| x.0 as u32).collect();
            let e: Vec<u32> = extra.iter().enumerate().filter(|x| x.1 == t).map(|x| x.0 as u32 + np).collect();
            if !c.is_empty() && s.chance(3, 4) {
                b.push(In::LGet(*s.pick(&c)));
            } else if !e.is_empty() && s.bool() {
                let l = *s.pick(&e);
                if s.bool() {
                    let v = value(s, *t);
                    b.push(konst(*t, v));
                    b.push(In::LSet(l));
                }
                b.push(In::LGet(l));
            } else {
                let v = value(s, *t);
                b.push(konst(*t, v));
            }
        }
        let nty = m.ty(tys[nx].clone());
        if tab && s.bool() {
            b.push(In::I32(nx as u32));
            b.push(In::RetCallInd { ty: nty, tab: 0 });
        } else {
            b.push(In::RetCall(nx as u32 + imported));
        }
        m.funcs.push(Func { ty, locals: extra, body: b });
        m.export(format!("f{i}"), Kind::Func, i as u32);
    }
    if tab {
        m.tables.push((TabTy { t64: false, el: VT::Func, min: n as u64, max: None }, None));
        m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(0)] }, items: ElemItems::Funcs((0..n as u32).collect()) });
    }
    let depth = s.range(1, 3) as usize;
    let v = Variant {
        cfg: Config::new()
            .with_call_stack(if s.bool() { StackConfig::fixed(depth) } else { StackConfig::dynamic(1, depth) })
            .with_value_stack(StackConfig::fixed(200)),
        name: format!("call stack {depth}"),
        ..Variant::default()
    };
    let mut w = World::new("E06", Plan::default(), v);
    w.ms.max_steps = 2_000_000;
    let r = (|| -> R {
        w.inst(cx, m, vec![], 0)?;
        let k = s.range(1, 3);
        for _ in 0..k {
            let f = s.usize(n);
            let a = w.ms.insts[0].funcs[f];
            let mut args: Vec<Val> = tys[f].p.iter().map(|t| value(s, *t)).collect();
            let c = match s.below(3) {
                0 => s.below(10),
                1 => s.below(300),
                _ => s.below(if cx.thorough { 20_000 } else { 3000 }),
            };
            args[0] = i32v(c as u32);
            w.note(format!("call f{f} with {c} tail calls"));
            w.call(cx, a, args)?;
        }
        Ok(())
    })();
    cx.label("chains of tail calls under a tight call stack");
    finish(w, r, s, cx, |c, _| c.tail >= 1)
}
