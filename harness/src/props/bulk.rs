//! M01, second part: large transfers (whole memories, segments of many chunks) inside and between memories on any backend,
//! by guest instructions and by the host, against plain byte vectors.

use super::variants::backend;
use crate::hostops::span;
use crate::ir::*;
use crate::num::Tr;
use crate::runner::{Cx, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Out, Variant, encode, out_of};
use tinywasm::engine::{Config, Engine};
use tinywasm::types::WasmValue;
use tinywasm::types::{ExternRef, FuncRef};
use tinywasm::{LazyLinearMemory, Memory, MemoryBackend, ModuleInstance, Store, Table};

/// A backend that is fast enough for large memories; several memories may get different kinds.
fn big_backend(s: &mut Src) -> (MemoryBackend, String) {
    let one = |s: &mut Src| -> (MemoryBackend, String) {
        match s.below(4) {
            0 => (MemoryBackend::vec(), "vec".into()),
            1 => (crate::tw::backend_short(*s.pick(&[1000usize, 4095, 4096, 5000])), "short transfers".into()),
            _ => {
                let c = 1usize << s.range(8, 18);
                (MemoryBackend::paged(c), format!("paged({c})"))
            }
        }
    };
    if s.chance(1, 3) {
        let (a, an) = one(s);
        let (b, bn) = one(s);
        // by the parity of the declared size
        let f = MemoryBackend::custom(move |t| {
            let x = if t.page_count_initial() % 2 == 0 { &a } else { &b };
            LazyLinearMemory::try_new(t, x.clone())
        });
        return (f, format!("lazy {an} for even sizes, lazy {bn} for odd ones"));
    }
    if s.chance(1, 4) {
        return backend(s);
    }
    one(s)
}

fn lens(s: &mut Src, cap: u64) -> u64 {
    let n = match s.below(8) {
        0 => s.below(300),
        1 => 4096 * s.below(34) + s.below(3),
        2 => (4096 * s.range(1, 34)).wrapping_sub(s.below(3)),
        3 => 65536 * s.range(1, 3),
        4 => 65536 * s.range(1, 2) + s.below(5000),
        5 => 256 * s.below(600) + s.below(2),
        6 => cap,
        _ => s.below(cap + 2),
    };
    n.min(cap + 3)
}

fn place(s: &mut Src, len: u64, n: u64) -> u64 {
    match s.below(10) {
        0 => 0,
        1 => len.wrapping_sub(n),
        2 => len.wrapping_sub(n).wrapping_add(1),
        3 => span(s, len, 10).0,
        4 => 4096 * s.below(len / 4096 + 1),
        _ => s.below(len.saturating_sub(n) + 1),
    }
}

fn byte(i: u64, x: u8) -> u8 {
    (i as u8).wrapping_mul(37) ^ ((i >> 8) as u8).wrapping_mul(11) ^ x
}

pub fn case(s: &mut Src, cx: &mut Cx) -> R {
    let nm = s.range(2, 3) as usize;
    let mut m = Module::default();
    let mut model: Vec<Vec<u8>> = vec![];
    let mut maxb: Vec<u64> = vec![];
    for _ in 0..nm {
        let page = s.chance(1, 4).then_some(0u32);
        let (min, max) = match page {
            None => (s.below(4), Some(5)),
            Some(_) => (s.below(200_000), Some(300_000)),
        };
        m.mems.push(MemTy { m64: s.chance(1, 3), min, max, page });
        let ps = m.mems.last().unwrap().page_size();
        model.push(vec![0; (min * ps) as usize]);
        maxb.push(max.unwrap() * ps);
    }
    // active segments force an early allocation, passive ones are for memory.init
    let mut segs: Vec<Vec<u8>> = vec![];
    for k in 0..2u8 {
        let n = *s.pick(&[0u64, 5000, 65536, 70_001, 140_000]);
        segs.push((0..n).map(|i| byte(i, 17 * (k + 1))).collect());
        m.datas.push(Data { active: None, bytes: segs[k as usize].clone() });
    }
    if s.chance(1, 3) {
        let k = s.usize(nm);
        let n = lens(s, model[k].len() as u64).min(model[k].len() as u64);
        let o = s.below(model[k].len() as u64 - n + 1);
        let b: Vec<u8> = (0..n).map(|i| byte(i, 99)).collect();
        model[k][o as usize..(o + n) as usize].copy_from_slice(&b);
        let off = if m.mems[k].m64 { In::I64(o) } else { In::I32(o as u32) };
        m.datas.push(Data { active: Some((k as u32, vec![off])), bytes: b });
    }
    let t3 = m.ty(ft(&[VT::I64, VT::I64, VT::I64], &[]));
    let t1 = m.ty(ft(&[VT::I64], &[VT::I64]));
    let wrap = In::Op(0xa7);
    let at = |l: u32, wide: bool| -> Vec<In> { if wide { vec![In::LGet(l)] } else { vec![In::LGet(l), wrap.clone()] } };
    let w: Vec<bool> = m.mems.iter().map(|x| x.m64).collect();
    for d in 0..nm {
        for k in 0..nm {
            let body = [at(0, w[d]), at(1, w[k]), at(2, w[d] && w[k]), vec![In::MCopy { d: d as u32, s: k as u32 }]].concat();
            m.funcs.push(Func { ty: t3, locals: vec![], body });
            m.export(format!("copy{d}{k}"), Kind::Func, m.funcs.len() as u32 - 1);
        }
        let body = [at(0, w[d]), at(1, false), at(2, w[d]), vec![In::MFill(d as u32)]].concat();
        m.funcs.push(Func { ty: t3, locals: vec![], body });
        m.export(format!("fill{d}"), Kind::Func, m.funcs.len() as u32 - 1);
        for g in 0..2 {
            let body = [at(0, w[d]), at(1, false), at(2, false), vec![In::MInit { data: g, mem: d as u32 }]].concat();
            m.funcs.push(Func { ty: t3, locals: vec![], body });
            m.export(format!("init{d}{g}"), Kind::Func, m.funcs.len() as u32 - 1);
        }
        let mut body = at(0, w[d]);
        body.push(In::MGrow(d as u32));
        if !w[d] {
            body.push(In::Op(0xac));
        }
        m.funcs.push(Func { ty: t1, locals: vec![], body });
        m.export(format!("grow{d}"), Kind::Func, m.funcs.len() as u32 - 1);
        m.export(format!("m{d}"), Kind::Mem, d as u32);
    }
    let wasm = encode(&m);
    if let Err(e) = crate::world::validate(&wasm) {
        panic!("bulk module is invalid: {e}");
    }
    let (b, name) = big_backend(s);
    let mut trace = vec![format!("{:?} on {name}", m.mems)];
    let mut key = vec![];
    macro_rules! bad {
        ($sig:expr, $($t:tt)*) => { return fail($sig, format!("{}\n  {}", format!($($t)*), trace.join("\n  "))) };
    }
    let tm = match tinywasm::parse_bytes(&wasm) {
        Ok(t) => t,
        Err(e) => bad!("module rejected", "{e}"),
    };
    let mut store = Store::new(Engine::new(Config::new().with_memory_backend(b)));
    let inst = match guarded(|| ModuleInstance::instantiate(&mut store, &tm, None)) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => bad!("instantiation", "{e:?}"),
        Err(p) => bad!(panic_sig(&p), "panic: {p}"),
    };
    let hm: Vec<Memory> = (0..nm).map(|k| inst.memory(&format!("m{k}")).expect("exported memory")).collect();
    let mut large = 0;
    for step in 0..s.range(3, 10) {
        let d = s.usize(nm);
        let k = if s.chance(2, 3) { (d + 1 + s.usize(nm - 1)) % nm } else { d };
        let (ld, lk) = (model[d].len() as u64, model[k].len() as u64);
        let host = s.chance(1, 4);
        let x = if s.chance(1, 4) { 0 } else { s.u32() as u8 };
        let mask = |wide: bool, v: u64| if wide { v } else { v as u32 as u64 };
        let call = |store: &mut Store, n: &str, a: &[u64]| -> Out<Vec<WasmValue>> {
            let f = inst.func_untyped(store, n).expect("exported function");
            let a: Vec<WasmValue> = a.iter().map(|v| WasmValue::I64(*v as i64)).collect();
            out_of(guarded(|| f.call(store, &a)))
        };
        let (ok, r): (bool, Out<Vec<WasmValue>>);
        match s.below(if step == 0 { 2 } else { 6 }) {
            0 if host => {
                // something to copy
                let n = lens(s, ld);
                let o = place(s, ld, n);
                let data: Vec<u8> = (0..n).map(|i| byte(i, x)).collect();
                trace.push(format!("host: memory {d} at {o}: {n} bytes from pattern {x}"));
                ok = o as u128 + n as u128 <= ld as u128;
                r = out_of(guarded(|| hm[d].copy_from_slice(&mut store, o as usize, &data).map(|_| vec![])));
                if ok {
                    model[d][o as usize..(o + n) as usize].copy_from_slice(&data);
                }
                large += (n > 4096) as u32;
            }
            0 | 1 => {
                let g = s.usize(2);
                let lg = segs[g].len() as u64;
                let n = lens(s, lg.min(ld));
                let (o, p) = (place(s, ld, n), place(s, lg, n));
                let (o, n, p) = (mask(w[d], o), n, p as u32 as u64);
                trace.push(format!("memory.init {d} segment {g}: dst {o} src {p} len {n}"));
                ok = o as u128 + n as u128 <= ld as u128 && p + n <= lg;
                r = call(&mut store, &format!("init{d}{g}"), &[o, p, n]);
                if ok {
                    model[d][o as usize..(o + n) as usize].copy_from_slice(&segs[g][p as usize..(p + n) as usize]);
                }
                large += (n > 4096) as u32;
            }
            2 => {
                let n = lens(s, ld);
                let o = mask(w[d] || host, place(s, ld, n));
                trace.push(format!("fill memory {d}: at {o} value {x} len {n} host {host}"));
                ok = o as u128 + n as u128 <= ld as u128;
                r = if host {
                    out_of(guarded(|| hm[d].fill(&mut store, o as usize, n as usize, x).map(|_| vec![])))
                } else {
                    call(&mut store, &format!("fill{d}"), &[o, x as u64, n])
                };
                if ok {
                    model[d][o as usize..(o + n) as usize].fill(x);
                }
                large += (n > 4096) as u32;
            }
            3 => {
                let n = s.below(if m.mems[d].page.is_some() { 80_000 } else { 3 });
                let n = if s.chance(1, 3) { (maxb[d] - ld) / m.mems[d].page_size() + s.below(2) } else { n };
                let full = ld + n * m.mems[d].page_size() > maxb[d];
                trace.push(format!("grow memory {d} by {n} pages"));
                ok = true;
                r = call(&mut store, &format!("grow{d}"), &[n]);
                let want = if full { -1 } else { (ld / m.mems[d].page_size()) as i64 };
                if let Out::Ok(v) = &r
                    && *v != [WasmValue::I64(want)]
                {
                    bad!("grow", "expected {want}, got {v:?}");
                }
                if !full {
                    model[d].resize((ld + n * m.mems[d].page_size()) as usize, 0);
                }
            }
            _ => {
                let k = if host { d } else { k };
                let lk = if host { ld } else { lk };
                let n = lens(s, ld.min(lk));
                let (o, p) = (place(s, ld, n), place(s, lk, n));
                let p = if d == k && s.chance(1, 2) { o.wrapping_add(s.below(600)).wrapping_sub(300) } else { p };
                let (o, p, n) = if host { (o, p, n) } else { (mask(w[d], o), mask(w[k], p), n) };
                trace.push(format!("copy memory {k} to {d}: dst {o} src {p} len {n} host {host}"));
                ok = o as u128 + n as u128 <= ld as u128 && p as u128 + n as u128 <= lk as u128;
                r = if host {
                    out_of(guarded(|| hm[d].copy_within(&mut store, p as usize, o as usize, n as usize).map(|_| vec![])))
                } else {
                    call(&mut store, &format!("copy{d}{k}"), &[o, p, n])
                };
                if ok {
                    if d == k {
                        model[d].copy_within(p as usize..(p + n) as usize, o as usize);
                    } else {
                        let b = model[k][p as usize..(p + n) as usize].to_vec();
                        model[d][o as usize..(o + n) as usize].copy_from_slice(&b);
                    }
                }
                large += (n > 4096) as u32;
            }
        }
        match (&r, ok) {
            (Out::Ok(_), true) | (Out::Trap(Tr::MemOob), false) => {}
            (Out::Panic(p), _) => bad!(panic_sig(p), "panic: {p}"),
            _ => bad!("outcome", "in range: {ok}, got {}", r.kind()),
        }
        key.extend(trace.last().unwrap().bytes());
        for (k, b) in model.iter().enumerate() {
            let got = match guarded(|| hm[k].read_vec(&store, 0, b.len())) {
                Ok(Ok(g)) => g,
                Ok(Err(e)) => bad!("read", "memory {k} of {} bytes: {e:?}", b.len()),
                Err(p) => bad!(panic_sig(&p), "panic: {p}"),
            };
            let len = hm[k].len(&store).ok();
            if got != *b || len != Some(b.len()) {
                let i = (0..b.len()).find(|i| b[*i] != got[*i]).unwrap_or(0);
                bad!("contents", "memory {k} of {} bytes (reported {len:?}), byte {i}: expected {:?}, got {:?}", b.len(), b.get(i), got.get(i));
            }
        }
    }
    cx.label("bulk transfer sequences");
    cx.label_n("transfers of more than 4 KiB", large as u64);
    if large > 0 {
        cx.nontrivial(&key);
    }
    cx.sample(|| trace.join("; "));
    Ok(())
}

fn tlens(s: &mut Src, cap: u64) -> u64 {
    let n = match s.below(6) {
        0 => s.below(6),
        1 => s.below(300),
        2 => (1u64 << s.range(4, 13)) + s.below(4),
        3 => cap,
        _ => s.below(cap + 2),
    };
    n.min(cap + 2)
}

/// E05, second part: tables of hundreds or thousands of elements under large fills, copies, initialisations and growth, by guest
/// instructions and by the host, against plain vectors.
pub fn tables(v: Variant, s: &mut Src, cx: &mut Cx) -> R {
    let nt = s.range(1, 3) as usize;
    let mut m = Module::default();
    let mixed = s.chance(1, 4);
    let el0 = *s.pick(&[VT::Extern, VT::Func]);
    let mut max = vec![];
    // now and then more elements than two bytes can count
    let wide = s.chance(1, 30);
    for _ in 0..nt {
        let el = if mixed { *s.pick(&[VT::Extern, VT::Func]) } else { el0 };
        let min = match s.below(4) {
            _ if wide => s.range(65_400, if mixed { 90_000 } else { 65_600 }),
            0 => s.below(8),
            1 => 1 << s.range(4, 12),
            2 if s.chance(1, 8) => s.below(9000),
            _ => s.below(1500),
        };
        let mx = s.chance(2, 3).then(|| min + *s.pick(&[0, 1, 40, 300, 5000]));
        max.push(mx);
        m.tables.push((TabTy { t64: s.chance(1, 3), el, min, max: mx }, None));
    }
    let tys: Vec<TabTy> = m.tables.iter().map(|t| t.0).collect();
    let nf = 5 + s.below(300) as u32;
    let tf = m.ty(ft(&[], &[VT::I32]));
    for i in 0..nf {
        m.funcs.push(Func { ty: tf, locals: vec![], body: vec![In::I32(i)] });
    }
    // element segments: 0 functions, 1 functions and nulls as expressions, 2 nulls of externref
    let l0 = if wide && s.bool() { 65_530 + s.below(500) } else { tlens(s, 1500) };
    let l1 = tlens(s, 600);
    let l2 = s.below(300);
    let (a, b, z) = (1 + s.below(400), s.below(300), 2 + s.below(6));
    let f0: Vec<u32> = (0..l0).map(|i| ((i * a + b) % nf as u64) as u32).collect();
    let f1: Vec<Option<u32>> = (0..l1).map(|i| if i % z == 0 { None } else { Some(((i * b + a) % nf as u64) as u32) }).collect();
    m.elems.push(Elem { mode: ElemMode::Passive, items: ElemItems::Funcs(f0.clone()) });
    let e = f1.iter().map(|x| x.map_or(vec![In::RefNull(VT::Func)], |x| vec![In::RefFunc(x)])).collect();
    m.elems.push(Elem { mode: ElemMode::Passive, items: ElemItems::Exprs(VT::Func, e) });
    m.elems.push(Elem { mode: ElemMode::Passive, items: ElemItems::Exprs(VT::Extern, vec![vec![In::RefNull(VT::Extern)]; l2 as usize]) });
    m.elems.push(Elem { mode: ElemMode::Declared, items: ElemItems::Funcs((0..nf).collect()) });
    // the value of function i, for tables of functions
    let tr = m.ty(ft(&[], &[VT::Func, VT::Func, VT::Func]));
    let probes = [0, nf / 2, nf - 1];
    m.funcs.push(Func { ty: tr, locals: vec![], body: probes.iter().map(|p| In::RefFunc(*p)).collect() });
    m.export("probe", Kind::Func, m.funcs.len() as u32 - 1);
    let wrap = In::Op(0xa7);
    let at = |l: u32, wide: bool| -> Vec<In> { if wide { vec![In::LGet(l)] } else { vec![In::LGet(l), wrap.clone()] } };
    let w: Vec<bool> = tys.iter().map(|x| x.t64).collect();
    let t3 = m.ty(ft(&[VT::I64, VT::I64, VT::I64], &[]));
    let add = |m: &mut Module, n: String, ty: u32, body: Vec<In>| {
        m.funcs.push(Func { ty, locals: vec![], body });
        m.export(n, Kind::Func, m.funcs.len() as u32 - 1);
    };
    for d in 0..nt {
        let el = tys[d].el;
        let x = d as u32;
        for k in 0..nt {
            if tys[k].el == el {
                let body = [at(0, w[d]), at(1, w[k]), at(2, w[d] && w[k]), vec![In::TCopy { d: x, s: k as u32 }]].concat();
                add(&mut m, format!("copy{d}{k}"), t3, body);
            }
        }
        let tv = m.ty(ft(&[VT::I64, VT::I64, el], &[]));
        let body = [at(0, w[d]), vec![In::LGet(2)], at(1, w[d]), vec![In::TFill(x)]].concat();
        add(&mut m, format!("fill{d}"), tv, body);
        let body = [at(0, w[d]), vec![In::LGet(2), In::TSet(x)]].concat();
        add(&mut m, format!("set{d}"), tv, body);
        let tg = m.ty(ft(&[VT::I64], &[el]));
        let body = [at(0, w[d]), vec![In::TGet(x)]].concat();
        add(&mut m, format!("get{d}"), tg, body);
        for g in 0..3u32 {
            if (g == 2) == (el == VT::Extern) {
                let body = [at(0, w[d]), at(1, false), at(2, false), vec![In::TInit { elem: g, tab: x }]].concat();
                add(&mut m, format!("init{d}{g}"), t3, body);
            }
        }
        let tw = m.ty(ft(&[VT::I64, el], &[VT::I64, VT::I64]));
        let widen = |b: &mut Vec<In>| {
            if !w[d] {
                b.push(In::Op(0xac));
            }
        };
        let mut body = vec![In::LGet(1)];
        body.extend(at(0, w[d]));
        body.push(In::TGrow(x));
        widen(&mut body);
        body.push(In::TSize(x));
        widen(&mut body);
        add(&mut m, format!("grow{d}"), tw, body);
        m.export(format!("t{d}"), Kind::Tab, x);
    }
    let wasm = encode(&m);
    if let Err(e) = crate::world::validate(&wasm) {
        panic!("table module is invalid: {e}");
    }
    let mut trace = vec![format!("{tys:?}, {nf} functions, segments of {l0}, {l1}, {l2}")];
    let mut key = vec![];
    macro_rules! bad {
        ($sig:expr, $($t:tt)*) => { return fail($sig, format!("{}\n  {}", format!($($t)*), trace.join("\n  "))) };
    }
    let tm = match v.load(&wasm) {
        Ok(t) => t,
        Err(e) => bad!("module rejected", "{e}"),
    };
    let mut store = Store::new(Engine::new(v.cfg.clone()));
    let inst = match guarded(|| ModuleInstance::instantiate(&mut store, &tm, None)) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => bad!("instantiation", "{e:?}"),
        Err(p) => bad!(panic_sig(&p), "panic: {p}"),
    };
    let call = |store: &mut Store, n: &str, a: &[WasmValue]| -> Out<Vec<WasmValue>> {
        let f = inst.func_untyped(store, n).expect("exported function");
        out_of(guarded(|| f.call(store, a)))
    };
    let funcs: Vec<u32> = match call(&mut store, "probe", &[]) {
        Out::Ok(v) => v.iter().filter_map(|v| if let WasmValue::RefFunc(f) = v { f.addr() } else { None }).collect(),
        o => bad!("outcome", "reading references of functions: {}", o.kind()),
    };
    if funcs.len() != 3 || funcs[1].wrapping_sub(funcs[0]) != nf / 2 || funcs[2].wrapping_sub(funcs[0]) != nf - 1 {
        // references of functions are not consecutive: contents could not be compared
        bad!("references", "references of functions {probes:?}: {funcs:?}");
    }
    let base = funcs[0];
    let null = |el: VT| if el == VT::Extern { WasmValue::RefExtern(ExternRef::null()) } else { WasmValue::RefFunc(FuncRef::null()) };
    let mk = |el: VT, v: Option<u32>| match (el, v) {
        (_, None) => null(el),
        (VT::Extern, v) => WasmValue::RefExtern(ExternRef::new(v)),
        (_, Some(v)) => WasmValue::RefFunc(FuncRef::new(Some(base + v % nf))),
    };
    let un = |v: &WasmValue| match v {
        WasmValue::RefExtern(e) => Some(e.addr()),
        WasmValue::RefFunc(f) => Some(f.addr().map(|a| a.wrapping_sub(base))),
        _ => None,
    };
    let ht: Vec<Table> = (0..nt).map(|k| inst.table(&format!("t{k}")).expect("exported table")).collect();
    let mut model: Vec<Vec<Option<u32>>> = tys.iter().map(|t| vec![None; t.min as usize]).collect();
    let mut large = 0;
    for _ in 0..s.range(3, 10) {
        let d = s.usize(nt);
        let el = tys[d].el;
        let ld = model[d].len() as u64;
        let host = s.chance(1, 4);
        let mask = |wide: bool, v: u64| if wide { v } else { v as u32 as u64 };
        let x = match s.below(6) {
            0 => None,
            1 => Some(*s.pick(&[0u32, u32::MAX - 1, 0x8000_0000])),
            _ => Some(s.u32() >> s.below(32)),
        };
        let x = if el == VT::Func { x.map(|x| x % nf) } else { x.filter(|x| *x != u32::MAX) };
        let i = |v: u64| WasmValue::I64(v as i64);
        let (ok, r): (bool, Out<Vec<WasmValue>>);
        match s.below(8) {
            0 | 1 => {
                let n = tlens(s, ld);
                let o = mask(w[d], place(s, ld, n));
                trace.push(format!("fill table {d}: at {o} {x:?} len {n}"));
                ok = o as u128 + n as u128 <= ld as u128;
                r = call(&mut store, &format!("fill{d}"), &[i(o), i(n), mk(el, x)]);
                if ok {
                    model[d][o as usize..(o + n) as usize].fill(x);
                }
                large += (ok && n > 64) as u32;
            }
            2 => {
                let o = if s.chance(1, 8) { ld } else { s.below(ld + 1) };
                trace.push(format!("set table {d}: at {o} {x:?} host {host}"));
                ok = o < ld;
                r = if host {
                    out_of(guarded(|| ht[d].set(&mut store, o as u32, mk(el, x)).map(|_| vec![]).map_err(Into::into)))
                } else {
                    call(&mut store, &format!("set{d}"), &[i(o), i(0), mk(el, x)])
                };
                if ok {
                    model[d][o as usize] = x;
                }
            }
            3 => {
                let n = s.below(600);
                let room = max[d].unwrap_or(3000).saturating_sub(ld);
                let n = if s.chance(1, 3) { room + s.below(2) } else { n };
                let full = max[d].is_some_and(|m| ld + n > m);
                trace.push(format!("grow table {d} by {n} with {x:?} host {host}"));
                if host {
                    ok = !full;
                    r = out_of(guarded(|| ht[d].grow(&mut store, n as i32, mk(el, x)).map(|old| vec![i(old as u64)])));
                    if let Out::Ok(v) = &r
                        && *v != [i(ld)]
                    {
                        bad!("grow", "expected {ld}, got {v:?}");
                    }
                } else {
                    ok = true;
                    r = call(&mut store, &format!("grow{d}"), &[i(n), mk(el, x)]);
                    let want = if full { [i(u64::MAX), i(ld)] } else { [i(ld), i(ld + n)] };
                    if let Out::Ok(v) = &r
                        && *v != want
                    {
                        bad!("grow", "expected {want:?}, got {v:?}");
                    }
                }
                if !full {
                    model[d].resize((ld + n) as usize, x);
                    large += (n > 64) as u32;
                }
            }
            4 => {
                let g = if el == VT::Extern { 2 } else { s.usize(2) };
                let lg = [l0, l1, l2][g];
                let n = tlens(s, lg.min(ld));
                let (o, p) = (mask(w[d], place(s, ld, n)), place(s, lg, n) as u32 as u64);
                trace.push(format!("table.init {d} segment {g}: dst {o} src {p} len {n}"));
                ok = o as u128 + n as u128 <= ld as u128 && p + n <= lg;
                r = call(&mut store, &format!("init{d}{g}"), &[i(o), i(p), i(n)]);
                if ok {
                    for j in 0..n as usize {
                        model[d][o as usize + j] = match g {
                            0 => Some(f0[p as usize + j]),
                            1 => f1[p as usize + j],
                            _ => None,
                        };
                    }
                }
                large += (ok && n > 64) as u32;
            }
            _ => {
                let c: Vec<usize> = (0..nt).filter(|k| tys[*k].el == el).collect();
                let k = if host { d } else { *s.pick(&c) };
                let lk = model[k].len() as u64;
                let n = tlens(s, ld.min(lk));
                let (o, p) = (place(s, ld, n), place(s, lk, n));
                let p = if d == k && s.chance(1, 2) { o.wrapping_add(s.below(60)).wrapping_sub(30) } else { p };
                let (o, p, n) = if host { (o, p, n) } else { (mask(w[d], o), mask(w[k], p), n) };
                trace.push(format!("copy table {k} to {d}: dst {o} src {p} len {n} host {host}"));
                ok = o as u128 + n as u128 <= ld as u128 && p as u128 + n as u128 <= lk as u128;
                r = if host {
                    let go = || ht[d].copy_within(&mut store, p as usize, o as usize, n as usize).map(|_| vec![]).map_err(Into::into);
                    out_of(guarded(go))
                } else {
                    call(&mut store, &format!("copy{d}{k}"), &[i(o), i(p), i(n)])
                };
                if ok {
                    if d == k {
                        model[d].copy_within(p as usize..(p + n) as usize, o as usize);
                    } else {
                        let b = model[k][p as usize..(p + n) as usize].to_vec();
                        model[d][o as usize..(o + n) as usize].copy_from_slice(&b);
                    }
                }
                large += (ok && n > 64) as u32;
            }
        }
        match (&r, ok) {
            (Out::Ok(_), true) | (Out::Trap(Tr::TableOob), false) => {}
            (Out::Panic(p), _) => bad!(panic_sig(p), "panic: {p}"),
            _ => bad!("outcome", "in range: {ok}, got {}", r.kind()),
        }
        key.extend(trace.last().unwrap().bytes());
        for (k, b) in model.iter().enumerate() {
            let got = match guarded(|| ht[k].load(&store, 0, b.len()).map(|v| v.collect::<Vec<_>>())) {
                Ok(Ok(g)) => g,
                Ok(Err(e)) => bad!("read", "table {k} of {} elements: {e:?}", b.len()),
                Err(p) => bad!(panic_sig(&p), "panic: {p}"),
            };
            let len = ht[k].size(&store).ok();
            let at = (0..b.len()).find(|i| got.get(*i).and_then(un) != Some(b[*i]));
            if let Some(i) = at {
                bad!("contents", "table {k} of {} elements, element {i}: expected {:?}, got {:?}", b.len(), b[i], got.get(i));
            }
            if len != Some(b.len()) || got.len() != b.len() {
                bad!("size", "table {k} of {} elements: {len:?} reported, {} read", b.len(), got.len());
            }
            // one element by itself, through the host and through the guest
            let one = |s: &mut Src| {
                let n = b.len() as u64;
                let o = match s.below(4) {
                    0 => n,
                    1 => n.saturating_sub(1),
                    2 => 65_535 + s.below(2),
                    _ => s.below(n + 1),
                };
                o.min(n)
            };
            let o = one(s);
            match (out_of(guarded(|| ht[k].get(&store, o as u32))), b.get(o as usize)) {
                (Out::Ok(v), Some(x)) if un(&v) == Some(*x) => {}
                (Out::Trap(Tr::TableOob), None) => {}
                (Out::Ok(v), x) => bad!("Table::get", "table {k} at {o}: expected {x:?}, got {v:?}"),
                (g, x) => bad!("Table::get", "table {k} at {o}: expected {x:?}, got {}", g.kind()),
            }
            let o = one(s);
            match (call(&mut store, &format!("get{k}"), &[i(o)]), b.get(o as usize)) {
                (Out::Ok(v), Some(x)) if v.len() == 1 && un(&v[0]) == Some(*x) => {}
                (Out::Trap(Tr::TableOob), None) => {}
                (g, x) => {
                    bad!("table.get", "table {k} at {o}: expected {x:?}, got {} ({:?})", g.kind(), if let Out::Ok(v) = &g { Some(v) } else { None })
                }
            }
        }
    }
    cx.label("sequences of large table operations");
    cx.label_n("operations on more than 64 elements", large as u64);
    if large > 0 {
        cx.nontrivial(&key);
    }
    cx.sample(|| trace.join("; "));
    Ok(())
}
