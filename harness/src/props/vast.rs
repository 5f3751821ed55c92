//! Memories larger than a machine would give: part of E04 and M02.
//!
//! The embedder's backend keeps only the bytes that were written, so memories may span the whole 32-bit
//! address space and far more of the 64-bit one; the oracle is another map from addresses to bytes.

use crate::ir::*;
use crate::runner::{Cx, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Variant, encode};
use std::collections::BTreeMap;
#[cfg(feature = "full")]
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use tinywasm::engine::Config;
use tinywasm::types::{MemoryType, WasmValue};
use tinywasm::{Engine, Error, LinearMemory, MemoryBackend, ModuleInstance, Store, Trap};

/// Address to byte; zeroes are left out.
type Bytes = BTreeMap<u64, u8>;

fn put(b: &mut Bytes, a: u64, v: u8) {
    if v == 0 {
        b.remove(&a);
    } else {
        b.insert(a, v);
    }
}

struct Sparse {
    len: usize,
    b: Arc<Mutex<Bytes>>,
}

impl LinearMemory for Sparse {
    fn len(&self) -> usize {
        self.len
    }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> {
        if n < self.len {
            return Err(Trap::OutOfMemory);
        }
        self.len = n;
        Ok(())
    }
    fn read(&self, a: usize, d: &mut [u8]) -> usize {
        let n = self.len.saturating_sub(a).min(d.len());
        let b = self.b.lock().unwrap();
        d[..n].fill(0);
        for (k, v) in b.range(a as u64..a as u64 + n as u64) {
            d[*k as usize - a] = *v;
        }
        n
    }
    fn write(&mut self, a: usize, d: &[u8]) -> usize {
        let n = self.len.saturating_sub(a).min(d.len());
        let mut b = self.b.lock().unwrap();
        for (i, v) in d[..n].iter().enumerate() {
            put(&mut b, (a + i) as u64, *v);
        }
        n
    }
}

#[derive(Clone)]
struct Mem {
    t: MemTy,
    pages: u64,
    b: Bytes,
}

impl Mem {
    fn unit(&self) -> u64 {
        self.t.page_size()
    }
    fn len(&self) -> u64 {
        self.pages * self.unit()
    }
    fn holds(&self, a: u64, n: u64) -> bool {
        a.checked_add(n).is_some_and(|e| e <= self.len())
    }
    fn get(&self, a: u64, n: u64) -> u128 {
        (0..n).fold(0, |x, i| x | (*self.b.get(&(a + i)).unwrap_or(&0) as u128) << (8 * i))
    }
    fn set(&mut self, a: u64, n: u64, v: u128) {
        for i in 0..n {
            put(&mut self.b, a + i, (v >> (8 * i)) as u8);
        }
    }
    fn bytes(&self, a: u64, n: u64) -> Vec<u8> {
        (0..n).map(|i| *self.b.get(&(a + i)).unwrap_or(&0)).collect()
    }
    fn put_all(&mut self, a: u64, v: &[u8]) {
        for (i, x) in v.iter().enumerate() {
            put(&mut self.b, a + i as u64, *x);
        }
    }
    fn it(&self) -> VT {
        if self.t.m64 { VT::I64 } else { VT::I32 }
    }
    /// Old page count, or None when the memory stays as it is.
    fn grow(&mut self, n: u64) -> Option<u64> {
        let top = self.t.max.unwrap_or((1 << 32) / self.unit());
        let new = self.pages.checked_add(n).filter(|x| *x <= top)?;
        Some(std::mem::replace(&mut self.pages, new))
    }
    /// An address near a place where something could change.
    fn spot(&self, s: &mut Src) -> u64 {
        let len = self.len();
        let base = match s.below(10) {
            0 => 0,
            1 | 2 => 1 << 32,
            3 => 1 << 31,
            4 => *s.pick(&[1u64 << 33, 1 << 40, 1 << 47, 3 << 32]),
            5 => s.below(len.max(1)),
            6 | 7 if !self.b.is_empty() => {
                let k = s.usize(self.b.len());
                *self.b.keys().nth(k).unwrap()
            }
            _ => len,
        };
        base.wrapping_add(s.below(40)).wrapping_sub(20 + if s.chance(1, 4) { s.below(70_000) } else { 0 })
    }
    fn addr(&self, s: &mut Src) -> u64 {
        let a = self.spot(s);
        if self.t.m64 { a } else { a as u32 as u64 }
    }
    fn index(&self, a: u64) -> WasmValue {
        if self.t.m64 { WasmValue::I64(a as i64) } else { WasmValue::I32(a as u32 as i32) }
    }
}

fn mem_type(s: &mut Src) -> MemTy {
    let page = if s.chance(1, 4) { Some(0u32) } else { None };
    let unit = 1u64 << page.unwrap_or(16);
    let m64 = s.chance(3, 5);
    // in bytes
    let around = match s.below(6) {
        0 => 0,
        1 => 1 << 31,
        2 | 3 => 1 << 32,
        4 if m64 => *s.pick(&[1u64 << 33, 1 << 40, 1 << 47, 5 << 32]),
        _ => s.below(1 << 33),
    };
    let limit = if m64 { 1 << 48 } else { 1u64 << 32 } / unit;
    // the limits of a 32-bit memory with byte pages are themselves 32-bit numbers
    let limit = if m64 { limit } else { limit.min(u32::MAX as u64) };
    let min = (around / unit + s.below(7)).saturating_sub(3).min(limit);
    let max = match s.below(4) {
        0 => min,
        1 => (min + s.below(5)).min(limit),
        2 => (min + (1 << 32) / unit + s.below(3)).min(limit),
        _ => limit,
    };
    MemTy { m64, min, max: if !m64 && page.is_none() && s.chance(1, 3) { None } else { Some(max) }, page }
}

/// Opcode, bytes, sign-extended, result.
const LOADS: [(u8, u64, bool, VT); 14] = [
    (0x28, 4, false, VT::I32),
    (0x29, 8, false, VT::I64),
    (0x2a, 4, false, VT::F32),
    (0x2b, 8, false, VT::F64),
    (0x2c, 1, true, VT::I32),
    (0x2d, 1, false, VT::I32),
    (0x2e, 2, true, VT::I32),
    (0x2f, 2, false, VT::I32),
    (0x30, 1, true, VT::I64),
    (0x31, 1, false, VT::I64),
    (0x32, 2, true, VT::I64),
    (0x33, 2, false, VT::I64),
    (0x34, 4, true, VT::I64),
    (0x35, 4, false, VT::I64),
];
const STORES: [(u8, u64, VT); 9] = [
    (0x36, 4, VT::I32),
    (0x37, 8, VT::I64),
    (0x38, 4, VT::F32),
    (0x39, 8, VT::F64),
    (0x3a, 1, VT::I32),
    (0x3b, 2, VT::I32),
    (0x3c, 1, VT::I64),
    (0x3d, 2, VT::I64),
    (0x3e, 4, VT::I64),
];

fn value(t: VT, v: u128) -> WasmValue {
    match t {
        VT::I32 => WasmValue::I32(v as u32 as i32),
        VT::I64 => WasmValue::I64(v as u64 as i64),
        VT::F32 => WasmValue::F32(f32::from_bits(v as u32)),
        VT::F64 => WasmValue::F64(f64::from_bits(v as u64)),
        _ => WasmValue::V128(v.to_le_bytes()),
    }
}
fn same(a: &WasmValue, b: &WasmValue) -> bool {
    match (a, b) {
        (WasmValue::F32(a), WasmValue::F32(b)) => a.to_bits() == b.to_bits(),
        (WasmValue::F64(a), WasmValue::F64(b)) => a.to_bits() == b.to_bits(),
        _ => a == b,
    }
}
fn konst(v: &WasmValue) -> In {
    match v {
        WasmValue::I32(x) => In::I32(*x as u32),
        WasmValue::I64(x) => In::I64(*x as u64),
        WasmValue::F32(x) => In::F32(x.to_bits()),
        WasmValue::F64(x) => In::F64(x.to_bits()),
        WasmValue::V128(x) => In::V128(u128::from_le_bytes(*x)),
        _ => unreachable!(),
    }
}
fn type_of(v: &WasmValue) -> VT {
    match v {
        WasmValue::I32(_) => VT::I32,
        WasmValue::I64(_) => VT::I64,
        WasmValue::F32(_) => VT::F32,
        WasmValue::F64(_) => VT::F64,
        _ => VT::V128,
    }
}

enum Host {
    Read(u64, u64),
    ReadAll(u64, u64),
    Write(u64, Vec<u8>),
    Store(u64, Vec<u8>),
    Fill(u64, u64, u8),
    Copy(u64, u64, u64),
    Grow(i64),
    #[cfg(feature = "full")]
    Cursor(u64, Vec<u8>),
}

enum Step {
    /// function name, arguments, results or an out-of-bounds trap
    Guest(String, Vec<WasmValue>, Option<Vec<WasmValue>>),
    /// memory, operation, answer or an error
    Host(usize, Host, Option<String>),
}

pub fn vast(with_host: bool, s: &mut Src, cx: &mut Cx) -> R {
    let n = s.range(1, 2) as usize;
    let mut mems: Vec<Mem> = (0..n)
        .map(|_| {
            let t = mem_type(s);
            Mem { t, pages: t.min, b: Bytes::new() }
        })
        .collect();
    let mut m = Module { data_count: true, ..Module::default() };
    for (i, x) in mems.iter().enumerate() {
        m.mems.push(x.t);
        m.export(["a", "b"][i], Kind::Mem, i as u32);
    }
    // a passive segment, and active ones within the memories
    let long = s.chance(1, 12);
    let seg: Vec<u8> = (0..if long { 65_530 + s.below(100) } else { s.range(1, 60) }).map(|i| (i * 7 + i / 256 + 1) as u8).collect();
    m.datas.push(Data { active: None, bytes: seg.clone() });
    for (i, x) in mems.iter_mut().enumerate() {
        for _ in 0..s.below(3) {
            let a = x.addr(s);
            let d: Vec<u8> = (0..s.below(20)).map(|_| s.u64() as u8).collect();
            if x.holds(a, d.len() as u64) {
                x.put_all(a, &d);
                m.datas.push(Data { active: Some((i as u32, vec![konst(&x.index(a))])), bytes: d });
            }
        }
    }
    let mut steps = vec![];
    let mut inside = 0;
    let mut far = 0;
    for step in 0..s.range(4, 14) {
        let k = s.usize(n);
        if with_host && s.bool() {
            let x = &mems[k];
            let a = x.spot(s);
            let small = s.below(50);
            let h = match s.below(8) {
                0 => Host::Read(a, small),
                1 => Host::ReadAll(a, small),
                2 => Host::Write(a, (0..small).map(|_| s.u64() as u8).collect()),
                3 => Host::Store(a, (0..small).map(|_| s.u64() as u8).collect()),
                4 => Host::Fill(a, small, s.u64() as u8),
                5 => Host::Copy(a, x.spot(s), small),
                6 => Host::Grow(grow_by(x, s) as i64),
                #[cfg(not(feature = "full"))]
                _ => Host::Read(a, small),
                #[cfg(feature = "full")]
                _ => Host::Cursor(a, (0..small).map(|_| s.u64() as u8).collect()),
            };
            let want = expected(&h, &mut mems[k]);
            steps.push(Step::Host(k, h, want));
            continue;
        }
        let x = &mut mems[k];
        let (args, op, want): (Vec<WasmValue>, In, Option<Vec<WasmValue>>) = match s.below(12) {
            0..=6 => {
                let simd = s.chance(1, 6);
                let load = s.bool();
                let l = *s.pick(&LOADS);
                let st = *s.pick(&STORES);
                let w = if simd {
                    16
                } else if load {
                    l.1
                } else {
                    st.1
                };
                // the effective address, as a base and an immediate
                let ea = x.spot(s);
                let ea = if x.t.m64 { ea } else { (ea & ((1 << 33) - 1)).min((1 << 33) - 2) };
                let off = match s.below(5) {
                    0 | 1 => 0,
                    2 => s.below(70_000),
                    3 => s.below(1 << 32),
                    _ => ea,
                };
                let off = if x.t.m64 { off.min(ea) } else { off.min(ea).min(u32::MAX as u64).max(ea.saturating_sub(u32::MAX as u64)) };
                let base = ea - off;
                let ma = MA { align: 0, off, mem: k as u32 };
                let ok = x.holds(ea, w);
                inside += ok as u32;
                far += (ok && ea >= 1 << 32) as u32;
                if load {
                    let want = ok.then(|| {
                        let v = x.get(ea, w);
                        let sign = l.2 && !simd && v >> (8 * w - 1) & 1 == 1;
                        vec![value(if simd { VT::V128 } else { l.3 }, if sign { v | u128::MAX << (8 * w) } else { v })]
                    });
                    (vec![x.index(base)], if simd { In::SimdMem(0, ma) } else { In::Mem(l.0, ma) }, want)
                } else {
                    let v = (s.u64() as u128) << 64 | s.u64() as u128;
                    if ok {
                        x.set(ea, w, v);
                    }
                    let t = if simd { VT::V128 } else { st.2 };
                    (vec![x.index(base), value(t, v)], if simd { In::SimdMem(11, ma) } else { In::Mem(st.0, ma) }, ok.then(Vec::new))
                }
            }
            7 => (vec![], In::MSize(k as u32), Some(vec![x.index(x.pages)])),
            8 => {
                let d = grow_by(x, s);
                // growth may always be refused, and by so much (only of byte-sized pages) it is
                let d = match x.t.m64 {
                    true => d,
                    false if x.pages + (d & 0xffff_ffff) <= x.t.max.unwrap_or(65536) => d & 0x7fff_ffff,
                    false => d & 0xffff_ffff,
                };
                let r = x.grow(d).map_or(x.index(u64::MAX), |p| x.index(p));
                (vec![x.index(d)], In::MGrow(k as u32), Some(vec![r]))
            }
            9 => {
                let (a, len, v) = (x.addr(s), length(x, s), s.u64() as u8);
                let len = if x.holds(a, len) && len > 400 { len % 400 } else { len };
                let ok = x.holds(a, len);
                if ok {
                    x.put_all(a, &vec![v; len as usize]);
                }
                inside += ok as u32;
                (vec![x.index(a), WasmValue::I32(v as i32 | (s.u64() as i32) << 8), x.index(len)], In::MFill(k as u32), ok.then(Vec::new))
            }
            10 => {
                let l = seg.len() as u64;
                let f = if long { l.saturating_sub(s.below(200)) } else { s.below(70) };
                let len = if long && s.bool() { l - f } else { s.below(70) };
                let a = x.addr(s);
                let ok = x.holds(a, len) && f + len <= seg.len() as u64;
                if ok {
                    x.put_all(a, &seg[f as usize..(f + len) as usize]);
                }
                inside += ok as u32;
                (vec![x.index(a), WasmValue::I32(f as i32), WasmValue::I32(len as i32)], In::MInit { data: 0, mem: k as u32 }, ok.then(Vec::new))
            }
            _ => {
                let j = s.usize(n);
                let (to, from) = (x.addr(s), mems[j].addr(s));
                let wide = mems[k].t.m64 && mems[j].t.m64;
                let len = length(&mems[k], s);
                let len = if wide { len } else { len as u32 as u64 };
                let both = |len: u64| mems[k].holds(to, len) && mems[j].holds(from, len);
                let len = if both(len) && len > 400 { len % 400 } else { len };
                let ok = both(len);
                if ok {
                    let d = mems[j].bytes(from, len);
                    mems[k].put_all(to, &d);
                }
                inside += ok as u32;
                let l = if wide { WasmValue::I64(len as i64) } else { WasmValue::I32(len as u32 as i32) };
                (vec![mems[k].index(to), mems[j].index(from), l], In::MCopy { d: k as u32, s: j as u32 }, ok.then(Vec::new))
            }
        };
        // each operand is a parameter or a constant
        let r: Vec<VT> = match &op {
            In::Mem(o, _) => LOADS.iter().filter(|l| l.0 == *o).map(|l| l.3).collect(),
            In::SimdMem(0, _) => vec![VT::V128],
            In::MSize(_) | In::MGrow(_) => vec![mems[k].it()],
            _ => vec![],
        };
        let (mut body, mut params, mut given) = (vec![], vec![], vec![]);
        for v in args {
            if s.bool() {
                body.push(konst(&v));
            } else {
                body.push(In::LGet(params.len() as u32));
                params.push(type_of(&v));
                given.push(v);
            }
        }
        body.push(op);
        let ty = m.ty(FT { p: params, r });
        let name = format!("f{step}");
        m.export(&name, Kind::Func, m.funcs.len() as u32);
        m.funcs.push(Func { ty, locals: vec![], body });
        steps.push(Step::Guest(name, given, want));
    }
    let wasm = encode(&m);
    let maps: Vec<Arc<Mutex<Bytes>>> = (0..n).map(|_| Default::default()).collect();
    let (made, handed) = (Arc::new(Mutex::new(0)), maps.clone());
    let backend = MemoryBackend::custom(move |t: MemoryType| -> Result<Sparse, Error> {
        let mut i = made.lock().unwrap();
        let b = handed.get(*i).cloned().ok_or_else(|| Error::Other("more memories than declared".into()))?;
        *i += 1;
        Ok(Sparse { len: t.initial_size() as usize, b })
    });
    let v = Variant { cfg: Config::new().with_memory_backend(backend), lazy: s.bool(), ..Variant::default() };
    let mut shown = format!("memories {:?}\nmodule {}", mems.iter().map(|x| x.t).collect::<Vec<_>>(), crate::world::hex(&wasm));
    let tm = match v.load(&wasm) {
        Ok(m) => m,
        Err(e) => return fail("valid module rejected", format!("{e}\n{shown}")),
    };
    let mut store = Store::new(Engine::new(v.cfg.clone()));
    let inst = match guarded(|| ModuleInstance::instantiate(&mut store, &tm, None)) {
        Ok(Ok(i)) => i,
        r => return fail("instantiation", format!("{:?}\n{shown}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
    };
    let handles: Vec<_> = (0..n).map(|i| inst.memory(["a", "b"][i]).unwrap()).collect();
    for step in &steps {
        match step {
            Step::Guest(name, args, want) => {
                shown += &format!("\n{name}({args:?})");
                let f = inst.func_untyped(&store, name).unwrap();
                let r = match guarded(|| f.call(&mut store, args)) {
                    Ok(r) => r,
                    Err(p) => return fail(panic_sig(&p), format!("{p}\n{shown}")),
                };
                match (want, r) {
                    (Some(w), Ok(g)) if w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| same(a, b)) => {}
                    (None, Err(Error::Trap(Trap::MemoryOutOfBounds { .. }))) => {}
                    (w, r) => {
                        let w = w.as_ref().map_or("an out-of-bounds trap".into(), |w| format!("{w:?}"));
                        return fail("large memory", format!("expected {w}, got {:?}\n{shown}", r.map_err(|e| e.to_string())));
                    }
                }
            }
            Step::Host(k, h, want) => {
                shown += &format!("\nhost on memory {k}: {}", show(h));
                let mem = &handles[*k];
                let r = guarded(|| -> Result<String, Error> {
                    Ok(match h {
                        Host::Read(a, n) => {
                            let mut d = vec![0xaa; *n as usize];
                            let k = mem.read(&store, *a as usize, &mut d)?;
                            format!("{k} {d:?}")
                        }
                        Host::ReadAll(a, n) => format!("{:?}", mem.read_vec(&store, *a as usize, *n as usize)?),
                        Host::Write(a, d) => format!("{}", mem.write(&mut store, *a as usize, d)?),
                        Host::Store(a, d) => format!("{:?}", mem.copy_from_slice(&mut store, *a as usize, d)?),
                        Host::Fill(a, n, v) => format!("{:?}", mem.fill(&mut store, *a as usize, *n as usize, *v)?),
                        Host::Copy(a, b, n) => format!("{:?}", mem.copy_within(&mut store, *a as usize, *b as usize, *n as usize)?),
                        Host::Grow(n) => format!("{:?}", mem.grow(&mut store, *n)?),
                        #[cfg(feature = "full")]
                        Host::Cursor(a, d) => {
                            let mut c = mem.cursor(&mut store)?;
                            let mut at = c.seek(SeekFrom::Start(*a)).map_err(|e| Error::Other(e.to_string()))?;
                            let w = c.write(d).map_err(|e| Error::Other(e.to_string()))?;
                            at = at.wrapping_add(c.seek(SeekFrom::Current(-(w as i64))).map_err(|e| Error::Other(e.to_string()))?);
                            let mut b = vec![];
                            Read::take(&mut c, w as u64).read_to_end(&mut b).map_err(|e| Error::Other(e.to_string()))?;
                            format!("{at} {w} {b:?}")
                        }
                    })
                });
                match r {
                    Err(p) => return fail(panic_sig(&p), format!("{p}\n{shown}")),
                    Ok(Ok(g)) if want.as_ref() == Some(&g) => {}
                    Ok(Err(_)) if want.is_none() => {}
                    Ok(g) => {
                        return fail("large memory, host", format!("expected {want:?}, got {:?}\n{shown}", g.map_err(|e| e.to_string())));
                    }
                }
            }
        }
    }
    // memories may be created in the order of their first use
    let kept: Vec<Bytes> = maps.iter().map(|x| x.lock().unwrap().clone()).collect();
    let swapped = kept.iter().rev().eq(mems.iter().map(|x| &x.b));
    for (i, x) in mems.iter().enumerate() {
        let got = &kept[if swapped { n - 1 - i } else { i }];
        if *got != x.b {
            return fail("large memory contents", format!("memory {i}: expected {:x?}\ngot {got:x?}\n{shown}", x.b));
        }
        for (a, b) in x.b.iter().take(100) {
            let mut d = [0];
            let r = handles[i].read_exact(&store, *a as usize, &mut d);
            if r.is_err() || d[0] != *b {
                return fail("large memory contents", format!("memory {i}: expected {b} at {a}, got {r:?} {d:?}\n{shown}"));
            }
        }
        let (p, l) = (handles[i].page_count(&store).unwrap() as u64, handles[i].len(&store).unwrap() as u64);
        if p != x.pages || l != x.len() {
            return fail("large memory size", format!("memory {i}: expected {} pages, got {p} and {l} bytes\n{shown}", x.pages));
        }
        // and through the handle
        let at = x.spot(s);
        let mut d = [0; 24];
        let r = handles[i].read_exact(&store, at as usize, &mut d);
        if r.is_ok() != x.holds(at, 24) || r.is_ok() && d[..] != x.bytes(at, 24)[..] {
            return fail(
                "large memory, host",
                format!("memory {i}: read_exact of 24 bytes at {at}: {:?}, {d:?}\n{shown}", r.map_err(|e| e.to_string())),
            );
        }
    }
    cx.label("memories beyond what a machine gives");
    if inside >= 2 && (far >= 1 || mems.iter().any(|x| x.pages * x.unit() > 1 << 31)) {
        cx.nontrivial(&wasm);
    }
    cx.sample(|| shown.clone());
    Ok(())
}

/// A number of pages to grow by: to the limit, beyond it, or across 4 GiB.
fn grow_by(x: &Mem, s: &mut Src) -> u64 {
    let top = x.t.max.unwrap_or((1 << 32) / x.unit());
    match s.below(6) {
        0 => top - x.pages,
        1 => top - x.pages + 1,
        2 => ((1u64 << 32) / x.unit() + s.below(3)).saturating_sub(x.pages),
        3 => *s.pick(&[u32::MAX as u64, 1 << 31, 1 << 32, 65536]),
        _ => s.below(5),
    }
}

fn length(x: &Mem, s: &mut Src) -> u64 {
    let l = match s.below(8) {
        0 => *s.pick(&[1u64 << 32, (1 << 32) - 1, 1 << 31, u64::MAX, 1 << 63]),
        1 => x.len(),
        2 => s.below(400),
        _ => s.below(40),
    };
    if x.t.m64 { l } else { l as u32 as u64 }
}

fn show(h: &Host) -> String {
    match h {
        Host::Read(a, n) => format!("read {n} at {a}"),
        Host::ReadAll(a, n) => format!("read_vec {n} at {a}"),
        Host::Write(a, d) => format!("write {d:?} at {a}"),
        Host::Store(a, d) => format!("copy_from_slice {d:?} at {a}"),
        Host::Fill(a, n, v) => format!("fill {n} bytes at {a} with {v}"),
        Host::Copy(a, b, n) => format!("copy_within {n} bytes from {a} to {b}"),
        Host::Grow(n) => format!("grow by {n}"),
        #[cfg(feature = "full")]
        Host::Cursor(a, d) => format!("cursor at {a} writes {d:?} and reads it back"),
    }
}

/// What the host sees (None: an error), with the effect on the model.
fn expected(h: &Host, x: &mut Mem) -> Option<String> {
    let room = |x: &Mem, a: u64, n: u64| x.len().saturating_sub(a).min(n);
    match h {
        Host::Read(a, n) => {
            let k = room(x, *a, *n);
            let mut d = x.bytes(*a, k);
            d.resize(*n as usize, 0xaa);
            Some(format!("{k} {d:?}"))
        }
        Host::ReadAll(a, n) => x.holds(*a, *n).then(|| format!("{:?}", x.bytes(*a, *n))),
        Host::Write(a, d) => {
            let k = room(x, *a, d.len() as u64);
            x.put_all(*a, &d[..k as usize]);
            Some(k.to_string())
        }
        Host::Store(a, d) => x.holds(*a, d.len() as u64).then(|| {
            x.put_all(*a, d);
            "()".into()
        }),
        Host::Fill(a, n, v) => x.holds(*a, *n).then(|| {
            x.put_all(*a, &vec![*v; *n as usize]);
            "()".into()
        }),
        Host::Copy(a, b, n) => (x.holds(*a, *n) && x.holds(*b, *n)).then(|| {
            let d = x.bytes(*a, *n);
            x.put_all(*b, &d);
            "()".into()
        }),
        Host::Grow(n) => {
            let r = if *n < 0 { None } else { x.grow(*n as u64) };
            Some(format!("{:?}", r.map(|p| p as i64)))
        }
        #[cfg(feature = "full")]
        Host::Cursor(a, d) => {
            let k = room(x, *a, d.len() as u64);
            x.put_all(*a, &d[..k as usize]);
            let b = x.bytes(*a, k);
            Some(format!("{} {k} {b:?}", a.wrapping_mul(2)))
        }
    }
}
