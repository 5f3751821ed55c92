//! Properties that compare one way of doing things with another: E07, L01, L02, M01, F01, K01.

use super::exec::{form_history, peep_diff};
use crate::enc;
use crate::forms;
use crate::hostops::span;
use crate::ir::*;
use crate::modgen::{self, Made, Prof, konst, memory_probe, pad_code, value};
use crate::num::Tr;
use crate::peep;
use crate::relay::{self, Mix};
use crate::runner::{Cx, Prop, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Drive, Out, Route, Variant, backend_flat, backend_short, listing, memty};
use crate::world::{Plan, World, diff_case, finish, hex, show_module};
use tinywasm::engine::{Config, FuelPolicy, StackConfig};
use tinywasm::types::WasmValue;
use tinywasm::{LazyLinearMemory, LinearMemory, MemoryBackend, Module as TModule, PagedMemory, VecMemory};

const BASE: &[&str] = &[
    "a difference counts only when the base configuration agrees with the reference model on the same history, so the model decides which side is wrong",
];

/// A profile leaning to one group of instructions, chosen at random.
pub fn any_prof(s: &mut Src) -> Prof {
    let mut p = Prof::default();
    match s.below(6) {
        0 => {}
        1 => {
            p.mem = 12;
            p.bulk = 6;
            p.max_mems = 3;
            p.mem64 = 200;
            p.custom_page = 150;
            p.trap = 100;
        }
        2 => {
            p.table = 8;
            p.indirect = 6;
            p.refs = 4;
            p.max_tabs = 3;
            p.segs = 4;
            p.mem = 0;
            p.bulk = 0;
        }
        3 => {
            p.calls = 10;
            p.tail = 6;
            p.indirect = 3;
            p.control = 10;
            p.max_funcs = 8;
            p.imports = 5;
        }
        4 => {
            p.simd = 5;
            p.floats = 5;
            p.numeric = 10;
            p.many_locals = 200;
        }
        _ => {
            p.mem = 5;
            p.idioms = 16;
            p.control = 8;
            p.dead = 500;
        }
    }
    p
}

// ------------------------------------------------------------------------------------------ E07

pub const E07: Prop = Prop {
    id: "E07",
    quick: 45_000,
    thorough: 6_000_000,
    rule: "the history executed at least 20 instructions or accessed a memory, under parser options different from the base",
    assumptions: BASE,
    case: e07,
    probes: &[],
};

fn e07_post(s: &mut Src, made: &mut Made) {
    for _ in 0..s.below(3) {
        memory_probe(s, made);
    }
}
fn pad_post(s: &mut Src, made: &mut Made) {
    e07_post(s, made);
    let want = *s.pick(&[8usize, 8, 9, 14, 25, 33, 48]);
    while made.m.funcs.len() < want {
        let f = s.pick(&made.m.funcs).clone();
        made.m.funcs.push(f);
    }
    pad_code(s, &mut made.m, 16 * 1024 + 200);
}

/// A module that uses its memories in one place.
fn lone(s: &mut Src) -> forms::Form {
    let mut m = Module::default();
    for _ in 0..s.range(1, 3) {
        let min = s.below(3);
        m.mems.push(MemTy { m64: s.chance(1, 4), min, max: s.bool().then(|| min + s.below(3)), page: None });
    }
    if s.chance(1, 3) {
        m.datas.push(Data { active: None, bytes: vec![1, 2, 3, 4, 5] });
    }
    let mut made = Made { m, imports: vec![], gf: 0 };
    modgen::memory_probe(s, &mut made);
    let m = made.m;
    let params = m.types[m.funcs[0].ty as usize].p.clone();
    forms::Form { m, ops: vec![], params }
}

fn e07(s: &mut Src, cx: &mut Cx) -> R {
    let mut prof = any_prof(s);
    if s.chance(2, 5) {
        // memories that the code does not use, or that a single instruction uses
        prof.quiet_mems = true;
        prof.mem = 0;
        prof.bulk = 0;
        prof.max_mems = 3;
        prof.segs = s.below(3);
    }
    let par = s.chance(1, 8);
    let post: fn(&mut Src, &mut Made) = if par { pad_post } else { e07_post };
    let plan = Plan { prof, w_mem: 3, w_inst: 3, max_insts: 3, host_items: 2, post: Some(post), ..Plan::default() };
    let mut v = Variant::any(s);
    let mut base = v.clone();
    v.validate = s.bool();
    v.rewrite = s.chance(2, 3);
    v.lazy = s.chance(2, 3);
    v.threads = match s.below(3) {
        0 => None,
        1 => Some(1),
        _ => Some(s.range(2, 9) as usize),
    };
    v.name = format!("validation {}, rewriting {}, memory skipping {}, threads {:?}, {}", v.validate, v.rewrite, v.lazy, v.threads, v.name);
    base.validate = !v.validate;
    base.rewrite = !v.rewrite;
    base.lazy = !v.lazy;
    base.threads = if v.threads == Some(1) { None } else { Some(1) };
    if !par && s.chance(1, 4) {
        let want = peep::Want { simd: s.bool(), maze: 40, ..peep::Want::default() };
        return peep_diff("E07", want, v, base, s, cx, |c, _| c.steps >= 20);
    }
    if !par && s.chance(1, 6) {
        cx.label("memory used in one place");
        let start = s.used();
        let f = lone(s);
        let (w, r) = form_history("E07", &f, v, s, cx, None);
        let n = w.steps_done + 1;
        let r = crate::world::against(r, start, s, |s2, cx2| {
            let f = lone(s2);
            form_history("E07", &f, base, s2, cx2, Some(n)).1
        })?;
        return finish(w, r, s, cx, |c, _| c.loads + c.stores + c.bulk + c.grows > 0);
    }
    if par {
        cx.label("large modules (parallel parsing)");
    }
    diff_case("E07", plan, v, base, s, cx, |c, _| c.steps >= 20 || c.loads + c.stores + c.bulk + c.grows > 0)
}

// ------------------------------------------------------------------------------------------ L01

pub const L01: Prop = Prop {
    id: "L01",
    quick: 22_000,
    thorough: 3_000_000,
    rule: "a module went through all routes, or a history with at least 10 executed instructions ran on a module from another route",
    assumptions: BASE,
    case: l01,
    probes: &[],
};

fn routes(s: &mut Src) -> (Route, String) {
    let r = match s.below(4) {
        0 => Route::Bytes,
        1 => Route::File,
        _ => Route::Stream(match s.below(5) {
            0 => 1,
            1 => s.range(2, 16) as usize,
            2 => s.range(17, 4096) as usize,
            3 => 4096,
            _ => 1 << 20,
        }),
    };
    (r, format!("{r:?}"))
}

/// Random damage to a binary.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(1, 3) {
        if b.is_empty() {
            b.push(s.u32() as u8);
            continue;
        }
        let i = s.usize(b.len());
        match s.below(9) {
            0 => b[i] ^= 1 << s.below(8),
            1 => b[i] = s.u32() as u8,
            2 => b[i] = *s.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x0b, 0x40, 0x41, 0xfd, 0xfc, 0x7e, 0x70]),
            3 => {
                b.remove(i);
            }
            4 => {
                let x = s.u32() as u8;
                b.insert(i, x);
            }
            5 => b.truncate(i),
            6 => {
                // copy a piece elsewhere
                let n = s.below(12).min((b.len() - i) as u64) as usize;
                let p: Vec<u8> = b[i..i + n].to_vec();
                let j = s.usize(b.len());
                for (k, x) in p.into_iter().enumerate() {
                    if j + k < b.len() {
                        b[j + k] = x;
                    }
                }
            }
            7 => {
                b[i] = b[i].wrapping_add(1 + 254 * s.below(2) as u8);
            }
            _ => {
                // trailing junk or an overlong integer
                if s.bool() {
                    b.push(s.u32() as u8);
                } else {
                    let x = b[i];
                    if x < 0x80 {
                        b[i] |= 0x80;
                        b.insert(i + 1, 0);
                    }
                }
            }
        }
    }
}

/// Equal, or (with a NaN constant, which makes a module unequal to itself) archived to the same bytes.
#[allow(clippy::eq_op)]
fn same_module(a: &TModule, b: &TModule) -> bool {
    a == b || (a != a && a.serialize_twasm().ok() == b.serialize_twasm().ok())
}

fn l01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 3) {
        let par = s.bool();
        let plan = Plan { prof: any_prof(s), w_inst: 2, post: if par { Some(pad_post) } else { None }, ..Plan::default() };
        let mut v = Variant::any(s);
        let base = Variant { threads: Some(1), ..v.clone() };
        (v.route, v.name) = routes(s);
        v.threads = if s.bool() { None } else { Some(s.range(1, 12) as usize) };
        v.name = format!("{} threads {:?}", v.name, v.threads);
        return diff_case("L01", plan, v, base, s, cx, |c, _| c.steps >= 10);
    }
    // one binary through all routes: accepted by all with equal modules, or rejected by all
    let mut prof = any_prof(s);
    prof.imports = 0;
    let mut made = modgen::module(s, &prof, &[]);
    let par = s.chance(1, 3);
    if par {
        pad_post(s, &mut made);
    }
    let mut wasm = enc::encode(&made.m);
    let damaged = s.bool();
    if damaged {
        if s.chance(1, 5) {
            // complete, with something behind it
            match s.below(4) {
                0 => {
                    let w = wasm.clone();
                    wasm.extend(w);
                }
                1 => wasm.extend(b"\0asm\x01\0\0\0"),
                _ => {
                    let x = *s.pick(&[0u8, 0, 0x0b, 0x20, 0xff, 0x0a]);
                    let n = *s.pick(&[1usize, 1, 2, 3, 7, 64, 5000]);
                    wasm.extend(std::iter::repeat_n(x, n));
                }
            }
            cx.label("complete modules with bytes behind them");
        } else {
            mutate(s, &mut wasm);
        }
    }
    let mut rest = vec![];
    let trailing = s.chance(1, 8);
    if trailing {
        // a custom section anywhere between sections would be fine too; at the end is simplest
        let mut sec = vec![];
        enc::leb(&mut sec, 3);
        sec.extend(b"abc");
        for _ in 0..s.below(40) {
            sec.push(s.u32() as u8);
        }
        rest.push(0);
        enc::leb(&mut rest, sec.len() as u64);
        rest.extend(sec);
        wasm.extend(&rest);
    }
    let opts = Variant { validate: !s.chance(1, 8) || damaged, rewrite: !s.chance(1, 4), lazy: !s.chance(1, 4), ..Variant::default() };
    let base = Variant { threads: Some(1), ..opts.clone() };
    let load = |v: &Variant, w: &[u8]| v.load(w);
    let first = load(&base, &wasm);
    if let Err(e) = &first
        && !damaged
    {
        return fail("valid module rejected", format!("{e}\n{}\n{}", hex(&wasm), show_module(&made.m)));
    }
    if first.is_ok() {
        cx.label("accepted by every route")
    } else {
        cx.label("rejected by every route")
    }
    let mut vs = vec![];
    for k in [1usize, 7, 64, 4096, 1 << 20] {
        vs.push((Route::Stream(k), Some(1)));
    }
    if s.chance(1, 6) {
        vs.push((Route::File, None));
    }
    let k = s.range(1, 300) as usize;
    vs.push((Route::Stream(k), None));
    vs.push((Route::Bytes, None));
    if par {
        cx.label("large modules (parallel parsing)");
        for t in [2usize, 3, 5, 8] {
            vs.push((Route::Bytes, Some(t)));
        }
        vs.push((Route::Stream(1000), Some(s.range(2, 16) as usize)));
    } else {
        vs.push((Route::Bytes, Some(s.range(2, 16) as usize)));
    }
    for (route, threads) in vs {
        let v = Variant { route, threads, ..opts.clone() };
        let r = load(&v, &wasm);
        let what = match (&first, &r) {
            (Ok(a), Ok(b)) if same_module(a, b) => continue,
            (Err(a), Err(b)) => {
                if b.starts_with("panic") && !a.starts_with("panic") {
                    format!("bytes, one thread: {a}; this route: {b}")
                } else {
                    continue;
                }
            }
            (Ok(_), Ok(_)) => "the modules differ".into(),
            (Ok(_), Err(e)) => format!("accepted from bytes with one thread, rejected by this route: {e}"),
            (Err(e), Ok(_)) => format!("rejected from bytes with one thread ({e}), accepted by this route"),
        };
        return fail(
            "routes disagree",
            format!("{route:?} with threads {threads:?} (damaged: {damaged}): {what}\n{}\n{}", hex(&wasm), show_module(&made.m)),
        );
    }
    // the free functions use the default options
    if opts.validate && opts.rewrite && opts.lazy {
        let r: Vec<Result<TModule, String>> = vec![
            guarded(|| tinywasm::parse_bytes(&wasm).map_err(|e| format!("{e:?}"))).unwrap_or_else(Err),
            #[cfg(feature = "full")]
            guarded(|| tinywasm::parse_stream(&wasm[..]).map_err(|e| format!("{e:?}"))).unwrap_or_else(Err),
            #[cfg(feature = "full")]
            crate::tw::in_file(&wasm, |f| guarded(|| tinywasm::parse_file(f).map_err(|e| format!("{e:?}"))).unwrap_or_else(Err)),
        ];
        for (i, r) in r.iter().enumerate() {
            let same = match (&first, r) {
                (Ok(a), Ok(b)) => same_module(a, b),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                return fail("routes disagree", format!("parse_{} and the parser disagree\n{}", ["bytes", "stream", "file"][i], hex(&wasm)));
            }
        }
    }
    cx.nontrivial(&wasm);
    cx.sample(|| format!("damaged {damaged}, accepted {}: {}", first.is_ok(), hex(&wasm[..wasm.len().min(300)])));
    Ok(())
}

// ------------------------------------------------------------------------------------------ L02

pub const L02: Prop = Prop {
    id: "L02",
    quick: 100_000,
    thorough: 4_000_000,
    rule: "a module was archived and loaded back and compared, or a history with at least 10 executed instructions ran on one",
    assumptions: BASE,
    case: l02,
    probes: &[],
};

fn l02(s: &mut Src, cx: &mut Cx) -> R {
    let mut v = Variant::any(s);
    v.rewrite = s.chance(3, 4);
    v.lazy = s.chance(3, 4);
    if s.chance(1, 3) {
        let mut prof = any_prof(s);
        prof.relaxed = s.bool();
        let plan = Plan { prof, w_inst: 3, max_insts: 3, w_mem: 2, post: Some(e07_post), ..Plan::default() };
        let base = v.clone();
        v.route = Route::Archive;
        v.name = format!("{} from an archive", v.name);
        return diff_case("L02", plan, v, base, s, cx, |c, _| c.steps >= 10);
    }
    let mut prof = any_prof(s);
    prof.relaxed = s.bool();
    prof.quiet_mems = s.bool();
    let mut made = modgen::module(s, &prof, &[]);
    e07_post(s, &mut made);
    crate::props::names::odd_names(s, &mut made.m);
    let wasm = enc::encode(&made.m);
    let bad = |sig: &str, t: String| {
        fail(sig, format!("{t}\nvariant: rewriting {}, skipping {}\n{}\n{}", v.rewrite, v.lazy, hex(&wasm), show_module(&made.m)))
    };
    let m = match v.load(&wasm) {
        Ok(m) => m,
        Err(e) => return bad("valid module rejected", e),
    };
    let a = match guarded(|| m.serialize_twasm()) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return bad("not serialisable", format!("{e:?}")),
        Err(p) => return bad(&panic_sig(&p), p),
    };
    let load = |b: &[u8]| guarded(|| TModule::try_from_twasm(b).map_err(|e| format!("{e:?}")));
    let n = match load(&a) {
        Ok(Ok(n)) => n,
        Ok(Err(e)) => return bad("archive rejected", e),
        Err(p) => return bad(&panic_sig(&p), p),
    };
    // a module with a NaN constant is not equal to itself
    #[allow(clippy::eq_op)]
    if n != m && m == m {
        return bad("archived module differs", "the module loaded back is not equal to the original".into());
    }
    match guarded(|| n.serialize_twasm()) {
        Ok(Ok(b)) if b == a => {}
        Ok(Ok(_)) => return bad("archive bytes differ", "serialising again gives other bytes".into()),
        Ok(Err(e)) => return bad("not serialisable", format!("{e:?}")),
        Err(p) => return bad(&panic_sig(&p), p),
    }
    if listing(&m) != listing(&n) {
        return bad("listings differ", format!("{:?} / {:?}", listing(&m), listing(&n)));
    }
    // damage to the header
    for _ in 0..s.range(1, 4) {
        let mut d = a.clone();
        let what;
        match s.below(4) {
            0 => {
                let k = s.usize(16);
                d.truncate(k);
                what = format!("truncated to {k} bytes");
            }
            1 => {
                let i = s.usize(16);
                d[i] ^= 1 << s.below(8);
                what = format!("byte {i} of the header changed to {:#x}", d[i]);
            }
            2 => {
                let i = s.usize(16);
                let x = s.u32() as u8;
                if d[i] == x {
                    continue;
                }
                d[i] = x;
                what = format!("byte {i} of the header set to {x:#x}");
            }
            _ => {
                let k = s.usize(15) + 1;
                d.drain(..k);
                what = format!("first {k} bytes missing");
            }
        }
        match load(&d) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return bad("damaged archive accepted", what),
            Err(p) => return bad(&panic_sig(&p), format!("{what}: {p}")),
        }
        cx.label("damaged headers rejected");
    }
    cx.nontrivial(&wasm);
    cx.sample(|| {
        format!("{} bytes of module, {} bytes of archive\n{}", wasm.len(), a.len(), show_module(&made.m).chars().take(500).collect::<String>())
    });
    Ok(())
}

// ------------------------------------------------------------------------------------------ M01

pub const M01: Prop = Prop {
    id: "M01",
    quick: 30_000,
    thorough: 5_000_000,
    rule: "the history executed at least 3 memory instructions or host memory accesses on a backend other than the base, or a backend ran a sequence of trait operations",
    assumptions: &[BASE[0], "chunk sizes of the paged backend are powers of two (asserted by PagedMemory::try_new)"],
    case: m01,
    probes: &[],
};

pub fn backend(s: &mut Src) -> (MemoryBackend, String) {
    let chunk = |s: &mut Src| -> usize {
        match s.below(4) {
            0 => 1 << s.below(5),
            1 => 1 << s.range(5, 10),
            2 => 1 << s.range(10, 17),
            _ => *s.pick(&[16usize, 64, 4096, 65536]),
        }
    };
    match s.below(8) {
        0 | 1 => (MemoryBackend::vec(), "vec".into()),
        2..=4 => {
            let c = chunk(s);
            (MemoryBackend::paged(c), format!("paged({c})"))
        }
        5 => {
            let k = *s.pick(&[1usize, 2, 3, 5, 7, 13, 100, 1000, 4095]);
            (backend_short(k), format!("custom memory transferring at most {k} bytes at a time"))
        }
        6 => {
            let c = chunk(s);
            (MemoryBackend::custom(move |t| LazyLinearMemory::try_new(t, MemoryBackend::paged(c))), format!("lazy paged({c})"))
        }
        _ => (MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::vec())), "lazy vec".into()),
    }
}

fn m01(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 2) {
        return m01_trait(s, cx);
    }
    if s.chance(1, 6) {
        return super::bulk::case(s, cx);
    }
    let trap = *s.pick(&[0u32, 60, 250]);
    let quiet = s.chance(1, 4);
    let prof = Prof {
        mem: if quiet { 0 } else { 12 },
        bulk: if quiet { 0 } else { 9 },
        quiet_mems: quiet,
        simd: 3,
        table: 0,
        indirect: 0,
        tail: 0,
        refs: 0,
        calls: 1,
        control: 3,
        trap,
        max_mems: 3,
        mem64: 300,
        custom_page: 300,
        max_funcs: 3,
        segs: 4,
        idioms: 6,
        start: 0,
        ..Prof::default()
    };
    let plan = Plan {
        prof,
        w_mem: 8,
        w_tab: 0,
        w_glob: 0,
        w_inst: 2,
        max_insts: 3,
        host_items: 3,
        rich_mem: s.bool(),
        post: Some(e07_post),
        ..Plan::default()
    };
    let (b, name) = backend(s);
    let v = Variant { cfg: Config::new().with_memory_backend(b), lazy: s.chance(2, 3), name, ..Variant::default() };
    let base = Variant { cfg: Config::new().with_memory_backend(backend_flat()), lazy: false, name: "flat memory".into(), ..Variant::default() };
    diff_case("M01", plan, v, base, s, cx, |c, w| c.loads + c.stores + c.bulk + c.grows + w.steps_done >= 3)
}

/// The built-in backends driven directly through their common trait, against a byte vector.
fn m01_trait(s: &mut Src, cx: &mut Cx) -> R {
    let page = *s.pick(&[0u32, 4, 8, 16]);
    let mt = MemTy { m64: s.bool(), min: if page == 16 { s.below(2) } else { s.below(40) }, max: None, page: Some(page) };
    let ty = memty(&mt);
    let psz = 1u64 << page;
    let chunk = 1usize << s.below(14);
    let mut model = vec![0u8; (mt.min * psz) as usize];
    let n0 = model.len();
    let (mut m, name): (Box<dyn LinearMemory>, String) = match s.below(6) {
        0 => (Box::new(VecMemory::try_new(n0).expect("VecMemory")), "VecMemory".into()),
        1 | 2 => (Box::new(PagedMemory::try_new(n0, chunk).expect("PagedMemory")), format!("PagedMemory({chunk})")),
        3 => (Box::new(LazyLinearMemory::try_new(ty, MemoryBackend::vec()).expect("lazy")), "lazy vec".into()),
        4 => (Box::new(LazyLinearMemory::try_new(ty, MemoryBackend::paged(chunk)).expect("lazy")), format!("lazy paged({chunk})")),
        _ => (Box::new(LazyLinearMemory::try_new(ty, backend_short(3)).expect("lazy")), "lazy custom".into()),
    };
    let mut trace = vec![format!("{name} of {n0} bytes")];
    let steps = s.range(3, 40);
    let mut key = vec![];
    macro_rules! bad {
        ($sig:expr, $($t:tt)*) => { return fail($sig, format!("{}\n  {}", format!($($t)*), trace.join("\n  "))) };
    }
    macro_rules! guard {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(r) => r,
                Err(p) => bad!(panic_sig(&p), "panic: {p}"),
            }
        };
    }
    for _ in 0..steps {
        let len = model.len() as u64;
        let (o, n) = span(s, len, 5000);
        let n = n.min(1 << 20);
        let ok = o as u128 + n as u128 <= len as u128;
        let (oz, nz) = (o as usize, n as usize);
        let x = if s.chance(1, 5) { 0 } else { s.u32() as u8 };
        let op = s.below(13);
        let data: Vec<u8> = (0..n.min(6000)).map(|i| x.wrapping_add((i as u8).wrapping_mul(37))).collect();
        let nd = data.len();
        let okd = o as u128 + nd as u128 <= len as u128;
        key.extend([op as u8, x]);
        key.extend(o.to_le_bytes());
        match op {
            0 => {
                trace.push(format!("read({o}, {n})"));
                let mut b = vec![0x5a; nz];
                let k = guard!(m.read(oz, &mut b)) as u64;
                let avail = len.saturating_sub(o).min(n);
                if k > avail || (k == 0 && avail > 0) || (k > 0 && b[..k as usize] != model[oz..oz + k as usize]) {
                    bad!("read", "{avail} bytes available, read {k}: {:?}", &b[..(k as usize).min(20)]);
                }
            }
            1 => {
                trace.push(format!("write({o}, {nd} bytes from {x})"));
                let k = guard!(m.write(oz, &data)) as u64;
                let avail = len.saturating_sub(o).min(nd as u64);
                if k > avail || (k == 0 && avail > 0) {
                    bad!("write", "{avail} bytes available, wrote {k}");
                }
                if k > 0 {
                    model[oz..oz + k as usize].copy_from_slice(&data[..k as usize]);
                }
            }
            2 => {
                trace.push(format!("write_all({o}, {nd} bytes from {x})"));
                let r = guard!(m.write_all(oz, &data));
                if r.is_some() != okd {
                    bad!("write_all", "in range: {okd}, got {r:?}");
                }
                if okd {
                    model[oz..oz + nd].copy_from_slice(&data);
                }
            }
            3 | 4 => {
                let val = if s.chance(1, 4) { 0 } else { x };
                trace.push(format!("fill({o}, {n}, {val})"));
                let r = guard!(m.fill(oz, nz, val));
                if r.is_some() != ok {
                    bad!("fill", "in range: {ok}, got {r:?}");
                }
                if ok {
                    model[oz..oz + nz].fill(val);
                }
            }
            5 | 6 => {
                let src = if s.bool() { o.wrapping_add(s.below(200)).wrapping_sub(100) } else { span(s, len, 10).0 };
                let ok = ok && src as u128 + n as u128 <= len as u128;
                trace.push(format!("copy_within(dst {o}, src {src}, {n})"));
                let r = guard!(m.copy_within(oz, src as usize, nz));
                if r.is_some() != ok {
                    bad!("copy_within", "in range: {ok}, got {r:?}");
                }
                if ok {
                    model.copy_within(src as usize..(src + n) as usize, oz);
                }
            }
            7 => {
                trace.push(format!("read_exact({o}, {n})"));
                let mut b = vec![0x5a; nz];
                let r = guard!(m.read_exact(oz, &mut b));
                if r.is_some() != ok || (ok && b[..] != model[oz..oz + nz]) {
                    bad!("read_exact", "in range: {ok}, got {r:?} {:?}", &b[..nz.min(20)]);
                }
            }
            8 => {
                trace.push(format!("read_vec({o}, {n})"));
                let r = guard!(m.read_vec(oz, nz));
                if r.as_deref() != if ok { Some(&model[oz..oz + nz]) } else { None } {
                    bad!("read_vec", "in range: {ok}, got {:?}", r.map(|b| b.len()));
                }
            }
            9 | 10 => {
                let w = 1usize << s.below(5);
                let okw = o as u128 + w as u128 <= len as u128;
                trace.push(format!("read_{}({o})", w * 8));
                let r: Option<Vec<u8>> = match w {
                    1 => guard!(m.read_8(oz)).ok().map(|b| b.to_vec()),
                    2 => guard!(m.read_16(oz)).ok().map(|b| b.to_vec()),
                    4 => guard!(m.read_32(oz)).ok().map(|b| b.to_vec()),
                    8 => guard!(m.read_64(oz)).ok().map(|b| b.to_vec()),
                    _ => guard!(m.read_128(oz)).ok().map(|b| b.to_vec()),
                };
                if r.as_deref() != if okw { Some(&model[oz..oz + w]) } else { None } {
                    bad!("fixed-width read", "in range: {okw}, got {r:?}");
                }
            }
            11 => {
                let w = 1usize << s.below(5);
                let okw = o as u128 + w as u128 <= len as u128;
                let d: Vec<u8> = (0..w).map(|_| s.u32() as u8).collect();
                trace.push(format!("write_{}({o}, {d:?})", w * 8));
                let r = match w {
                    1 => guard!(m.write_8(oz, &d)),
                    2 => guard!(m.write_16(oz, &d)),
                    4 => guard!(m.write_32(oz, &d)),
                    8 => guard!(m.write_64(oz, &d)),
                    _ => guard!(m.write_128(oz, &d)),
                };
                if r.is_ok() != okw {
                    bad!("fixed-width write", "in range: {okw}, got {:?}", r.is_ok());
                }
                if okw {
                    model[oz..oz + w].copy_from_slice(&d);
                }
            }
            _ => {
                if model.len() > 300_000 {
                    continue;
                }
                let k = model.len() + (s.below(3) * psz) as usize;
                trace.push(format!("grow_to({k})"));
                if let Err(t) = guard!(m.grow_to(k)) {
                    bad!("grow_to", "{t}");
                }
                model.resize(k, 0);
            }
        }
        if guard!(m.len()) != model.len() || guard!(m.is_empty()) != model.is_empty() {
            bad!("length", "expected {}, got {}", model.len(), m.len());
        }
    }
    let mut b = vec![0; model.len()];
    if guard!(m.read_exact(0, &mut b)).is_none() || b != model {
        let i = (0..b.len()).find(|i| b[*i] != model[*i]).unwrap_or(0);
        bad!("contents", "byte {i}: expected {:?}, got {:?}", model.get(i), b.get(i));
    }
    cx.label("trait operation sequences");
    cx.nontrivial(&key);
    cx.sample(|| trace.join("; "));
    Ok(())
}

// ------------------------------------------------------------------------------------------ F01

pub const F01: Prop = Prop {
    id: "F01",
    quick: 80_000,
    thorough: 5_000_000,
    rule: "at least one execution was suspended and resumed (or dropped) and the history executed at least 20 instructions",
    assumptions: BASE,
    case: f01,
    probes: &[],
};

pub fn some_drive(s: &mut Src) -> Drive {
    let slices = |s: &mut Src| -> Vec<u32> {
        let n = s.range(1, 5);
        let mut v: Vec<u32> = (0..n)
            .map(|_| match s.below(6) {
                0 => 1,
                1 => s.range(1, 10) as u32,
                2 => 128,
                3 => s.range(120, 140) as u32,
                4 => s.range(1, 2000) as u32,
                _ => 0,
            })
            .collect();
        if v.iter().all(|x| *x == 0) {
            v.push(1);
        }
        v
    };
    match s.below(5) {
        0 => Drive::Time,
        1 => Drive::Mixed(slices(s)),
        _ => Drive::Fuel(slices(s)),
    }
}

fn f01(s: &mut Src, cx: &mut Cx) -> R {
    let mut prof = any_prof(s);
    // calls of more than 128 instructions, so that slices end inside them
    prof.body = (20, 80);
    prof.idioms = prof.idioms.max(6);
    prof.control = prof.control.max(8);
    prof.trap = *s.pick(&[10, 60]);
    let plan = Plan { prof, w_drop: 3, host_calls: s.chance(1, 3), host_fail: 100, host_funcs: 3, ..Plan::default() };
    let drive = some_drive(s);
    let mut cfg = Variant::any(s).cfg;
    let weighted = s.bool();
    cfg = cfg.with_fuel_policy(if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction });
    let v = Variant { name: format!("{drive:?}, weighted fuel {weighted}"), drive, cfg: cfg.clone(), ..Variant::default() };
    let base = Variant { cfg, name: "one go".into(), ..Variant::default() };
    let mut plan2 = plan;
    if s.chance(1, 6) {
        return peep_diff("F01", peep::Want { control: 12, maze: 40, ..peep::Want::default() }, v, base, s, cx, |c, w| {
            c.steps >= 20 && w.tw.suspends > 0
        });
    }
    if s.chance(2, 5) {
        let mix = Mix { tail: 2, spin: 4, drops: s.bool(), ..Mix::default() };
        return relay::diff("F01", mix, v, base, s, cx, |c, w| c.steps >= 20 && w.tw.suspends + w.drops > 0);
    }
    if s.chance(1, 3) {
        plan2.w_drop = 0;
    }
    diff_case("F01", plan2, v, base, s, cx, |c, w| c.steps >= 20 && w.tw.suspends + w.drops > 0)
}

// ------------------------------------------------------------------------------------------ K01

pub const K01: Prop = Prop {
    id: "K01",
    quick: 90_000,
    thorough: 5_000_000,
    rule: "a call ended in stack exhaustion, or a call of known depth was made around a limit",
    assumptions: BASE,
    case: k01,
    probes: &[],
};

fn small_stack(s: &mut Src, hi: u64) -> StackConfig {
    let n = s.range(0, hi) as usize;
    match s.below(3) {
        0 => StackConfig::fixed(n),
        1 => StackConfig::dynamic(s.below(n as u64 + 1) as usize, n),
        _ => StackConfig::fixed(1000),
    }
}

fn k01(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(8) {
        0 => return super::stacks::k01_leftovers(s, cx),
        1..=4 => return k01_depth(s, cx),
        _ => {}
    }
    let mut prof = any_prof(s);
    prof.calls = prof.calls.max(8);
    prof.simd = prof.simd.max(1);
    prof.max_funcs = 6;
    let plan = Plan { prof, tight: true, host_calls: s.bool(), max_steps: 4000, ..Plan::default() };
    let mut cfg = Config::new().with_memory_backend(backend_flat());
    if s.chance(2, 3) {
        cfg = cfg.with_call_stack(small_stack(s, 6));
    }
    if s.chance(2, 3) {
        cfg = cfg.with_value_stack_32(small_stack(s, 60)).with_value_stack_64(small_stack(s, 40)).with_value_stack_128(small_stack(s, 20));
    }
    let drive = if s.chance(1, 4) { some_drive(s) } else { Drive::Call };
    let v = Variant { name: "tight stacks".into(), cfg, drive, ..Variant::default() };
    let base = Variant::flat();
    diff_case("K01", plan, v, base, s, cx, |_, w| w.exhausted > 0)
}

/// Recursion of a known depth around exact limits.
fn k01_depth(s: &mut Src, cx: &mut Cx) -> R {
    let mut m = Module::default();
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    // the counter is bumped by every activation, so that partial executions are visible
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("g", Kind::Glob, 1);
    // n functions calling each other in turn: f(d, junk...) = if d == 0 { 0 } else { 1 + next(d-1, junk...) }
    let n = s.range(1, 3) as usize;
    let pt: Vec<VT> = (0..s.below(4)).map(|_| *s.pick(&ALLT)).collect();
    let lt: Vec<VT> = (0..s.below(5)).map(|_| *s.pick(&ALLT)).collect();
    // values left on the stack under the call
    let ut: Vec<VT> = (0..s.below(4)).map(|_| *s.pick(&ALLT)).collect();
    let mut p = vec![VT::I32];
    p.extend(&pt);
    let t = FT { p: p.clone(), r: vec![VT::I32] };
    let ty = m.ty(t.clone());
    let indirect = s.chance(1, 3);
    for i in 0..n {
        let mut call = vec![];
        for t in &ut {
            let v = value(s, *t);
            call.push(konst(*t, v));
        }
        call.extend([In::LGet(0), In::I32(1), In::Op(0x6b)]);
        for k in 0..pt.len() {
            call.push(In::LGet(k as u32 + 1));
        }
        let nx = ((i + 1) % n) as u32;
        if indirect {
            call.extend([In::I32(nx), In::CallInd { ty, tab: 0 }]);
        } else {
            call.push(In::Call(nx));
        }
        call.push(In::LSet(1 + pt.len() as u32));
        for _ in &ut {
            call.push(DROP);
        }
        call.extend([In::LGet(1 + pt.len() as u32), In::I32(1), In::Op(0x6a)]);
        let mut locals = vec![VT::I32];
        locals.extend(&lt);
        let body = vec![In::GGet(1), In::I32(1), In::Op(0x6a), In::GSet(1), In::LGet(0), In::If(BT::Val(VT::I32), call, Some(vec![In::I32(0)]))];
        m.funcs.push(Func { ty, locals, body });
        m.export(format!("f{i}"), Kind::Func, i as u32);
    }
    if indirect {
        m.tables.push((TabTy { t64: false, el: VT::Func, min: n as u64, max: None }, None));
        m.elems.push(Elem { mode: ElemMode::Active { tab: 0, off: vec![In::I32(0)] }, items: ElemItems::Funcs((0..n as u32).collect()) });
    }
    let class = |t: VT| match t {
        VT::I64 | VT::F64 => 1,
        VT::V128 => 2,
        _ => 0usize,
    };
    // slots every activation holds while its callee runs / the most an activation can use at any point
    let mut held = [0u64; 3];
    let mut peak = [0u64; 3];
    let mut left = [0u64; 3];
    for t in &ut {
        left[class(*t)] += 1;
    }
    for t in p.iter().chain(&lt).chain(&ut).chain(&[VT::I32]) {
        held[class(*t)] += 1;
    }
    // operands: the junk (in `held` already), the arguments of the next call, a few temporaries
    for k in 0..3 {
        peak[k] = held[k];
    }
    for t in &p {
        peak[class(*t)] += 1;
    }
    peak[0] += 4;

    let which = s.below(3);
    let lim = match s.below(3) {
        0 => s.below(5),
        1 => s.range(1, 60),
        _ => s.range(60, if cx.thorough { 3000 } else { 700 }),
    };
    let stack = |s: &mut Src, n: u64| {
        let n = n as usize;
        match s.below(3) {
            0 => (StackConfig::fixed(n), format!("fixed({n})")),
            1 => {
                let i = s.below(n as u64 + 1) as usize;
                (StackConfig::dynamic(i, n), format!("dynamic({i}, {n})"))
            }
            _ => (StackConfig::dynamic(0, n), format!("dynamic(0, {n})")),
        }
    };
    let ample = StackConfig::dynamic(64, 1 << 20);
    let mut cfg = Config::new().with_memory_backend(backend_flat()).with_call_stack(ample).with_value_stack(ample);
    let name;
    let vlim;
    if which == 0 {
        let (c, t) = stack(s, lim);
        cfg = cfg.with_call_stack(c);
        name = format!("call stack {t}");
        vlim = None;
    } else {
        // a value stack of one class
        let k = *s.pick(&(0..3usize).filter(|k| held[*k] > 0).collect::<Vec<_>>());
        let size = lim * held[k] + s.below(held[k] + 3);
        let (c, t) = stack(s, size);
        cfg = match k {
            0 => cfg.with_value_stack_32(c),
            1 => cfg.with_value_stack_64(c),
            _ => cfg.with_value_stack_128(c),
        };
        name = format!("value stack {} {t}", ["32", "64", "128"][k]);
        vlim = Some((k, size));
    }
    let drive = if s.chance(1, 5) { some_drive(s) } else { Drive::Call };
    let v = Variant { cfg, drive, name: name.clone(), ..Variant::default() };
    let mut w = World::new("K01", Plan::default(), v);
    w.inst(cx, m, vec![], 0)?;
    let g = w.ms.insts[0].globs[1];
    let gh = w.tw.h.borrow().globs[g].unwrap();
    let calls = s.range(2, 7);
    let mut key = format!("{name} {pt:?} {lt:?} {ut:?} {n} {indirect}").into_bytes();
    for _ in 0..calls {
        let f = s.usize(n);
        let a = w.ms.insts[0].funcs[f];
        let d = match s.below(7) {
            0 => s.below(lim + 1),
            1 => lim,
            2 => lim + 1,
            3 => lim.saturating_sub(1),
            4 => lim + 2,
            5 => lim * 2 + s.below(5),
            _ => lim + s.below(lim / 2 + 3),
        };
        key.extend(d.to_le_bytes());
        let mut args = vec![WasmValue::I32(d as i32)];
        for t in &pt {
            let v = value(s, *t);
            args.push(w.tw.h.borrow().to_wv(*t, v));
        }
        // what must happen: Some(true) completes, Some(false) exhausts, None either
        let must = match vlim {
            None => Some(d <= lim),
            Some((k, size)) => {
                // the innermost activation holds only its parameters and locals
                if (d + 1) * held[k] - left[k] > size {
                    Some(false)
                } else if d * held[k] + peak[k] <= size {
                    Some(true)
                } else {
                    None
                }
            }
        };
        w.note(format!("set g = 0, call f{f} with depth {d} (must complete: {must:?})"));
        if let Err(p) = guarded(|| gh.set(&mut w.tw.store, WasmValue::I32(0))) {
            return w.bad(panic_sig(&p), p);
        }
        let r = w.tw.call(a, &args);
        let gv = match guarded(|| gh.get(&w.tw.store)) {
            Ok(Ok(WasmValue::I32(x))) => x as i64 as u64,
            r => return w.bad("global", format!("{r:?}")),
        };
        match (&r, must) {
            (Out::Ok(x), m) if m != Some(false) => {
                if x.len() != 1 || !matches!(x[0], WasmValue::I32(k) if k as u64 == d) {
                    return w.bad("result under limits", format!("expected {d}, got {x:?}"));
                }
                if gv != d + 1 {
                    return w.bad("state under limits", format!("{} activations ran, expected {}", gv, d + 1));
                }
                w.completed += 1;
            }
            (Out::Trap(Tr::Stack), m) if m != Some(true) => {
                if gv > d {
                    return w.bad("state under limits", format!("exhausted, yet {gv} of {} activations ran", d + 1));
                }
                if vlim.is_none() && gv != lim + 1 {
                    return w.bad("depth at exhaustion", format!("exhausted with {gv} activations, the limit allows {}", lim + 1));
                }
                w.exhausted += 1;
                w.trapped += 1;
            }
            (Out::Panic(p), _) => return w.bad(panic_sig(p), p.clone()),
            _ => return w.bad("limit not respected", format!("depth {d}: expected completion {must:?}, got {}", r.map(|_| ()).kind())),
        }
    }
    cx.label("recursions of known depth around a limit");
    cx.nontrivial(&key);
    cx.sample(|| w.sample());
    let _ = finish;
    Ok(())
}
