//! L03: loading accepts exactly the valid modules and never crashes.

use super::variants::{any_prof, mutate};
use crate::enc;
use crate::ir::*;
use crate::modgen::{self, konst, value};
use crate::ops;
use crate::runner::{Cx, Prop, R, fail, panic_sig};
use crate::tape::Src;
use crate::tw::{Route, Variant, encode};
use crate::world::{hex, validate};

pub const L03: Prop = Prop {
    id: "L03",
    quick: 35_000,
    thorough: 8_000_000,
    rule: "a distinct byte string of at least 8 bytes was judged by the validator and loaded",
    assumptions: &[
        "the wasmparser crate's validator, run on its own with the supported proposals, decides validity",
        "a valid but damaged module rejected as unsupported may use a construct outside the supported set",
    ],
    case: l03,
    probes: &[],
};

/// Any instruction with small random immediates; not necessarily valid.
pub fn any_in(s: &mut Src, d: u32) -> In {
    let k = |s: &mut Src| s.below(4) as u32;
    let ma = |s: &mut Src| MA { align: s.below(4) as u32, off: *s.pick(&[0, 1, 65535, 0xffff_ffff]), mem: s.below(8).saturating_sub(5) as u32 };
    let vt = |s: &mut Src| *s.pick(&ALLT);
    let bt = |s: &mut Src| match s.below(4) {
        0 => BT::Val(*s.pick(&ALLT)),
        1 => BT::Ty(s.below(4) as u32),
        _ => BT::Empty,
    };
    let list = |s: &mut Src, d: u32| -> Vec<In> { (0..s.below(4)).map(|_| any_in(s, d - 1)).collect() };
    match s.below(46) {
        0 => In::Op(0),
        1 => In::Op(1),
        2 => In::Op(0x0f),
        3 | 4 => DROP,
        5 | 6 => SELECT,
        7..=12 => In::Op(s.range(0x45, 0xc4) as u8),
        13 => In::Fc(*s.pick(&ops::FC_OPS)),
        14 => In::I32(s.u32()),
        15 => In::I64(s.u64()),
        16 => In::F32(s.u32()),
        17 => In::F64(s.u64()),
        18 => In::V128(s.u64() as u128),
        19 if d > 0 => In::Block(bt(s), list(s, d)),
        20 if d > 0 => In::Loop(bt(s), list(s, d)),
        21 if d > 0 => {
            let e = s.bool().then(|| list(s, d));
            In::If(bt(s), list(s, d), e)
        }
        22 => In::Br(k(s)),
        23 => In::BrIf(k(s)),
        24 => In::BrTable((0..s.below(4)).map(|_| s.below(3) as u32).collect(), k(s)),
        25 => In::Call(k(s)),
        26 => In::CallInd { ty: k(s), tab: s.below(2) as u32 },
        27 => In::RetCall(k(s)),
        28 => In::RetCallInd { ty: k(s), tab: s.below(2) as u32 },
        29 => In::SelectT(vt(s)),
        30 => In::LGet(k(s)),
        31 => In::LSet(k(s)),
        32 => In::LTee(k(s)),
        33 => In::GGet(k(s)),
        34 => In::GSet(k(s)),
        35 => match s.below(8) {
            0 => In::TGet(0),
            1 => In::TSet(0),
            2 => In::TSize(0),
            3 => In::TGrow(0),
            4 => In::TFill(k(s)),
            5 => In::TCopy { d: 0, s: s.below(2) as u32 },
            6 => In::TInit { elem: 0, tab: s.below(2) as u32 },
            _ => In::ElemDrop(k(s)),
        },
        36 | 37 => In::Mem(s.range(0x28, 0x3e) as u8, ma(s)),
        38 => match s.below(6) {
            0 => In::MSize(s.below(2) as u32),
            1 => In::MGrow(0),
            2 => In::MFill(0),
            3 => In::MCopy { d: 0, s: s.below(2) as u32 },
            4 => In::MInit { data: k(s), mem: 0 },
            _ => In::DataDrop(k(s)),
        },
        39 => In::RefNull(*s.pick(&[VT::Func, VT::Extern])),
        40 => In::RefFunc(k(s)),
        41 => REF_IS_NULL,
        42 => In::Simd(*s.pick(&ops::all_simd())),
        43 => In::SimdLane(s.range(0x15, 0x22) as u32, s.below(20) as u8),
        44 => In::SimdMem(*s.pick(&ops::SIMD_LOADS), ma(s)),
        45 => In::SimdMemLane(*s.pick(&ops::SIMD_STORE_LANES), ma(s), s.below(9) as u8),
        _ => In::Shuffle(std::array::from_fn(|i| (i as u8 * 3) % 36)),
    }
}

/// Every instruction list of a module, as paths: (function, list number in visiting order).
fn with_list(c: &mut Vec<In>, n: &mut usize, f: &mut dyn FnMut(&mut Vec<In>)) -> bool {
    if *n == 0 {
        f(c);
        return true;
    }
    *n -= 1;
    for i in c.iter_mut() {
        let hit = match i {
            In::Block(_, b) | In::Loop(_, b) => with_list(b, n, f),
            In::If(_, a, b) => with_list(a, n, f) || b.as_mut().is_some_and(|b| with_list(b, n, f)),
            _ => false,
        };
        if hit {
            return true;
        }
    }
    false
}
fn lists(c: &[In]) -> usize {
    1 + c
        .iter()
        .map(|i| match i {
            In::Block(_, b) | In::Loop(_, b) => lists(b),
            In::If(_, a, b) => lists(a) + b.as_ref().map_or(0, |b| lists(b)),
            _ => 0,
        })
        .sum::<usize>()
}

fn tweak(s: &mut Src, i: &mut In) {
    let bump = |s: &mut Src, x: &mut u32| *x = if s.bool() { x.wrapping_add(1) } else { s.below(5) as u32 };
    match i {
        In::Op(o) => *o = if s.bool() { s.range(0x45, 0xc4) as u8 } else { *s.pick(&[0, 1, 0x0f, 0x1a, 0x1b, 0xd1]) },
        In::Fc(o) => *o = *s.pick(&ops::FC_OPS),
        In::Block(t, _) | In::Loop(t, _) | In::If(t, ..) => {
            *t = match s.below(3) {
                0 => BT::Empty,
                1 => BT::Val(*s.pick(&ALLT)),
                _ => BT::Ty(s.below(5) as u32),
            }
        }
        In::Br(x) | In::BrIf(x) | In::Call(x) | In::RetCall(x) | In::LGet(x) | In::LSet(x) | In::LTee(x) | In::GGet(x) | In::GSet(x) => bump(s, x),
        In::TGet(x) | In::TSet(x) | In::TSize(x) | In::TGrow(x) | In::TFill(x) | In::ElemDrop(x) | In::DataDrop(x) => bump(s, x),
        In::MSize(x) | In::MGrow(x) | In::MFill(x) | In::RefFunc(x) => bump(s, x),
        In::BrTable(v, d) => {
            if v.is_empty() || s.bool() {
                bump(s, d)
            } else {
                let k = s.usize(v.len());
                bump(s, &mut v[k])
            }
        }
        In::CallInd { ty, tab } | In::RetCallInd { ty, tab } => {
            if s.bool() {
                bump(s, ty)
            } else {
                bump(s, tab)
            }
        }
        In::TCopy { d, s: x } | In::MCopy { d, s: x } => {
            if s.bool() {
                bump(s, d)
            } else {
                bump(s, x)
            }
        }
        In::TInit { elem, tab } => {
            if s.bool() {
                bump(s, elem)
            } else {
                bump(s, tab)
            }
        }
        In::MInit { data, mem } => {
            if s.bool() {
                bump(s, data)
            } else {
                bump(s, mem)
            }
        }
        In::SelectT(t) | In::RefNull(t) => *t = *s.pick(&[VT::I32, VT::V128, VT::Func, VT::Extern]),
        In::Mem(o, ma) => match s.below(4) {
            0 => *o = s.range(0x28, 0x3e) as u8,
            1 => ma.align = s.below(6) as u32,
            2 => ma.off = *s.pick(&[0xffff_ffff, 0x1_0000_0000, u64::MAX]),
            _ => bump(s, &mut ma.mem),
        },
        In::SimdMem(_, ma) => ma.align = s.below(6) as u32,
        In::SimdMemLane(_, ma, l) => {
            if s.bool() {
                *l = s.below(20) as u8
            } else {
                ma.align = s.below(5) as u32
            }
        }
        In::Simd(o) => *o = *s.pick(&ops::all_simd()),
        In::SimdLane(_, l) => *l = s.below(20) as u8,
        In::Shuffle(l) => l[s.usize(16)] = s.below(40) as u8,
        _ => *i = any_in(s, 1),
    }
    // the instruction set has no null of a number type
    if let In::RefNull(t) = i
        && !t.is_ref()
    {
        *t = VT::Func;
    }
}

fn const_tweak(s: &mut Src, e: &mut Vec<In>) {
    match s.below(4) {
        0 => *e = vec![any_in(s, 1)],
        1 => e.push(any_in(s, 1)),
        2 if !e.is_empty() => {
            let k = s.usize(e.len());
            tweak(s, &mut e[k])
        }
        _ => {
            let t = *s.pick(&NUMV);
            *e = vec![konst(t, value(s, t))]
        }
    }
}

/// One small change anywhere in the module.
pub fn change(s: &mut Src, m: &mut Module) {
    if s.chance(2, 3) && !m.funcs.is_empty() {
        let f = s.usize(m.funcs.len());
        let body = &mut m.funcs[f].body;
        let mut n = s.usize(lists(body));
        with_list(body, &mut n, &mut |c| {
            let k = s.usize(c.len() + 1);
            match s.below(7) {
                0 => c.insert(k, any_in(s, 2)),
                1 if k < c.len() => {
                    c.remove(k);
                }
                2 if k < c.len() => c.insert(k, c[k].clone()),
                3 if k + 1 < c.len() => c.swap(k, k + 1),
                4 if k < c.len() => {
                    let tail = c.split_off(k);
                    c.push(In::Block(BT::Empty, tail));
                }
                _ if k < c.len() => tweak(s, &mut c[k]),
                _ => c.push(any_in(s, 2)),
            }
        });
        return;
    }
    let n = |s: &mut Src, len: usize| s.usize(len.max(1));
    match s.below(20) {
        0 => {
            let k = n(s, m.types.len());
            if let Some(t) = m.types.get_mut(k) {
                if s.bool() {
                    t.p.push(*s.pick(&ALLT));
                } else if s.bool() {
                    t.p.pop();
                } else {
                    t.r = vec![*s.pick(&ALLT)];
                }
            }
        }
        1 => {
            let k = n(s, m.funcs.len());
            if let Some(f) = m.funcs.get_mut(k) {
                f.ty = s.below(m.types.len() as u64 + 2) as u32;
            }
        }
        2 => {
            let k = n(s, m.funcs.len());
            if let Some(f) = m.funcs.get_mut(k) {
                if s.bool() {
                    f.locals.pop();
                } else {
                    f.locals.insert(0, *s.pick(&ALLT));
                }
            }
        }
        3 | 4 => {
            let k = n(s, m.globals.len());
            if let Some((t, e)) = m.globals.get_mut(k) {
                match s.below(3) {
                    0 => t.m = !t.m,
                    1 => t.t = *s.pick(&ALLT),
                    _ => const_tweak(s, e),
                }
            }
        }
        5 => {
            let k = n(s, m.exports.len());
            let d = m.exports.first().map(|e| e.name.clone());
            if let Some(e) = m.exports.get_mut(k) {
                match s.below(3) {
                    0 => e.idx += 1,
                    1 => e.kind = *s.pick(&[Kind::Func, Kind::Tab, Kind::Mem, Kind::Glob]),
                    _ => e.name = d.unwrap_or_default(),
                }
            }
        }
        6 => m.start = Some(s.below(m.n_funcs() as u64 + 2) as u32),
        7 | 8 => {
            let k = n(s, m.mems.len());
            if let Some(t) = m.mems.get_mut(k) {
                match s.below(5) {
                    0 => t.max = Some(t.min.saturating_sub(1)),
                    1 => t.min = *s.pick(&[65535, 65536, 65537, 1 << 32, 1 << 48, (1 << 48) + 1, u64::MAX]),
                    2 => t.max = Some(*s.pick(&[65536, 65537, 1 << 32, 1 << 48, (1 << 48) + 1, u64::MAX])),
                    3 => t.page = Some(s.below(20) as u32),
                    _ => t.m64 = !t.m64,
                }
            } else {
                m.mems.push(MemTy { m64: s.bool(), min: s.below(3), max: None, page: None });
            }
        }
        9 | 10 => {
            let k = n(s, m.tables.len());
            if let Some((t, e)) = m.tables.get_mut(k) {
                match s.below(5) {
                    0 => t.max = Some(t.min.saturating_sub(1)),
                    1 => t.min = *s.pick(&[10_000_000, 10_000_001, u32::MAX as u64, 1 << 32, u64::MAX]),
                    2 => t.el = *s.pick(&[VT::Func, VT::Extern]),
                    3 => t.t64 = !t.t64,
                    _ => match e {
                        Some(e) => const_tweak(s, e),
                        None => *e = Some(vec![In::RefNull(*s.pick(&[VT::Func, VT::Extern]))]),
                    },
                }
            }
        }
        11 | 12 => {
            let k = n(s, m.elems.len());
            if let Some(e) = m.elems.get_mut(k) {
                match s.below(4) {
                    0 => e.mode = ElemMode::Active { tab: s.below(3) as u32, off: vec![In::I32(0)] },
                    1 => {
                        if let ElemMode::Active { off, .. } = &mut e.mode {
                            const_tweak(s, off)
                        }
                    }
                    2 => match &mut e.items {
                        ElemItems::Funcs(f) => f.push(s.below(9) as u32),
                        ElemItems::Exprs(t, v) => {
                            if s.bool() || v.is_empty() {
                                *t = *s.pick(&[VT::Func, VT::Extern])
                            } else {
                                let k = s.usize(v.len());
                                const_tweak(s, &mut v[k])
                            }
                        }
                    },
                    _ => e.items = ElemItems::Exprs(VT::Func, vec![vec![In::GGet(s.below(4) as u32)]]),
                }
            }
        }
        13 | 14 => {
            let k = n(s, m.datas.len());
            if let Some(d) = m.datas.get_mut(k) {
                match &mut d.active {
                    Some((mem, off)) => {
                        if s.bool() {
                            *mem += 1
                        } else {
                            const_tweak(s, off)
                        }
                    }
                    None => d.active = Some((s.below(2) as u32, vec![In::I32(0)])),
                }
            } else {
                m.datas.push(Data { active: Some((0, vec![In::I32(0)])), bytes: vec![1] });
            }
        }
        15 => {
            m.datas.pop();
        }
        16 => {
            m.elems.pop();
        }
        17 => {
            let k = n(s, m.imports.len());
            let d = match s.below(4) {
                0 => Desc::Func(s.below(m.types.len() as u64 + 2) as u32),
                1 => Desc::Glob(GlobTy { t: *s.pick(&ALLT), m: s.bool() }),
                2 => Desc::Mem(MemTy { m64: s.bool(), min: s.below(3), max: Some(s.below(3)), page: None }),
                _ => Desc::Tab(TabTy { t64: s.bool(), el: VT::Func, min: s.below(3), max: Some(s.below(3)) }),
            };
            match m.imports.get_mut(k) {
                Some(i) if s.bool() => i.desc = d,
                _ => m.imports.push(Import { module: "m".into(), name: "n".into(), desc: d }),
            }
        }
        18 => {
            m.mems.pop();
        }
        _ => {
            m.tables.pop();
        }
    }
}

fn split(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    let mut i = 8;
    while i < b.len() {
        let (st, mut n, mut sh) = (i, 0usize, 0);
        i += 1;
        loop {
            let x = *b.get(i)?;
            i += 1;
            n |= ((x & 0x7f) as usize) << sh;
            sh += 7;
            if x < 0x80 {
                break;
            }
        }
        i += n;
        v.push(b.get(st..i)?.to_vec());
    }
    Some(v)
}

/// Damage to the order and number of sections.
fn sections(s: &mut Src, b: &mut Vec<u8>) {
    let Some(mut v) = split(b) else { return };
    for _ in 0..s.range(1, 2) {
        if v.is_empty() {
            break;
        }
        let k = s.usize(v.len());
        match s.below(5) {
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, v[k].clone()),
            2 => {
                let j = s.usize(v.len());
                v.swap(k, j)
            }
            3 => v[k][0] = s.below(16) as u8,
            _ => {
                let c = vec![0, 3, 1, b'x', s.u32() as u8];
                v.insert(k, c);
            }
        }
    }
    b.truncate(8);
    b.extend(v.into_iter().flatten());
}

/// Long valid instruction sequences in code that is never reached.
pub fn dead(s: &mut Src, made: &mut Module) {
    let m = made;
    if m.funcs.is_empty() {
        return;
    }
    let f = s.usize(m.funcs.len());
    let nr = m.types[m.funcs[f].ty as usize].r.len();
    let start: Vec<In> = match s.below(5) {
        0 => vec![UNREACHABLE],
        1 if nr == 0 => vec![RETURN],
        2 => vec![In::Loop(BT::Empty, vec![In::Br(0)]), UNREACHABLE],
        3 => vec![In::Block(BT::Empty, vec![In::Br(0)]), UNREACHABLE],
        _ => vec![UNREACHABLE],
    };
    let mut body = start.clone();
    let want = s.range(3, 25);
    let mut tries = 0;
    let mut have = 0;
    while have < want && tries < 80 {
        tries += 1;
        let i = any_in(s, 2);
        body.push(i);
        // decide on the prefix: anything may follow, so end it with an unreachable
        body.push(UNREACHABLE);
        m.funcs[f].body = body.clone();
        let ok = validate(&encode(m)).is_ok();
        body.pop();
        if ok {
            have += 1;
        } else {
            body.pop();
        }
    }
    if s.bool() {
        body.push(UNREACHABLE);
    }
    // the same below live code of a block
    if s.chance(1, 3) {
        body = vec![
            In::Block(BT::Empty, vec![In::Block(BT::Empty, vec![UNREACHABLE])]),
            UNREACHABLE,
            In::I32(1),
            In::If(BT::Empty, body, None),
            UNREACHABLE,
        ];
    }
    m.funcs[f].body = body;
}

/// Modules with one huge dimension.
fn extreme(s: &mut Src, cx: &Cx) -> Module {
    let mut m = Module::default();
    let scale = if cx.thorough { 4 } else { 1 };
    let mut f = Func::default();
    let mut t = FT::default();
    match s.below(13) {
        0 => {
            let d = s.range(1, 600 * scale);
            let mut b = vec![NOP];
            for k in 0..d {
                b = vec![match k % 3 {
                    0 => In::Block(BT::Empty, b),
                    1 => In::Loop(BT::Empty, b),
                    _ => In::Block(BT::Empty, vec![In::I32(1), In::If(BT::Empty, b, None)]),
                }];
            }
            f.body = b;
        }
        1 => {
            let n = s.range(1, 5000);
            f.body =
                vec![In::Block(BT::Empty, vec![In::Block(BT::Empty, vec![In::I32(3), In::BrTable((0..n).map(|i| (i % 3) as u32).collect(), 1)])])];
        }
        2 => {
            let n = *s.pick(&[255, 256, 257, 1000, 30000, 49_999, 50_000, 50_001, 65_535, 65_536, 70_000]);
            let ty = *s.pick(&ALLT);
            f.locals = vec![ty; n];
            f.body = vec![In::LGet(n as u32 - 1), DROP, In::LGet(0), DROP];
        }
        3 => {
            let n = *s.pick(&[255, 256, 257, 999, 1000, 1001]);
            t.p = (0..n).map(|i| NUMV[i % 5]).collect();
            f.body = vec![In::LGet(n as u32 - 1), DROP];
        }
        4 => {
            let n = *s.pick(&[100, 255, 256, 257, 999, 1000, 1001]);
            let ty = *s.pick(&NUMV);
            t.r = vec![ty; n];
            f.body = (0..n).map(|_| konst(ty, crate::model::default_of(ty))).collect();
        }
        5 => {
            let n = s.range(1, 3000 * scale) as usize;
            f.body = vec![In::I32(1); n];
            f.body.extend(vec![In::Op(0x6a); n - 1]);
            f.body.push(DROP);
        }
        6 => {
            for i in 0..s.range(1, 1500) {
                let ty = m.ty(ft(&[], &[]));
                m.funcs.push(Func { ty, locals: vec![], body: vec![In::Call(i as u32)] });
            }
        }
        7 => {
            for i in 0..s.range(1, 2000) {
                m.globals.push((GlobTy { t: VT::I64, m: i % 2 == 0 }, vec![In::I64(i)]));
                m.export(format!("g{i}"), Kind::Glob, i as u32);
            }
        }
        8 => {
            let n = *s.pick(&[1000, 99_999, 100_000, 100_001]);
            m.export("n".repeat(n), Kind::Func, 0);
        }
        9 => {
            m.mems.push(MemTy { m64: false, min: 20, max: None, page: None });
            m.datas.push(Data { active: Some((0, vec![In::I32(0)])), bytes: vec![7; s.range(1, 1_000_000) as usize] });
        }
        10 => {
            for _ in 0..*s.pick(&[99, 100, 101]) {
                m.mems.push(MemTy { m64: false, min: 0, max: Some(1), page: None });
            }
            f.body = vec![In::MSize(m.mems.len() as u32 - 1), DROP];
        }
        11 => {
            for _ in 0..*s.pick(&[99, 100, 101]) {
                m.tables.push((TabTy { t64: false, el: VT::Func, min: 0, max: Some(1) }, None));
            }
            f.body = vec![In::TSize(m.tables.len() as u32 - 1), DROP];
        }
        _ => {
            // many values under a branch
            let n = *s.pick(&[10, 255, 256, 300, 1000]);
            let ty = *s.pick(&NUMV);
            let mut b: Vec<In> = (0..n).map(|_| konst(ty, crate::model::default_of(ty))).collect();
            b.extend([In::I32(1), In::BrIf(0)]);
            b.extend(vec![DROP; n - 1]);
            f.body = vec![In::Block(BT::Val(ty), b), DROP];
        }
    }
    f.ty = m.ty(t);
    m.funcs.insert(0, f);
    m
}

fn noise(s: &mut Src) -> Vec<u8> {
    let mut b: Vec<u8> = match s.below(4) {
        0 => vec![],
        1 => b"\0asm".to_vec(),
        _ => b"\0asm\x01\0\0\0".to_vec(),
    };
    if s.bool() {
        for _ in 0..s.below(60) {
            b.push(s.u32() as u8);
        }
        return b;
    }
    for id in 0..s.below(14) as u8 {
        let n = s.below(10);
        b.push(if s.chance(1, 8) { s.below(16) as u8 } else { id });
        let claim = if s.chance(1, 6) { s.below(1 << 33) } else { n };
        enc::leb(&mut b, claim);
        for _ in 0..n {
            let x = if s.bool() { s.below(4) as u8 } else { s.u32() as u8 };
            b.push(x);
        }
    }
    b
}

fn l03(s: &mut Src, cx: &mut Cx) -> R {
    let mut prof = any_prof(s);
    prof.imports = 3;
    let base = |s: &mut Src| {
        let mut p = prof.clone();
        p.wide = true;
        if s.chance(1, 3) {
            p.mem64 = 500;
            p.t64 = 300;
            p.max_mems = 3;
            p.max_tabs = 3;
        }
        if s.bool() {
            p.body = (2, 12);
        }
        modgen::module(s, &p, &[]).m
    };
    // never needs anything outside the supported set
    let mut plain = true;
    let (kind, wasm) = match s.below(20) {
        0..=4 => ("valid", encode(&base(s))),
        5..=9 => {
            let mut m = base(s);
            for _ in 0..s.range(1, 3) {
                change(s, &mut m);
            }
            ("changed", encode(&m))
        }
        10..=13 => {
            let mut m = base(s);
            dead(s, &mut m);
            if s.chance(1, 4) {
                change(s, &mut m);
            }
            ("dead code", encode(&m))
        }
        14..=16 => {
            plain = false;
            let mut w = encode(&base(s));
            if s.chance(1, 6) {
                // cut off in a section that claims to be long
                w.truncate(8 + s.below(w.len() as u64 - 7) as usize);
                if s.bool() {
                    w.truncate(8);
                }
                w.push(s.below(13) as u8);
                crate::enc::leb(&mut w, s.range(1 << 20, 1 << 28));
                let n = s.below(9);
                w.extend((0..n).map(|_| s.u32() as u8));
            } else if s.chance(1, 4) {
                sections(s, &mut w);
            } else {
                mutate(s, &mut w);
            }
            ("damaged", w)
        }
        17 | 18 => {
            plain = false;
            ("noise", noise(s))
        }
        _ => ("extreme", encode(&extreme(s, cx))),
    };
    let verdict = validate(&wasm);
    let mut v = Variant::default();
    if s.chance(1, 4) {
        v.route = *s.pick(&[Route::Stream(1), Route::Stream(13), Route::Stream(4096)]);
    }
    v.rewrite = !s.chance(1, 6);
    v.lazy = !s.chance(1, 6);
    v.threads = *s.pick(&[Some(1), Some(1), Some(4), None]);
    let (r, most) = crate::heap::largest(|| v.load(&wasm));
    if most > (64 << 20) + 1024 * wasm.len() {
        return fail(
            "memory use while loading",
            format!("{most} bytes in one allocation for a file of {} bytes\n{kind}, {:?}: {}", wasm.len(), v.route, hex(&wasm)),
        );
    }
    let shown = || format!("{kind}, {:?}, rewriting {}, threads {:?}: {}", v.route, v.rewrite, v.threads, hex(&wasm[..wasm.len().min(4000)]));
    match (&verdict, &r) {
        (_, Err(e)) if e.starts_with("panic") => return fail(panic_sig(e), format!("loading panicked: {e}\n{}", shown())),
        (Ok(()), Err(e)) => {
            let l = e.to_lowercase();
            if !plain && l.contains("unsupported") {
                cx.label("valid, unsupported construct");
            } else {
                return fail("valid module rejected", format!("{e}\n{}", shown()));
            }
        }
        (Err(e), Ok(_)) => return fail("invalid module accepted", format!("the validator says: {e}\n{}", shown())),
        _ => {}
    }
    // without validation a valid module must load just the same
    if verdict.is_ok() && r.is_ok() && s.chance(1, 4) {
        v.validate = false;
        if let Err(e) = v.load(&wasm) {
            return fail("valid module rejected without validation", format!("{e}\n{}", shown()));
        }
        cx.label("valid, loaded without validation too");
    }
    cx.label(&format!("{kind}: {}", if verdict.is_ok() { "valid" } else { "invalid" }));
    if wasm.len() >= 8 {
        cx.nontrivial(&wasm);
    }
    cx.sample(|| format!("{:?}: {}", verdict, shown()));
    Ok(())
}
