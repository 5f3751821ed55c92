//! Structured generator of valid modules and of argument values.

use crate::ir::*;
use crate::model::Ext;
use crate::ops;
use crate::tape::Src;
use crate::val::*;

/// What a property wants its programs to look like (relative weights unless noted).
#[derive(Clone, Debug)]
pub struct Prof {
    pub floats: u32,
    pub simd: u32,
    pub refs: u32,
    pub mem: u32,
    pub bulk: u32,
    pub table: u32,
    pub calls: u32,
    pub indirect: u32,
    pub tail: u32,
    pub control: u32,
    pub globals: u32,
    pub numeric: u32,
    pub idioms: u32,
    /// per mille
    pub dead: u32,
    pub trap: u32,
    pub max_funcs: u64,
    pub body: (u64, u64),
    pub max_mems: u64,
    pub max_tabs: u64,
    pub mem64: u32,
    pub t64: u32,
    pub custom_page: u32,
    pub many_locals: u32,
    pub start: u32,
    pub segs: u64,
    pub wide: bool,
    pub imports: u64,
    pub relaxed: bool,
    /// declare memories even when the code does not use them
    pub quiet_mems: bool,
    /// per mille of function types taken from the table of `typed`
    pub typed: u32,
    /// per mille of direct calls that go to an imported function if there is one
    pub prefer_imports: u32,
    /// per mille of modules made big in some dimension
    pub stretch: u32,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            floats: 2,
            simd: 1,
            refs: 1,
            mem: 4,
            bulk: 1,
            table: 1,
            calls: 4,
            indirect: 1,
            tail: 1,
            control: 6,
            globals: 3,
            numeric: 4,
            idioms: 4,
            dead: 250,
            trap: 30,
            max_funcs: 5,
            body: (4, 40),
            max_mems: 1,
            max_tabs: 1,
            mem64: 50,
            t64: 0,
            custom_page: 30,
            many_locals: 30,
            start: 50,
            segs: 2,
            wide: true,
            imports: 3,
            relaxed: false,
            quiet_mems: false,
            typed: 0,
            prefer_imports: 0,
            stretch: 15,
        }
    }
}

pub struct Made {
    pub m: Module,
    pub imports: Vec<Ext>,
    /// index of the recursion fuel global
    pub gf: u32,
}

/// Something importable: what it is and its current type (current size as minimum).
#[derive(Clone, Debug)]
pub struct Avail {
    pub ext: Ext,
    pub desc: AvDesc,
}
#[derive(Clone, Debug)]
pub enum AvDesc {
    Func(FT),
    Tab(TabTy),
    Mem(MemTy),
    Glob(GlobTy),
}

pub fn int32(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => s.below(9) as u32,
        1 => (s.below(256) as u32).wrapping_sub(128),
        2 => 1u32 << s.below(32),
        3 => (1u32 << s.below(32)).wrapping_sub(1),
        4 => *s.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x8000_0001, 0xffff, 0x8000, 0x7f, 0x80, 0xff]),
        5 => 0u32.wrapping_sub(1 << s.below(32)),
        6 => s.below(70000) as u32,
        _ => s.u32(),
    }
}
pub fn int64(s: &mut Src) -> u64 {
    match s.below(10) {
        0 => s.below(9),
        1 => s.below(256).wrapping_sub(128),
        2 => 1u64 << s.below(64),
        3 => (1u64 << s.below(64)).wrapping_sub(1),
        4 => *s.pick(&[i64::MAX as u64, i64::MIN as u64, u64::MAX, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x1_0000_0000]),
        5 => 0u64.wrapping_sub(1 << s.below(64)),
        6 => int32(s) as i32 as i64 as u64,
        7 => (int32(s) as u64) << 32 | int32(s) as u64,
        8 => {
            // halfway between two neighbouring f32 or f64 values, give or take one
            let (bits, k) = if s.bool() { (24, 1 + s.below(40)) } else { (53, 1 + s.below(11)) };
            let m = 1u64 << (bits - 1) | s.u64() & ((1 << (bits - 1)) - 1);
            let x = ((m << k) + (1 << (k - 1))).wrapping_add(s.below(3)).wrapping_sub(1);
            if s.bool() { x.wrapping_neg() } else { x }
        }
        _ => s.u64(),
    }
}
pub fn f32b(s: &mut Src) -> u32 {
    if CANON.get() && s.chance(1, 3) {
        // NaNs of every kind and operands that produce them
        let sign = (s.below(2) as u32) << 31;
        return sign
            | match s.below(8) {
                0 => 0x7fc0_0000,
                1 => 0x7fc0_0001,
                2 => 0x7f80_0001,
                3 => 0x7fa0_0000,
                4 => 0x7f80_0000 | 1 << s.below(23),
                5 => 0x7f80_0000 | s.u32() & 0x007f_ffff,
                6 => 0x7f80_0000,
                _ => 0,
            };
    }
    match s.below(10) {
        0 => (s.below(9) as f32).to_bits(),
        1 => (-(s.below(9) as f32) / 2.0).to_bits(),
        2 => *s.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff]),
        3 => *s.pick(&[0x7fc0_0000, 0xffc0_0000, 0x7fa0_0000, 0x7fc0_0001, 0xffff_ffff, 0x7f80_0001]),
        4 => {
            let e = *s.pick(&[7u32, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64]);
            let d = s.below(5) as i64 - 2;
            let base = (2f64.powi(e as i32)) as f32;
            let b = if s.bool() { -base } else { base };
            (b.to_bits() as i64 + d) as u32
        }
        5 => ((int32(s) as i32) as f32).to_bits(),
        6 => (s.below(1000) as f32 / 8.0 - 60.0).to_bits(),
        7 => (s.below(20) as f32 - 10.0 + 0.5).to_bits(),
        _ => s.u32(),
    }
}
pub fn f64b(s: &mut Src) -> u64 {
    if CANON.get() && s.chance(1, 3) {
        let sign = s.below(2) << 63;
        return sign
            | match s.below(8) {
                0 => 0x7ff8 << 48,
                1 => (0x7ff8 << 48) + 1,
                2 => (0x7ff0 << 48) + 1,
                3 => 0x7ff4 << 48,
                4 => 0x7ff0 << 48 | 1 << s.below(52),
                5 => 0x7ff0 << 48 | s.u64() >> 12,
                6 => 0x7ff0 << 48,
                _ => 0,
            };
    }
    match s.below(10) {
        0 => (s.below(9) as f64).to_bits(),
        1 => (-(s.below(9) as f64) / 2.0).to_bits(),
        2 => *s.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 1, (1 << 63) + 1, 0x000f_ffff_ffff_ffff, 0x0010 << 48, 0x7fef_ffff_ffff_ffff]),
        3 => *s.pick(&[0x7ff8 << 48, 0xfff8 << 48, 0x7ff4 << 48, (0x7ff8 << 48) + 1, u64::MAX, (0x7ff0 << 48) + 1]),
        4 => {
            let e = *s.pick(&[7u32, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64]);
            let base = 2f64.powi(e as i32);
            let b = if s.bool() { -base } else { base };
            if s.chance(1, 3) {
                // fractions within two of the boundary
                (b + (s.below(33) as f64 - 16.0) / 8.0).to_bits()
            } else {
                let d = s.below(5) as i64 - 2;
                (b.to_bits() as i64).wrapping_add(d) as u64
            }
        }
        5 => ((int64(s) as i64) as f64).to_bits(),
        6 => (s.below(1000) as f64 / 8.0 - 60.0).to_bits(),
        7 => {
            // around the f32 range and its rounding boundaries
            let b = f32b(s);
            let x = (f32::from_bits(b) as f64).to_bits();
            if is_nan32(b) { x } else { (x as i64).wrapping_add(s.below(3) as i64 - 1) as u64 }
        }
        8 => (s.below(20) as f64 - 10.0 + 0.5).to_bits(),
        _ => s.u64(),
    }
}
pub fn v128b(s: &mut Src) -> u128 {
    let k = if CANON.get() { 4 + s.below(2) } else { s.below(8) };
    match k {
        0 => {
            let x = s.below(256) as u128;
            (0..16).fold(0, |a, i| a | x << (i * 8))
        }
        1 => {
            // interesting bytes
            (0..16).fold(0u128, |a, i| a | (*s.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x40, 0x0f, 0x10]) as u128) << (i * 8))
        }
        2 => (0..8).fold(0u128, |a, i| a | ((int32(s) & 0xffff) as u128) << (i * 16)),
        3 => (0..4).fold(0u128, |a, i| a | (int32(s) as u128) << (i * 32)),
        4 => (0..4).fold(0u128, |a, i| a | (f32b(s) as u128) << (i * 32)),
        5 => f64b(s) as u128 | (f64b(s) as u128) << 64,
        7 => {
            // one boundary in every lane
            let w = 8u32 << s.below(4);
            let m = u64::MAX >> (64 - w);
            let x = *s.pick(&[1u64 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, m, m - 1, 1]) & m;
            (0..128 / w).fold(0u128, |a, i| a | (x as u128) << (i * w))
        }
        _ => int64(s) as u128 | (int64(s) as u128) << 64,
    }
}

/// A determined value of a number or vector type, or an extern reference (small number or null).
pub fn value(s: &mut Src, t: VT) -> Val {
    match t {
        VT::I32 => i32v(int32(s)),
        VT::I64 => i64v(int64(s)),
        VT::F32 => i32v(f32b(s)),
        VT::F64 => i64v(f64b(s)),
        VT::V128 => v128v(v128b(s)),
        VT::Extern if s.chance(1, 6) => i64v(1 + *s.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff, 0x1_0000, 0x8000])),
        VT::Extern => i64v(s.below(6)),
        VT::Func => Val::default(),
    }
}

/// A value of a small set at which some instruction changes its behaviour.
pub fn hot(s: &mut Src, t: VT) -> Val {
    let near64 = |s: &mut Src| {
        let b = *s.pick(&[
            0.0,
            -1.0,
            2f64.powi(31),
            -2f64.powi(31),
            2f64.powi(32),
            2f64.powi(63),
            -2f64.powi(63),
            2f64.powi(64),
            2f64.powi(24),
            2f64.powi(52),
        ]);
        if s.bool() {
            b + *s.pick(&[0.0, 0.5, -0.5, 0.25, -0.25, 0.75, -0.75, 1.0, -1.0, 1.5, -1.5])
        } else {
            f64::from_bits(b.to_bits().wrapping_add(s.below(3)).wrapping_sub(1) & !(1 << 63) | b.to_bits() & 1 << 63)
        }
    };
    let near32 = |s: &mut Src| {
        let b = *s.pick(&[0.0, -1.0, 2f32.powi(31), -2f32.powi(31), 2f32.powi(32), 2f32.powi(63), -2f32.powi(63), 2f32.powi(64), 2f32.powi(23)]);
        if s.bool() {
            b + *s.pick(&[0.0, 0.5, -0.5, 0.25, 0.75, -0.75, 1.0, -1.0, 1.5])
        } else {
            f32::from_bits(b.to_bits().wrapping_add(s.below(3) as u32).wrapping_sub(1) & !(1 << 31) | b.to_bits() & 1 << 31)
        }
    };
    match t {
        VT::I32 => i32v(*s.pick(&[0, 1, u32::MAX, 1 << 31, i32::MAX as u32, 31, 32, 33, 0xffff, 0x8000, 0x80, 0xff])),
        VT::I64 => i64v(*s.pick(&[0, 1, u64::MAX, 1 << 63, i64::MAX as u64, 63, 64, 65, 1 << 31, 0xffff_ffff, 1 << 32, 0x8000, 0x80])),
        VT::F32 => i32v(near32(s).to_bits()),
        VT::F64 => i64v(near64(s).to_bits()),
        VT::V128 => v128v(match s.below(6) {
            0 => (0..4).fold(0, |a, i| a | (near32(s).to_bits() as u128) << (32 * i)),
            1 => (0..2).fold(0, |a, i| a | (near64(s).to_bits() as u128) << (64 * i)),
            _ => {
                let w = 8u32 << s.below(4);
                let m = u64::MAX >> (64 - w);
                let x = *s.pick(&[1u64 << (w - 1), (1 << (w - 1)) - 1, m, 0, 1]);
                (0..128 / w).fold(0u128, |a, i| a | (x as u128) << (i * w))
            }
        }),
        t => value(s, t),
    }
}

pub fn konst(t: VT, v: Val) -> In {
    match t {
        VT::I32 => In::I32(v.b as u32),
        VT::I64 => In::I64(v.b as u64),
        VT::F32 => In::F32(v.b as u32),
        VT::F64 => In::F64(v.b as u64),
        VT::V128 => In::V128(v.b),
        t => In::RefNull(t),
    }
}

fn numeric_types(p: &Prof) -> Vec<(VT, u32)> {
    let mut v = vec![(VT::I32, 6), (VT::I64, 4)];
    if p.floats > 0 {
        v.push((VT::F32, p.floats));
        v.push((VT::F64, p.floats));
    }
    if p.simd > 0 {
        v.push((VT::V128, p.simd));
    }
    if p.refs > 0 {
        v.push((VT::Func, p.refs));
        v.push((VT::Extern, p.refs));
    }
    v
}

pub fn vt(s: &mut Src, p: &Prof) -> VT {
    let ts = numeric_types(p);
    let w: Vec<u32> = ts.iter().map(|x| x.1).collect();
    ts[s.weighted(&w)].0
}

pub fn func_type(s: &mut Src, p: &Prof) -> FT {
    if p.typed > 0 && s.chance(p.typed as u64, 1000) {
        let t = crate::typed::table();
        return t[s.usize(t.len())].ty.clone();
    }
    let np = match s.below(16) {
        0..=12 => s.below(4),
        13 | 14 => s.below(9),
        _ => s.below(21),
    };
    let nr = match s.below(12) {
        0..=1 => 0,
        2..=7 => 1,
        8 | 9 => 2,
        10 => 3,
        _ => s.below(9),
    };
    FT { p: (0..np).map(|_| vt(s, p)).collect(), r: (0..nr).map(|_| vt(s, p)).collect() }
}

pub fn mem_type(s: &mut Src, p: &Prof) -> MemTy {
    let m64 = s.chance(p.mem64 as u64, 1000);
    if s.chance(p.custom_page as u64, 1000) {
        let min = *s.pick(&[0, 1, 64, 100, 4096, 5000, 65536]);
        let max = if s.bool() { Some(min + *s.pick(&[0, 1, 7, 100, 5000])) } else { None };
        return MemTy { m64, min, max, page: Some(0) };
    }
    let min = *s.pick(&[1u64, 1, 1, 2, 0, 3]);
    let max = if s.bool() { Some(min + s.below(3)) } else { None };
    MemTy { m64, min, max, page: if s.chance(1, 20) { Some(16) } else { None } }
}

pub fn tab_type(s: &mut Src, p: &Prof) -> TabTy {
    let el = if p.refs > 0 && s.chance(1, 4) { VT::Extern } else { VT::Func };
    let min = *s.pick(&[4u64, 8, 1, 0, 10, 30]);
    let mut max = if s.bool() { Some(min + s.below(6)) } else { None };
    let t64 = s.chance(p.t64 as u64, 1000);
    if max.is_some() && s.chance(1, 12) {
        // no limit in practice
        max = Some(if t64 { (1 << 32) + *s.pick(&[0, 1, min, 1 << 40]) } else { u32::MAX as u64 });
    }
    TabTy { t64, el, min, max }
}

/// Build a module that may import from `avail`.
pub fn module(s: &mut Src, p: &Prof, avail: &[Avail]) -> Made {
    let mut m = Module::default();
    let mut imports = vec![];
    // imports
    if !avail.is_empty() && p.imports > 0 {
        let n = s.below(p.imports + 1);
        for k in 0..n {
            let a = s.pick(avail).clone();
            let desc = match &a.desc {
                AvDesc::Func(t) => Desc::Func(m.ty(t.clone())),
                AvDesc::Tab(t) => {
                    let mut t = *t;
                    t.min = s.range(t.min.saturating_sub(2), t.min);
                    if let Some(x) = t.max {
                        let cap = if t.t64 { u64::MAX } else { u32::MAX as u64 };
                        t.max = if s.bool() { None } else { Some((x + s.below(3)).min(cap)) };
                    }
                    Desc::Tab(t)
                }
                AvDesc::Mem(t) => {
                    let mut t = *t;
                    t.min = s.range(t.min.saturating_sub(1), t.min);
                    if let Some(x) = t.max {
                        let cap = if t.m64 { 1 << 48 } else { (1u64 << 32) / t.page_size() };
                        t.max = if s.bool() { None } else { Some(x.saturating_add(s.below(3)).min(cap)) };
                    }
                    Desc::Mem(t)
                }
                AvDesc::Glob(t) => Desc::Glob(*t),
            };
            m.imports.push(Import { module: format!("m{}", s.below(3)), name: format!("i{k}"), desc });
            imports.push(a.ext);
        }
    }
    // own entities
    let nf = s.range(1, p.max_funcs.max(1));
    let mut common: Vec<FT> = vec![];
    for _ in 0..nf {
        let t = if !common.is_empty() && s.chance(1, 3) { s.pick(&common).clone() } else { func_type(s, p) };
        common.push(t.clone());
        let ty = m.ty(t);
        m.funcs.push(Func { ty, locals: vec![], body: vec![] });
    }
    if s.chance(1, 6) {
        // a structurally equal duplicate type
        let t = s.pick(&common).clone();
        m.types.push(t);
    }
    let nm = if p.mem + p.bulk == 0 && !p.quiet_mems { 0 } else { s.range(if m.n_imp(Kind::Mem) > 0 { 0 } else { 1 }, p.max_mems.max(1)) };
    for _ in 0..nm {
        let t = mem_type(s, p);
        m.mems.push(t);
    }
    let nt = if p.table + p.indirect == 0 { 0 } else { s.range(if m.n_imp(Kind::Tab) > 0 { 0 } else { 1 }, p.max_tabs.max(1)) };
    let n_funcs = m.n_funcs();
    // globals
    let gimp = m.n_imp(Kind::Glob);
    let gf = gimp;
    // constant expressions may only read imported globals
    let gs: Vec<GlobTy> = m.all_globs();
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(s.below(8) as u32 + 2)]));
    let ng = if p.globals == 0 { 0 } else { s.below(5) };
    for _ in 0..ng {
        let t = vt(s, p);
        let mu = s.chance(3, 4);
        let e = const_expr(s, t, &gs, n_funcs);
        m.globals.push((GlobTy { t, m: mu }, e));
    }
    for _ in 0..nt {
        let t = tab_type(s, p);
        let init = if s.chance(1, 4) { Some(const_expr(s, t.el, &gs, n_funcs)) } else { None };
        m.tables.push((t, init));
    }
    let tabs = m.all_tabs();
    let mems = m.all_mems();
    // segments
    if p.segs > 0 {
        if !tabs.is_empty() {
            for _ in 0..s.below(p.segs + 2) {
                let tab = s.usize(tabs.len());
                let el = if s.chance(3, 4) {
                    tabs[tab].el
                } else if p.refs > 0 && s.bool() {
                    VT::Extern
                } else {
                    VT::Func
                };
                let mut n = s.below(6);
                let mode = match s.below(4) {
                    0 | 1 if el == tabs[tab].el => {
                        let sz = tabs[tab].min;
                        n = n.min(sz);
                        let o = if s.chance(p.trap as u64, 2000) { outside(s, tabs[tab].t64, sz, 2) } else { s.range(0, sz - n) };
                        ElemMode::Active { tab: tab as u32, off: offset(s, tabs[tab].t64, o, &gs) }
                    }
                    3 => ElemMode::Declared,
                    _ => ElemMode::Passive,
                };
                let items = if el == VT::Func && s.bool() {
                    ElemItems::Funcs((0..n).map(|_| s.below(n_funcs as u64) as u32).collect())
                } else {
                    ElemItems::Exprs(el, (0..n).map(|_| const_expr(s, el, &gs, n_funcs)).collect())
                };
                m.elems.push(Elem { mode, items });
            }
        }
        if !mems.is_empty() {
            for _ in 0..s.below(p.segs + 2) {
                let mem = s.usize(mems.len());
                let n = if s.chance(1, 10) { s.below(300) } else { s.below(24) };
                let sz = mems[mem].min * mems[mem].page_size();
                let active = if s.bool() && sz >= n {
                    let o = if s.chance(p.trap as u64, 2000) { outside(s, mems[mem].m64, sz - n + 1, 9) } else { s.range(0, (sz - n).min(200)) };
                    Some((mem as u32, offset(s, mems[mem].m64, o, &gs)))
                } else {
                    None
                };
                let k = s.u32() as u8;
                m.datas.push(Data {
                    active,
                    bytes: (0..n).map(|i| k.wrapping_mul(i as u8 | 1).wrapping_add((i as u8).wrapping_mul(7)).wrapping_add(1)).collect(),
                });
            }
        }
    }
    // much content
    if !mems.is_empty() && p.segs > 0 && s.chance(1, 40) {
        let mem = s.usize(mems.len());
        let room = (mems[mem].min * mems[mem].page_size()).min(1 << 17);
        let n = (*s.pick(&[4097u64, 9000, 70_000, 1 << 17])).min(room);
        let (k, o) = (s.u32(), s.range(0, (room - n).min(5)));
        let off = offset(s, mems[mem].m64, o, &gs);
        let byte = |i: u64| ((i as u32 ^ k).wrapping_mul(0x9e37_79b1) >> 23) as u8;
        let active = if s.chance(3, 4) { Some((mem as u32, off)) } else { None };
        m.datas.push(Data { active, bytes: (0..n).map(byte).collect() });
    }
    m.data_count = s.chance(1, 3);
    // every function may be the target of ref.func: declare them
    m.elems.push(Elem { mode: ElemMode::Declared, items: ElemItems::Funcs((0..n_funcs).collect()) });

    // exports
    for i in 0..n_funcs {
        m.export(format!("f{i}"), Kind::Func, i);
    }
    m.export("gf", Kind::Glob, gf);
    for i in 0..m.all_globs().len() as u32 {
        if s.bool() {
            m.export(format!("g{i}"), Kind::Glob, i);
        }
    }
    for i in 0..tabs.len() as u32 {
        if s.bool() {
            m.export(format!("t{i}"), Kind::Tab, i);
        }
    }
    for i in 0..mems.len() as u32 {
        if s.bool() {
            m.export(format!("mem{i}"), Kind::Mem, i);
        }
    }
    if s.chance(1, 8) {
        m.customs.push((s.below(13) as u8, "note".into(), vec![1, 2, 3]));
    }

    // initial table contents known to the generator: (table, slot) -> function
    let mut slots: Vec<(u32, u64, u32)> = vec![];
    for e in &m.elems {
        if let (ElemMode::Active { tab, off }, ElemItems::Funcs(fs)) = (&e.mode, &e.items) {
            let o = offset_value(off);
            for (i, f) in fs.iter().enumerate() {
                slots.retain(|x| (x.0, x.1) != (*tab, o.wrapping_add(i as u64)));
                slots.push((*tab, o.wrapping_add(i as u64), *f));
            }
        }
    }

    // bodies
    let fimp = m.n_imp(Kind::Func);
    for i in 0..m.funcs.len() {
        let fi = fimp + i as u32;
        let tyi = m.funcs[i].ty;
        let ft = m.types[tyi as usize].clone();
        let budget = s.range(p.body.0, p.body.1) as i64;
        let mut locals = ft.p.clone();
        let n_extra = if s.chance(p.many_locals as u64, 1000) { *s.pick(&[250u64, 256, 258, 300]) } else { s.below(5) };
        let one = (n_extra > 200 && s.chance(1, 2)).then(|| vt(s, p));
        for _ in 0..n_extra {
            locals.push(one.unwrap_or_else(|| vt(s, p)));
        }
        let np = ft.p.len();
        let mut g = FG {
            s,
            p,
            mems: mems.clone(),
            tabs: tabs.clone(),
            globs: m.all_globs(),
            slots: &slots,
            m: &mut m,
            gf,
            fi,
            fimp,
            ptrs: vec![],
            locals,
            reserved: vec![],
            labels: vec![Lab { tys: ft.r.clone(), lp: None }],
            st: vec![],
            base: 0,
            floor: 0,
            dead: false,
            budget,
            out: vec![],
            res: ft.r.clone(),
            loops: vec![],
        };
        g.prologue();
        g.stmts();
        let r = g.res.clone();
        g.finish(&r);
        let (locals, out) = (g.locals, g.out);
        m.funcs[i].locals = locals[np..].to_vec();
        m.funcs[i].body = out;
    }
    for f in &mut m.funcs {
        if s.chance(1, 4) {
            akin(s, &mut f.body, &mut None);
        }
    }
    // neighbours that differ only in the constants and jump tables kept outside the instruction stream
    for i in 1..m.funcs.len() {
        if m.funcs[i].ty == m.funcs[i - 1].ty && s.chance(1, 8) {
            let mut f = m.funcs[i - 1].clone();
            vary(s, &mut f.body, &mut vec![false]);
            m.funcs[i] = f;
        }
    }
    if s.chance(p.start as u64, 1000) {
        let c: Vec<u32> = (0..m.n_funcs()).filter(|f| *m.func_ty(*f) == FT::default()).collect();
        if !c.is_empty() {
            m.start = Some(*s.pick(&c));
        }
    }
    let mut gf = gf;
    if s.chance(p.stretch as u64, 1000) {
        let big = s.chance(1, 10);
        gf = crate::stretch::stretch(s, &mut m, Some(gf), big).unwrap_or(gf);
    }
    Made { m, imports, gf }
}

/// Makes vector constants and shuffle patterns resemble the ones before them in the same function.
pub fn akin(s: &mut Src, body: &mut [In], last: &mut Option<u128>) {
    if CANON.get() {
        return;
    }
    for x in body {
        match x {
            In::Block(_, b) | In::Loop(_, b) => akin(s, b, last),
            In::If(_, a, b) => {
                akin(s, a, last);
                if let Some(b) = b {
                    akin(s, b, last);
                }
            }
            In::V128(v) => {
                if let Some(l) = *last {
                    match s.below(6) {
                        0 => *v = l,
                        1 => *v = l ^ 1 << s.below(128),
                        2 => *v = l.rotate_left(64),
                        3 | 4 => *v = l & u64::MAX as u128 | *v & !(u64::MAX as u128),
                        _ => {}
                    }
                }
                *last = Some(*v);
            }
            In::Shuffle(l) => {
                if let Some(k) = *last {
                    let valid = k.to_le_bytes().iter().all(|b| *b < 32);
                    match s.below(4) {
                        0 if valid => *l = k.to_le_bytes(),
                        1 if valid => {
                            *l = k.to_le_bytes();
                            l[s.usize(16)] = s.below(32) as u8;
                        }
                        2 if valid => l[..8].copy_from_slice(&k.to_le_bytes()[..8]),
                        _ => {}
                    }
                }
                *last = Some(u128::from_le_bytes(*l));
            }
            _ => {}
        }
    }
}

/// Changes constants that decide no loop, and the order of jump table entries that lead forward.
fn vary(s: &mut Src, body: &mut [In], loops: &mut Vec<bool>) {
    for x in body {
        match x {
            In::Block(_, b) => {
                loops.push(false);
                vary(s, b, loops);
                loops.pop();
            }
            In::Loop(_, b) => {
                loops.push(true);
                vary(s, b, loops);
                loops.pop();
            }
            In::If(_, a, b) => {
                loops.push(false);
                vary(s, a, loops);
                if let Some(b) = b {
                    vary(s, b, loops);
                }
                loops.pop();
            }
            In::BrTable(ts, def) => {
                let back = |d: &u32| loops[loops.len() - 1 - *d as usize];
                if ts.len() > 1 && !back(def) && !ts.iter().any(back) && s.bool() {
                    let k = s.usize(ts.len());
                    let n = ts.len();
                    ts.swap(k, n - 1);
                }
            }
            In::V128(v) if s.bool() => *v = v128b(s),
            In::F32(v) if s.chance(1, 4) => *v = f32b(s),
            In::F64(v) if s.chance(1, 4) => *v = f64b(s),
            In::Shuffle(l) if s.bool() => l.rotate_left(1 + s.usize(15)),
            _ => {}
        }
    }
}

/// An offset outside the object: `from` or shortly after it, or one whose low half looks like an offset inside.
pub fn outside(s: &mut Src, wide: bool, from: u64, span: u64) -> u64 {
    let o = from + s.below(span);
    match s.below(6) {
        0 | 1 if wide => s.below(3).max(1) << *s.pick(&[32u32, 32, 33, 40, 48, 63]) | s.below(3),
        2 if wide => 0u64.wrapping_sub(1 + s.below(4)),
        2 => 0u32.wrapping_sub(1 + s.below(4) as u32) as u64,
        _ => o,
    }
}

/// An offset expression with the value `o`.
pub fn offset(s: &mut Src, wide: bool, o: u64, gs: &[GlobTy]) -> Vec<In> {
    let k = |x: u64| if wide { In::I64(x) } else { In::I32(x as u32) };
    let [add, sub, mul] = if wide { [0x7c, 0x7d, 0x7e] } else { [0x6a, 0x6b, 0x6c] }.map(In::Op);
    if !s.chance(1, 8) {
        return vec![k(o)];
    }
    let d = int64(s);
    let t = if wide { VT::I64 } else { VT::I32 };
    let c: Vec<u32> = gs.iter().enumerate().filter(|(_, g)| g.t == t && !g.m).map(|x| x.0 as u32).collect();
    match s.below(4) {
        0 => vec![k(o.wrapping_sub(d)), k(d), add],
        1 => vec![k(o.wrapping_add(d)), k(d), sub],
        2 if !c.is_empty() => {
            let g = *s.pick(&c);
            vec![k(o), In::GGet(g), k(0), mul, sub]
        }
        _ => vec![k(1), k(o), mul],
    }
}

fn offset_value(off: &[In]) -> u64 {
    let (mut st, mut narrow): (Vec<u64>, bool) = (vec![], false);
    for i in off {
        match i {
            In::I32(x) => {
                narrow = true;
                st.push(*x as u64);
            }
            In::I64(x) => st.push(*x),
            In::Op(o) => {
                let (b, a) = (st.pop().unwrap_or(0), st.pop().unwrap_or(0));
                st.push(match o {
                    0x6a | 0x7c => a.wrapping_add(b),
                    0x6b | 0x7d => a.wrapping_sub(b),
                    _ => a.wrapping_mul(b),
                });
            }
            // read only to be multiplied by zero
            _ => st.push(0),
        }
    }
    let v = st.pop().unwrap_or(0);
    if narrow { v as u32 as u64 } else { v }
}

/// A constant expression of type `t`; `gs` are the globals defined so far.
pub fn const_expr(s: &mut Src, t: VT, gs: &[GlobTy], n_funcs: u32) -> Vec<In> {
    let c: Vec<u32> = gs.iter().enumerate().filter(|(_, g)| g.t == t && !g.m).map(|x| x.0 as u32).collect();
    if !c.is_empty() && s.chance(1, 3) {
        return vec![In::GGet(*s.pick(&c))];
    }
    match t {
        VT::I32 | VT::I64 if s.chance(1, 5) => {
            let mut e = const_expr(s, t, gs, n_funcs);
            e.extend(const_expr(s, t, gs, n_funcs));
            let op = *s.pick(if t == VT::I32 { &[0x6a, 0x6b, 0x6c] } else { &[0x7c, 0x7d, 0x7e] });
            e.push(In::Op(op));
            e
        }
        VT::Func if n_funcs > 0 && s.chance(2, 3) => {
            vec![In::RefFunc(s.below(n_funcs as u64) as u32)]
        }
        _ => vec![konst(t, value(s, t))],
    }
}

#[derive(Clone)]
struct Lab {
    tys: Vec<VT>,
    /// index into `loops` for loop labels
    lp: Option<usize>,
}

#[derive(Clone)]
struct Loop {
    style: u64,
    c: u32,
    lim: u32,
    k: u32,
    sites: u32,
}

struct FG<'a> {
    s: &'a mut Src,
    p: &'a Prof,
    m: &'a mut Module,
    mems: Vec<MemTy>,
    tabs: Vec<TabTy>,
    globs: Vec<GlobTy>,
    slots: &'a [(u32, u64, u32)],
    gf: u32,
    fi: u32,
    fimp: u32,
    /// pointer locals: (memory, local)
    ptrs: Vec<(u32, u32)>,
    locals: Vec<VT>,
    /// locals random code must not write
    reserved: Vec<u32>,
    labels: Vec<Lab>,
    st: Vec<VT>,
    base: usize,
    /// operands of an enclosing expression under construction end here
    floor: usize,
    dead: bool,
    budget: i64,
    out: Vec<In>,
    res: Vec<VT>,
    loops: Vec<Loop>,
}

const I32_RES: &[u8] = &[
    0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6a, 0x6b, 0x71, 0x72, 0x73, 0x74, 0x75,
    0x76, 0x77, 0x78, 0xc0, 0xc1, 0xa7, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a,
];
const I64_RES: &[u8] =
    &[0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7c, 0x7d, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0xac, 0xad, 0xc2, 0xc3, 0xc4];
const F32_RES: &[u8] = &[0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xbe];
const F64_RES: &[u8] = &[0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbf];

impl FG<'_> {
    fn emit(&mut self, i: In) {
        self.budget -= 1;
        self.out.push(i);
    }
    fn new_local(&mut self, t: VT) -> u32 {
        self.locals.push(t);
        self.locals.len() as u32 - 1
    }
    fn readable(&mut self, t: VT) -> Option<u32> {
        let n = self.locals.iter().filter(|x| **x == t).count();
        if n == 0 {
            return None;
        }
        let k = self.s.usize(n);
        self.locals.iter().enumerate().filter(|x| *x.1 == t).nth(k).map(|x| x.0 as u32)
    }
    fn writable(&mut self, t: VT) -> Option<u32> {
        let c: Vec<u32> =
            self.locals.iter().enumerate().filter(|(i, x)| **x == t && !self.reserved.contains(&(*i as u32))).map(|x| x.0 as u32).collect();
        if c.is_empty() { None } else { Some(*self.s.pick(&c)) }
    }
    fn trapish(&mut self) -> bool {
        self.p.trap > 0 && self.s.chance(self.p.trap as u64, 1000)
    }

    fn prologue(&mut self) {
        if self.p.mem + self.p.bulk > 0 {
            for (i, t) in self.mems.clone().iter().enumerate() {
                if self.s.chance(2, 3) {
                    let l = self.new_local(if t.m64 { VT::I64 } else { VT::I32 });
                    self.reserved.push(l);
                    self.ptrs.push((i as u32, l));
                    let a = self.safe_addr(i, 16);
                    self.emit(if t.m64 { In::I64(a) } else { In::I32(a as u32) });
                    self.emit(In::LSet(l));
                }
            }
        }
    }

    fn stmts(&mut self) {
        let n = self.s.range(1, 12);
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            if self.dead && !self.s.chance(self.p.dead as u64, 1000) {
                break;
            }
            self.stmt();
        }
    }

    /// Make the stack above `base` exactly `r`.
    fn finish(&mut self, r: &[VT]) {
        let have = self.st[self.base..].to_vec();
        if have == r && self.s.chance(9, 10) {
            return;
        }
        if self.dead {
            // known values must be a suffix of what is needed
            let ok = have.len() <= r.len() && r[r.len() - have.len()..] == have[..];
            if ok && self.s.bool() {
                self.st.truncate(self.base);
                self.st.extend_from_slice(r);
                return;
            }
        }
        if !self.dead && !have.is_empty() && self.labels.last().is_some_and(|l| l.lp.is_none()) && self.s.chance(1, 4) {
            // leave junk under the results and branch out
            for t in r {
                self.expr(*t, 1);
            }
            let fun = self.labels.len() == 1;
            let i = if fun && self.s.bool() { RETURN } else { In::Br(0) };
            self.emit(i);
            // a loop's label is its start, so only blocks and functions may do this
            self.dead = true;
            self.st.truncate(self.base);
            self.st.extend_from_slice(r);
            return;
        }
        // keep a matching prefix, drop the rest
        let mut keep = 0;
        while keep < have.len() && keep < r.len() && have[keep] == r[keep] {
            keep += 1;
        }
        if self.dead {
            keep = 0;
        }
        for _ in keep..have.len() {
            self.emit(DROP);
        }
        self.st.truncate(self.base + keep);
        for t in &r[keep..] {
            self.expr(*t, 1);
        }
    }

    fn kill(&mut self) {
        self.dead = true;
        self.st.truncate(self.base);
    }

    fn pop_n(&mut self, n: usize) {
        let l = self.st.len().saturating_sub(n).max(self.base);
        self.st.truncate(l);
    }

    /// Provide operands of the given types on the stack.
    fn operands(&mut self, tys: &[VT], d: u32) {
        let fl = self.floor.max(self.base);
        let known = self.st[fl..].to_vec();
        if self.dead && fl == self.base && known.len() < tys.len() && tys[tys.len() - known.len()..] == known[..] && self.s.chance(1, 3) {
            // the unreachable stack supplies what is missing
            self.st.truncate(self.base);
            self.st.extend_from_slice(tys);
            return;
        }
        // reuse values already on the stack for a prefix of the operands
        let mut reuse = 0;
        for k in (1..=tys.len().min(known.len())).rev() {
            if known[known.len() - k..] == tys[..k] {
                reuse = k;
                break;
            }
        }
        if reuse > 0 && !self.s.chance(1, 2) {
            reuse = 0;
        }
        for t in &tys[reuse..] {
            self.expr(*t, d);
        }
    }

    fn leaf(&mut self, t: VT) {
        let i = match self.s.below(6) {
            0 | 1 => konst(t, value(self.s, t)),
            2..=4 => match self.readable(t) {
                Some(l) => In::LGet(l),
                None => konst(t, value(self.s, t)),
            },
            _ => {
                let c: Vec<u32> = self.globs.iter().enumerate().filter(|x| x.1.t == t).map(|x| x.0 as u32).collect();
                if c.is_empty() || self.p.globals == 0 { konst(t, value(self.s, t)) } else { In::GGet(*self.s.pick(&c)) }
            }
        };
        let i = match (&i, t) {
            (In::RefNull(VT::Func), _) if self.s.bool() && self.m.n_funcs() > 0 => {
                let n = self.m.n_funcs() as u64;
                In::RefFunc(self.s.below(n) as u32)
            }
            _ => i,
        };
        self.emit(i);
        self.st.push(t);
    }

    fn apply(&mut self, i: In, n: usize, r: &[VT]) {
        self.emit(i);
        self.pop_n(n);
        self.st.extend_from_slice(r);
    }

    /// Emit code that pushes one value of type `t`.
    fn expr(&mut self, t: VT, d: u32) {
        let fl = self.floor;
        self.floor = self.st.len();
        self.expr_in(t, d);
        self.floor = fl;
    }

    fn expr_in(&mut self, t: VT, d: u32) {
        if d == 0 || self.budget <= 0 || self.s.chance(2, 5) {
            return self.leaf(t);
        }
        let d = d - 1;
        let w_mem = if self.mems.is_empty() { 0 } else { self.p.mem };
        let w_call = self.p.calls / 2;
        match self.s.weighted(&[8, w_mem, 1, 1, w_call, 1, self.p.idioms / 2]) {
            0 => self.numeric(t, d),
            1 => self.load(t, d),
            2 => {
                // select
                self.expr(t, d);
                self.expr(t, d);
                self.cond(d);
                let i = if t.is_ref() || self.s.chance(1, 4) { In::SelectT(t) } else { SELECT };
                self.apply(i, 3, &[t]);
            }
            3 => {
                // a block with one result
                self.block(Some(vec![t]));
            }
            4 => {
                if !self.call_for(t, d) {
                    self.leaf(t)
                }
            }
            5 => {
                // tee
                match self.writable(t) {
                    Some(l) => {
                        self.expr(t, d);
                        self.emit(In::LTee(l));
                    }
                    None => self.leaf(t),
                }
            }
            _ => match self.writable(t) {
                // set then get
                Some(l) => {
                    self.expr(t, d);
                    self.apply(In::LSet(l), 1, &[]);
                    self.apply(In::LGet(l), 0, &[t]);
                }
                None => self.leaf(t),
            },
        }
    }

    fn numeric(&mut self, t: VT, d: u32) {
        match t {
            VT::I32 => {
                if self.p.simd > 0 && self.s.chance(self.p.simd as u64, 30) {
                    let op = *self.s.pick(&[0x53u32, 0x63, 0x64, 0x83, 0x84, 0xa3, 0xa4, 0xc3, 0xc4]);
                    self.expr(VT::V128, d);
                    return self.apply(In::Simd(op), 1, &[VT::I32]);
                }
                if self.p.refs > 0 && self.s.chance(1, 15) {
                    let r = if self.s.bool() { VT::Func } else { VT::Extern };
                    self.expr(r, d);
                    return self.apply(REF_IS_NULL, 1, &[VT::I32]);
                }
                if self.p.floats > 0 && self.s.chance(1, 8) {
                    match self.s.below(4) {
                        0 => {
                            let op = 0x5b + self.s.below(12) as u8;
                            return self.scalar(op, d);
                        }
                        1 => {
                            let op = self.s.below(4) as u32;
                            let (p, r) = ops::fc_sig(op);
                            self.operands(p, d);
                            return self.apply(In::Fc(op), 1, r);
                        }
                        2 if self.trapish() => {
                            let op = 0xa8 + self.s.below(4) as u8;
                            return self.scalar(op, d);
                        }
                        _ => return self.scalar(0xbc, d),
                    }
                }
                if self.s.chance(1, 12) {
                    return self.div(VT::I32, d);
                }
                let op = *self.s.pick(I32_RES);
                self.scalar(op, d)
            }
            VT::I64 => {
                if self.p.floats > 0 && self.s.chance(1, 8) {
                    match self.s.below(3) {
                        0 => {
                            let op = 4 + self.s.below(4) as u32;
                            let (p, r) = ops::fc_sig(op);
                            self.operands(p, d);
                            return self.apply(In::Fc(op), 1, r);
                        }
                        1 if self.trapish() => {
                            let op = 0xae + self.s.below(4) as u8;
                            return self.scalar(op, d);
                        }
                        _ => return self.scalar(0xbd, d),
                    }
                }
                if self.s.chance(1, 12) {
                    return self.div(VT::I64, d);
                }
                if self.p.wide && self.s.chance(1, 15) {
                    let op = 0x13 + self.s.below(4) as u32;
                    let (p, r) = ops::fc_sig(op);
                    self.operands(p, d);
                    self.apply(In::Fc(op), p.len(), r);
                    if self.s.bool() {
                        self.apply(DROP, 1, &[]);
                    } else {
                        self.apply(In::Op(0x85), 2, &[VT::I64]);
                    }
                    return;
                }
                let op = *self.s.pick(I64_RES);
                self.scalar(op, d)
            }
            VT::F32 => {
                let op = *self.s.pick(F32_RES);
                self.scalar(op, d)
            }
            VT::F64 => {
                let op = *self.s.pick(F64_RES);
                self.scalar(op, d)
            }
            VT::V128 => self.vector(d),
            _ => self.leaf(t),
        }
    }

    fn scalar(&mut self, op: u8, d: u32) {
        let (p, r) = ops::sig(op);
        self.operands(p, d);
        self.apply(In::Op(op), p.len(), &[r]);
    }

    fn div(&mut self, t: VT, d: u32) {
        let op = if t == VT::I32 { 0x6d } else { 0x7f } + self.s.below(4) as u8;
        self.expr(t, d);
        if self.trapish() {
            self.expr(t, d);
        } else {
            match self.s.below(2) {
                0 => {
                    let k = 1 + self.s.below(100);
                    self.apply(if t == VT::I32 { In::I32(k as u32) } else { In::I64(k) }, 0, &[t]);
                }
                _ => {
                    // (x & mask) | 1 : never zero, never -1
                    self.expr(t, d);
                    let (a, o, k1, k2) =
                        if t == VT::I32 { (0x71, 0x72, In::I32(0xffff), In::I32(1)) } else { (0x83, 0x84, In::I64(0xffff_ffff), In::I64(1)) };
                    self.apply(k1, 0, &[t]);
                    self.apply(In::Op(a), 2, &[t]);
                    self.apply(k2, 0, &[t]);
                    self.apply(In::Op(o), 2, &[t]);
                }
            }
        }
        self.apply(In::Op(op), 2, &[t]);
    }

    fn vector(&mut self, d: u32) {
        const INT: &[u32] = &[
            0x0e, 0x0f, 0x10, 0x11, 0x12, 0x23, 0x25, 0x2d, 0x37, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x4e, 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 0x62, 0x65,
            0x6b, 0x6e, 0x71, 0x76, 0x7b, 0x8e, 0x95, 0xae, 0xb5, 0xce, 0xd1, 0xd5, 0xce, 0xd5, 0xba, 0x87, 0xa7, 0xc7, 0x9c, 0xdc, 0x13, 0x14,
        ];
        match self.s.below(8) {
            0 => {
                let op = *self.s.pick(&[0x17u32, 0x1a, 0x1c, 0x1e, 0x20, 0x22]);
                let (n, t, _) = ops::simd_lane(op).unwrap();
                if matches!(t, VT::F32 | VT::F64) && self.p.floats == 0 {
                    return self.leaf(VT::V128);
                }
                self.operands(&[VT::V128, t], d);
                let l = self.s.below(n as u64) as u8;
                self.apply(In::SimdLane(op, l), 2, &[VT::V128]);
            }
            1 => {
                let mut l = [0u8; 16];
                for x in &mut l {
                    *x = self.s.below(32) as u8;
                }
                self.operands(&[VT::V128, VT::V128], d);
                self.apply(In::Shuffle(l), 2, &[VT::V128]);
            }
            2 => {
                let all = ops::all_simd();
                let c: Vec<u32> = all.into_iter().filter(|o| (self.p.relaxed || *o < 0x100) && ops::simd_sig(*o).unwrap().1 == VT::V128).collect();
                let op = *self.s.pick(&c);
                let (p, _) = ops::simd_sig(op).unwrap();
                if self.p.floats == 0 && matches!(op, 0x13 | 0x14) {
                    return self.leaf(VT::V128);
                }
                self.operands(p, d);
                self.apply(In::Simd(op), p.len(), &[VT::V128]);
            }
            _ => {
                let op = *self.s.pick(INT);
                let (p, _) = ops::simd_sig(op).unwrap();
                if self.p.floats == 0 && matches!(op, 0x13 | 0x14) {
                    return self.leaf(VT::V128);
                }
                self.operands(p, d);
                self.apply(In::Simd(op), p.len(), &[VT::V128]);
            }
        }
    }

    /// An i32 condition, biased towards the shapes the optimiser recognises.
    fn cond(&mut self, d: u32) {
        let fl = self.floor;
        self.floor = self.st.len();
        self.cond_in(d);
        self.floor = fl;
    }

    fn cond_in(&mut self, d: u32) {
        let t = if self.s.chance(1, 3) { VT::I64 } else { VT::I32 };
        let cmp = if t == VT::I32 { 0x46 } else { 0x51 } + self.s.below(10) as u8;
        match self.s.below(8) {
            0 => self.expr(VT::I32, d),
            1 => {
                self.expr(t, d);
                self.apply(In::Op(if t == VT::I32 { 0x45 } else { 0x50 }), 1, &[VT::I32]);
            }
            2 | 3 => {
                // local (or expression) against a constant, often zero
                if self.s.bool() {
                    self.leaf(t)
                } else {
                    self.expr(t, d)
                }
                let v = if self.s.chance(1, 2) { Val::default() } else { value(self.s, t) };
                self.apply(konst(t, v), 0, &[t]);
                self.apply(In::Op(cmp), 2, &[VT::I32]);
                if self.s.chance(1, 5) {
                    self.apply(In::Op(0x45), 1, &[VT::I32]);
                }
            }
            4 | 5 => match (self.readable(t), self.readable(t)) {
                (Some(a), Some(b)) => {
                    self.apply(In::LGet(a), 0, &[t]);
                    self.apply(In::LGet(b), 0, &[t]);
                    self.apply(In::Op(cmp), 2, &[VT::I32]);
                }
                _ => self.leaf(VT::I32),
            },
            6 => match self.readable(VT::I32) {
                Some(a) => {
                    self.apply(In::LGet(a), 0, &[VT::I32]);
                    if self.s.bool() {
                        self.apply(In::Op(0x45), 1, &[VT::I32]);
                    }
                }
                None => self.leaf(VT::I32),
            },
            _ => {
                self.operands(&[t, t], d);
                self.apply(In::Op(cmp), 2, &[VT::I32]);
            }
        }
    }

    fn size_of(&self, mem: usize) -> u64 {
        self.mems[mem].min.saturating_mul(self.mems[mem].page_size())
    }
    fn safe_addr(&mut self, mem: usize, w: u64) -> u64 {
        let sz = self.size_of(mem).saturating_sub(w);
        if sz == 0 {
            return 0;
        }
        match self.s.below(4) {
            0 => self.s.below(sz.min(64)),
            1 => self.s.below(sz.min(300)),
            2 => self.s.below(sz),
            _ => sz - self.s.below(sz.min(24)),
        }
    }
    fn ity(&self, mem: usize) -> VT {
        if self.mems[mem].m64 { VT::I64 } else { VT::I32 }
    }
    fn k(t: VT, v: u64) -> In {
        if t == VT::I64 { In::I64(v) } else { In::I32(v as u32) }
    }

    /// Push an address for an access of width w, return the memarg.
    fn addr(&mut self, mem: usize, w: u64, d: u32) -> MA {
        let t = self.ity(mem);
        let sz = self.size_of(mem);
        let max_align = w.trailing_zeros() as u64;
        let align = if self.s.chance(1, 3) { self.s.below(max_align + 1) } else { max_align } as u32;
        let mut off = match self.s.below(6) {
            0..=2 => 0,
            3 | 4 => self.s.below(40),
            _ => self.s.below(2000),
        };
        if sz < off + w + 32 {
            off = 0;
        }
        if self.trapish() {
            off = *self.s.pick(&[sz, sz.saturating_sub(w), 0xffff_ffff, 0x7fff_ffff, sz.saturating_sub(1)]);
            if t == VT::I64 && self.s.bool() {
                off = *self.s.pick(&[u64::MAX, u64::MAX - 8, 1 << 32, 1 << 63]);
            }
            if off > sz && self.s.chance(1, 3) {
                // a sum that would be a good address if it could wrap around
                let a = self.safe_addr(mem, w).wrapping_sub(off);
                self.apply(Self::k(t, a), 0, &[t]);
                return MA { align, off, mem: mem as u32 };
            }
        }
        match self.s.below(8) {
            0 | 1 => {
                let a = self.safe_addr(mem, w.saturating_add(off));
                self.apply(Self::k(t, a), 0, &[t]);
            }
            2..=4 => {
                let c: Vec<u32> = self.ptrs.iter().filter(|x| x.0 == mem as u32).map(|x| x.1).collect();
                if c.is_empty() {
                    let a = self.safe_addr(mem, w.saturating_add(off));
                    self.apply(Self::k(t, a), 0, &[t]);
                } else {
                    let l = *self.s.pick(&c);
                    self.apply(In::LGet(l), 0, &[t]);
                    if off > 0 {
                        off %= 32;
                    }
                }
            }
            5 | 6 if sz > w.saturating_add(off) => {
                self.expr(t, d);
                let lim = sz - w - off;
                let mask = if lim < 2 { 0 } else { (1u64 << (63 - lim.leading_zeros())) - 1 };
                let mask = if self.s.bool() { mask.min(0xff) } else { mask };
                self.apply(Self::k(t, mask), 0, &[t]);
                self.apply(In::Op(if t == VT::I64 { 0x83 } else { 0x71 }), 2, &[t]);
            }
            _ => {
                if self.trapish() {
                    self.expr(t, d);
                } else if self.trapish() {
                    let a = sz.saturating_sub(w.saturating_add(off)).wrapping_add(self.s.below(4));
                    self.apply(Self::k(t, a), 0, &[t]);
                } else {
                    let a = sz.saturating_sub(w.saturating_add(off).saturating_add(self.s.below(3)));
                    self.apply(Self::k(t, a), 0, &[t]);
                }
            }
        }
        MA { align, off, mem: mem as u32 }
    }

    fn pick_mem(&mut self) -> Option<usize> {
        if self.mems.is_empty() || self.p.mem + self.p.bulk == 0 {
            return None;
        }
        let i = self.s.usize(self.mems.len());
        if self.size_of(i) < 64 && !self.s.chance(1, 10) {
            return None;
        }
        Some(i)
    }

    fn load(&mut self, t: VT, d: u32) {
        let Some(mem) = self.pick_mem() else {
            return self.leaf(t);
        };
        match t {
            VT::V128 => {
                if self.s.chance(1, 4) {
                    let op = *self.s.pick(&ops::SIMD_LOAD_LANES);
                    let w = ops::simd_mem_width(op) as u64;
                    let ma = self.addr(mem, w, d);
                    self.expr(VT::V128, d);
                    let l = self.s.below(16 / w) as u8;
                    self.apply(In::SimdMemLane(op, ma, l), 2, &[VT::V128]);
                } else {
                    let op = if self.s.bool() { 0 } else { *self.s.pick(&ops::SIMD_LOADS) };
                    let ma = self.addr(mem, ops::simd_mem_width(op) as u64, d);
                    self.apply(In::SimdMem(op, ma), 1, &[VT::V128]);
                }
            }
            VT::Func | VT::Extern => {
                let c: Vec<usize> = (0..self.tabs.len()).filter(|i| self.tabs[*i].el == t).collect();
                if c.is_empty() || self.p.table == 0 {
                    return self.leaf(t);
                }
                let x = *self.s.pick(&c);
                self.tidx(x, 1, d);
                self.apply(In::TGet(x as u32), 1, &[t]);
            }
            _ => {
                let op = *self.s.pick(match t {
                    VT::I32 => &[0x28u8, 0x28, 0x2c, 0x2d, 0x2e, 0x2f][..],
                    VT::I64 => &[0x29, 0x29, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35],
                    VT::F32 => &[0x2a],
                    _ => &[0x2b],
                });
                let ma = self.addr(mem, ops::mem_op(op).0 as u64, d);
                self.apply(In::Mem(op, ma), 1, &[t]);
            }
        }
    }

    fn store(&mut self, d: u32) {
        let Some(mem) = self.pick_mem() else { return };
        if self.p.simd > 0 && self.s.chance(self.p.simd as u64, 8) {
            if self.s.bool() {
                let ma = self.addr(mem, 16, d);
                self.expr(VT::V128, d);
                return self.apply(In::SimdMem(0x0b, ma), 2, &[]);
            }
            let op = *self.s.pick(&ops::SIMD_STORE_LANES);
            let w = ops::simd_mem_width(op) as u64;
            let ma = self.addr(mem, w, d);
            self.expr(VT::V128, d);
            let l = self.s.below(16 / w) as u8;
            return self.apply(In::SimdMemLane(op, ma, l), 2, &[]);
        }
        let op = 0x36 + self.s.below(9) as u8;
        let (w, t, _) = ops::mem_op(op);
        if matches!(t, VT::F32 | VT::F64) && self.p.floats == 0 {
            return;
        }
        let ma = self.addr(mem, w as u64, d);
        self.expr(t, d);
        self.apply(In::Mem(op, ma), 2, &[]);
    }

    /// Push a table index that leaves room for n elements.
    fn tidx(&mut self, tab: usize, n: u64, d: u32) {
        let t = if self.tabs[tab].t64 { VT::I64 } else { VT::I32 };
        if self.trapish() {
            if self.s.bool() {
                let v = (self.tabs[tab].min + self.s.below(3)).saturating_sub(n);
                return self.apply(Self::k(t, v), 0, &[t]);
            }
            return self.expr(t, d);
        }
        let lim = self.tabs[tab].min.saturating_sub(n);
        let v = self.s.below(lim + 1);
        if self.s.chance(1, 4) && lim > 1 {
            self.expr(t, d);
            let mask = (1u64 << (63 - (lim + 1).leading_zeros())) - 1;
            self.apply(Self::k(t, mask), 0, &[t]);
            return self.apply(In::Op(if t == VT::I64 { 0x83 } else { 0x71 }), 2, &[t]);
        }
        self.apply(Self::k(t, v), 0, &[t]);
    }

    fn args(&mut self, t: &FT, d: u32) {
        self.operands(&t.p, d);
    }

    /// Functions this one may call without a recursion guard.
    fn callable(&self, pred: impl Fn(&FT) -> bool) -> Vec<u32> {
        (0..self.m.n_funcs()).filter(|f| (*f < self.fimp || *f > self.fi) && pred(self.m.func_ty(*f))).collect()
    }

    fn imports_first(&mut self, c: Vec<u32>) -> Vec<u32> {
        if c.iter().any(|f| *f < self.fimp) && self.s.chance(self.p.prefer_imports as u64, 1000) {
            return c.into_iter().filter(|f| *f < self.fimp).collect();
        }
        c
    }

    fn call_for(&mut self, t: VT, d: u32) -> bool {
        let c = self.callable(|x| x.r == [t]);
        let c = self.imports_first(c);
        if c.is_empty() || self.p.calls == 0 {
            return false;
        }
        let f = *self.s.pick(&c);
        let ty = self.m.func_ty(f).clone();
        self.args(&ty, d);
        self.apply(In::Call(f), ty.p.len(), &ty.r);
        true
    }

    fn dec_gf(&mut self) {
        let g = self.gf;
        self.emit(In::GGet(g));
        self.emit(In::I32(1));
        self.emit(In::Op(0x6b));
        self.emit(In::GSet(g));
    }

    fn bt(&mut self, p: &[VT], r: &[VT]) -> BT {
        if p.is_empty() && r.len() <= 1 && !self.s.chance(1, 20) {
            return match r.first() {
                None => BT::Empty,
                Some(t) => BT::Val(*t),
            };
        }
        BT::Ty(self.m.ty(FT { p: p.to_vec(), r: r.to_vec() }))
    }

    /// Run `f` inside a new frame whose stack starts with `p`, and return its code.
    fn nested(&mut self, p: &[VT], r: &[VT], lab: Lab, f: impl FnOnce(&mut Self)) -> Vec<In> {
        let out = std::mem::take(&mut self.out);
        let (base, dead, floor) = (self.base, self.dead, self.floor);
        self.pop_n(p.len());
        let st = self.st.clone();
        self.base = self.st.len();
        self.floor = self.base;
        self.dead = false;
        self.st.extend_from_slice(p);
        self.labels.push(lab);
        f(self);
        self.finish(r);
        self.labels.pop();
        self.base = base;
        self.floor = floor;
        self.dead = dead;
        self.st = st;
        self.st.extend_from_slice(p);
        std::mem::replace(&mut self.out, out)
    }

    fn call(&mut self, d: u32) {
        let recursive = self.s.chance(1, 4);
        let indirect = !self.tabs.is_empty() && self.s.weighted(&[self.p.calls, self.p.indirect]) == 1;
        let tail = self.s.weighted(&[self.p.calls, self.p.tail]) == 1;
        if indirect {
            return self.call_indirect(d, tail);
        }
        if !recursive {
            let r = self.res.clone();
            let c = if tail { self.callable(|x| x.r == r) } else { self.callable(|_| true) };
            let c = self.imports_first(c);
            if c.is_empty() {
                return;
            }
            let f = *self.s.pick(&c);
            let ty = self.m.func_ty(f).clone();
            self.args(&ty, d);
            if tail {
                self.apply(In::RetCall(f), ty.p.len(), &[]);
                self.kill();
            } else {
                self.apply(In::Call(f), ty.p.len(), &ty.r);
            }
            return;
        }
        // guarded: if gf > 0 { gf -= 1; call } else { defaults }
        let (lo, n) = (self.fimp, self.m.n_funcs());
        if lo == n {
            return;
        }
        let r = self.res.clone();
        let mut c: Vec<u32> = (lo..n).collect();
        if tail {
            c.retain(|f| self.m.func_ty(*f).r == r);
        }
        if self.s.chance(1, 3) {
            c.retain(|f| *f == self.fi);
        }
        if c.is_empty() {
            return;
        }
        let f = *self.s.pick(&c);
        let ty = self.m.func_ty(f).clone();
        self.guarded_call(d, tail, ty, |_| {}, In::Call(f), In::RetCall(f));
    }

    fn guarded_call(&mut self, d: u32, tail: bool, ty: FT, extra: impl FnOnce(&mut Self), call: In, ret: In) {
        let g = self.gf;
        self.apply(In::GGet(g), 0, &[VT::I32]);
        self.apply(In::I32(0), 0, &[VT::I32]);
        self.apply(In::Op(0x4a), 2, &[VT::I32]);
        self.pop_n(1);
        let r: Vec<VT> = if tail { vec![] } else { ty.r.clone() };
        let bt = self.bt(&[], &r);
        let lab = Lab { tys: r.clone(), lp: None };
        let a = self.nested(&[], &r, lab.clone(), |s| {
            s.dec_gf();
            for t in &ty.p {
                s.expr(*t, d);
            }
            extra(s);
            let n = ty.p.len();
            if tail {
                s.pop_n(usize::MAX);
                s.emit(ret);
                s.kill();
            } else {
                s.pop_n(n + 1);
                s.st.truncate(s.base);
                s.emit(call);
                s.st.extend_from_slice(&ty.r);
            }
        });
        let b = if r.is_empty() {
            None
        } else {
            Some(self.nested(&[], &r, lab, |s| {
                for t in &r {
                    s.leaf(*t);
                }
            }))
        };
        self.emit(In::If(bt, a, b));
        self.st.extend_from_slice(&r);
    }

    fn call_indirect(&mut self, d: u32, tail: bool) {
        let c: Vec<usize> = (0..self.tabs.len()).filter(|i| self.tabs[*i].el == VT::Func).collect();
        if c.is_empty() {
            return;
        }
        let tab = *self.s.pick(&c);
        let res = self.res.clone();
        let good: Vec<(u64, u32)> =
            self.slots.iter().filter(|x| x.0 == tab as u32 && (!tail || self.m.func_ty(x.2).r == res)).map(|x| (x.1, x.2)).collect();
        let (slot, ty) = if !good.is_empty() && !self.trapish() {
            let (sl, f) = *self.s.pick(&good);
            (Some(sl), self.m.func_ty_idx(f))
        } else if self.s.chance(1, 3) {
            let c: Vec<u32> = (0..self.m.types.len() as u32).filter(|t| !tail || self.m.types[*t as usize].r == res).collect();
            if c.is_empty() {
                return;
            }
            (None, *self.s.pick(&c))
        } else {
            return;
        };
        let ft = self.m.types[ty as usize].clone();
        let it = if self.tabs[tab].t64 { VT::I64 } else { VT::I32 };
        // a structurally equal type may be declared twice
        let same: Vec<u32> = (0..self.m.types.len() as u32).filter(|t| self.m.types[*t as usize] == ft).collect();
        let ty = *self.s.pick(&same);
        self.guarded_call(
            d,
            tail,
            ft,
            |s| match slot {
                Some(v) => s.apply(Self::k(it, v), 0, &[it]),
                None => s.tidx(tab, 1, d),
            },
            In::CallInd { ty, tab: tab as u32 },
            In::RetCallInd { ty, tab: tab as u32 },
        );
    }

    fn block(&mut self, results: Option<Vec<VT>>) {
        let d = 2;
        let known = self.st.len() - self.base;
        let np = if results.is_some() { 0 } else { *self.s.pick(&[0usize, 0, 1, 2, 3]) }.min(known);
        let p: Vec<VT> = self.st[self.st.len() - np..].to_vec();
        let r = match results {
            Some(r) => r,
            None => match self.s.below(8) {
                0..=2 => vec![],
                3..=5 => vec![vt(self.s, self.p)],
                6 => p.clone(),
                _ => (0..self.s.below(4)).map(|_| vt(self.s, self.p)).collect(),
            },
        };
        let kind = self.s.weighted(&[3, 3, 4]);
        let depth = self.labels.len();
        if depth > 6 || self.budget < 3 {
            if p.is_empty() && r.len() == 1 {
                return self.leaf(r[0]);
            }
            return;
        }
        match kind {
            0 => {
                let bt = self.bt(&p, &r);
                let b = self.nested(&p, &r, Lab { tys: r.clone(), lp: None }, |s| s.stmts());
                self.emit(In::Block(bt, b));
                self.pop_n(np);
                self.st.extend_from_slice(&r);
            }
            1 if self.loops.len() < 3 => {
                let style = self.s.below(4);
                let t = if style == 3 { VT::I64 } else { VT::I32 };
                let c = self.new_local(t);
                self.reserved.push(c);
                let k = 1 + self.s.below(5) as u32;
                let mut lp = Loop { style, c, lim: 0, k, sites: 0 };
                self.emit(Self::k(t, if style == 0 { k as u64 } else { 0 }));
                self.emit(In::LSet(c));
                if style == 2 {
                    lp.lim = self.new_local(VT::I32);
                    self.reserved.push(lp.lim);
                    self.emit(In::I32(k));
                    self.emit(In::LSet(lp.lim));
                }
                self.loops.push(lp);
                let li = self.loops.len() - 1;
                let bt = self.bt(&p, &r);
                let b = self.nested(&p, &r, Lab { tys: p.clone(), lp: Some(li) }, |s| {
                    s.stmts();
                    if !s.dead && s.s.chance(4, 5) {
                        s.operands(&p, d);
                        let single = s.loops[li].sites == 0;
                        s.guard(li, single);
                        s.emit(In::BrIf(0));
                        s.pop_n(1);
                    }
                    // results follow; `finish` must not branch to the loop label
                    let have = s.st[s.base..].to_vec();
                    if !s.dead && have != r {
                        for _ in 0..have.len() {
                            s.emit(DROP);
                        }
                        s.st.truncate(s.base);
                        for t in &r {
                            s.expr(*t, 1);
                        }
                    } else if s.dead && !s.st[s.base..].is_empty() {
                        for _ in 0..have.len() {
                            s.emit(DROP);
                        }
                        s.st.truncate(s.base);
                    }
                    if s.dead {
                        for t in &r {
                            s.leaf(*t);
                        }
                        s.dead = false;
                    }
                });
                self.loops.pop();
                self.emit(In::Loop(bt, b));
                self.pop_n(np);
                self.st.extend_from_slice(&r);
            }
            _ => {
                // the condition sits above the parameters
                self.cond(d);
                self.pop_n(1);
                let bt = self.bt(&p, &r);
                let lab = Lab { tys: r.clone(), lp: None };
                let a = self.nested(&p, &r, lab.clone(), |s| s.stmts());
                let b = if p == r && self.s.bool() { None } else { Some(self.nested(&p, &r, lab, |s| s.stmts())) };
                self.emit(In::If(bt, a, b));
                self.pop_n(np);
                self.st.extend_from_slice(&r);
            }
        }
    }

    /// Push an i32 that is non-zero only while the loop may go round again.
    fn guard(&mut self, li: usize, single: bool) {
        self.loops[li].sites += 1;
        let l = self.loops[li].clone();
        let t = if l.style == 3 { VT::I64 } else { VT::I32 };
        let (add, sub) = if t == VT::I64 { (0x7c, 0x7d) } else { (0x6a, 0x6b) };
        let one = Self::k(t, 1);
        self.emit(In::LGet(l.c));
        if l.style == 0 {
            if self.s.bool() {
                self.emit(one);
                self.emit(In::Op(sub));
            } else {
                self.emit(Self::k(t, u64::MAX));
                self.emit(In::Op(add));
            }
        } else if self.s.bool() {
            self.emit(one);
            self.emit(In::Op(add));
        } else {
            // 1 + c
            self.out.pop();
            self.emit(one);
            self.emit(In::LGet(l.c));
            self.emit(In::Op(add));
        }
        let tee = self.s.bool();
        if tee {
            self.emit(In::LTee(l.c));
        } else {
            self.emit(In::LSet(l.c));
            self.emit(In::LGet(l.c));
        }
        match l.style {
            0 => {
                match self.s.below(if single { 4 } else { 2 }) {
                    0 => {
                        self.emit(In::I32(0));
                        self.emit(In::Op(0x4a)); // gt_s
                    }
                    1 => {
                        self.emit(In::I32(1));
                        self.emit(In::Op(0x4e)); // ge_s
                    }
                    2 => {}
                    _ => {
                        self.emit(In::I32(0));
                        self.emit(In::Op(0x47)); // ne
                    }
                }
            }
            1 => {
                self.emit(In::I32(l.k));
                let op = *self.s.pick(if single { &[0x48u8, 0x49, 0x4c, 0x47][..3] } else { &[0x48, 0x49, 0x4c][..] });
                self.emit(In::Op(op));
            }
            2 => {
                if self.s.bool() {
                    self.emit(In::LGet(l.lim));
                    let op = *self.s.pick(&[0x48u8, 0x49, 0x4d]);
                    self.emit(In::Op(op));
                } else {
                    // limit first: the counter is already pushed, so subtract and compare with zero
                    self.emit(In::LGet(l.lim));
                    self.emit(In::Op(0x6b));
                    self.emit(In::I32(0));
                    self.emit(In::Op(0x48));
                }
            }
            _ => {
                self.emit(In::I64(l.k as u64));
                let op = *self.s.pick(&[0x53u8, 0x54, 0x57]);
                self.emit(In::Op(op));
            }
        }
        self.st.push(VT::I32);
    }

    fn branch(&mut self, d: u32) {
        let n = self.labels.len();
        let li = self.s.usize(n);
        let lab = self.labels[n - 1 - li].clone();
        match lab.lp {
            Some(lp) => {
                // guarded back edge
                self.operands(&lab.tys, d);
                self.guard(lp, false);
                match self.s.below(4) {
                    0 => {
                        // br_table with the loop at index 1
                        let other: Vec<u32> = (0..n)
                            .filter(|k| self.labels[n - 1 - k].lp.is_none() && self.labels[n - 1 - k].tys == lab.tys)
                            .map(|k| k as u32)
                            .collect();
                        if other.is_empty() {
                            self.emit(In::BrIf(li as u32));
                            self.pop_n(1);
                        } else {
                            let o = *self.s.pick(&other);
                            self.emit(In::BrTable(vec![o, li as u32], o));
                            self.kill();
                        }
                    }
                    1 => {
                        // if (guard) br loop
                        self.pop_n(1);
                        let tys = lab.tys.clone();
                        if tys.is_empty() {
                            self.emit(In::If(BT::Empty, vec![In::Br(li as u32 + 1)], None));
                        } else {
                            self.emit(In::BrIf(li as u32));
                        }
                    }
                    _ => {
                        self.emit(In::BrIf(li as u32));
                        self.pop_n(1);
                    }
                }
            }
            None => match self.s.below(6) {
                0..=2 => {
                    self.operands(&lab.tys, d);
                    self.cond(d);
                    self.emit(In::BrIf(li as u32));
                    self.pop_n(1);
                }
                3 => {
                    let same: Vec<u32> =
                        (0..n).filter(|k| self.labels[n - 1 - k].lp.is_none() && self.labels[n - 1 - k].tys == lab.tys).map(|k| k as u32).collect();
                    self.operands(&lab.tys, d);
                    let cnt = match self.s.below(10) {
                        0 => 0,
                        9 => self.s.below(40),
                        _ => 1 + self.s.below(5),
                    };
                    let ls: Vec<u32> = (0..cnt).map(|_| *self.s.pick(&same)).collect();
                    let def = *self.s.pick(&same);
                    self.expr(VT::I32, d);
                    if self.s.chance(3, 4) {
                        self.apply(In::I32(7), 0, &[VT::I32]);
                        self.apply(In::Op(0x71), 2, &[VT::I32]);
                    }
                    self.emit(In::BrTable(ls, def));
                    self.kill();
                }
                4 => {
                    self.operands(&lab.tys, d);
                    self.emit(In::Br(li as u32));
                    self.kill();
                }
                _ => {
                    let r = self.res.clone();
                    if self.s.bool() && n > 1 {
                        self.operands(&r, d);
                        self.emit(RETURN);
                        self.kill();
                    } else {
                        self.operands(&lab.tys, d);
                        self.cond(d);
                        self.emit(In::BrIf(li as u32));
                        self.pop_n(1);
                    }
                }
            },
        }
    }

    fn stmt(&mut self) {
        let d = 2;
        let p = self.p;
        let wt = if self.tabs.is_empty() { 0 } else { p.table };
        let wm = if self.mems.is_empty() { 0 } else { p.mem };
        let wb = if self.mems.is_empty() { 0 } else { p.bulk };
        let w = [4, p.globals, wm, p.control, p.control, p.calls, wb, wt, p.idioms, 2, p.numeric, 1, if p.trap > 0 { 1 } else { 0 }];
        match self.s.weighted(&w) {
            0 => {
                let t = vt(self.s, self.p);
                if let Some(l) = self.writable(t) {
                    self.operands(&[t], d);
                    if self.s.chance(1, 4) {
                        self.emit(In::LTee(l));
                        self.apply(DROP, 1, &[]);
                    } else {
                        self.apply(In::LSet(l), 1, &[]);
                    }
                }
            }
            1 => {
                let c: Vec<u32> = self.globs.iter().enumerate().filter(|(i, g)| g.m && *i as u32 != self.gf).map(|x| x.0 as u32).collect();
                if !c.is_empty() {
                    let g = *self.s.pick(&c);
                    let t = self.globs[g as usize].t;
                    self.operands(&[t], d);
                    self.apply(In::GSet(g), 1, &[]);
                }
            }
            2 => self.store(d),
            3 => self.block(None),
            4 => self.branch(d),
            5 => self.call(d),
            6 => self.bulk(d),
            7 => self.table(d),
            8 => self.idiom(d),
            9 => {
                // leave something on the stack for later
                let t = vt(self.s, self.p);
                self.expr(t, d);
            }
            10 => {
                // operate on the stack top
                match self.st[self.base..].last().copied() {
                    Some(t) if self.s.chance(2, 3) => {
                        let c: Vec<u8> = (0x45..=0xc4u8)
                            .filter(|o| {
                                let (p, _) = ops::sig(*o);
                                self.st[self.base..].ends_with(p) && !matches!(o, 0x6d..=0x70 | 0x7f..=0x82 | 0xa8..=0xab | 0xae..=0xb1)
                            })
                            .collect();
                        if c.is_empty() {
                            if let Some(l) = self.writable(t) {
                                self.emit(In::LTee(l));
                            }
                        } else {
                            let op = *self.s.pick(&c);
                            let (p, r) = ops::sig(op);
                            self.apply(In::Op(op), p.len(), &[r]);
                        }
                    }
                    Some(_) => self.apply(DROP, 1, &[]),
                    None => {
                        let t = vt(self.s, self.p);
                        self.expr(t, d + 1);
                        if self.s.bool() {
                            self.apply(DROP, 1, &[]);
                        }
                    }
                }
            }
            11 => self.emit(NOP),
            _ => {
                if self.trapish() {
                    if self.s.bool() {
                        self.cond(d);
                        self.pop_n(1);
                        self.emit(In::If(BT::Empty, vec![UNREACHABLE], None));
                    } else if self.labels.len() > 2 {
                        self.emit(UNREACHABLE);
                        self.kill();
                    }
                }
            }
        }
    }

    /// A length operand that usually fits.
    fn len_op(&mut self, t: VT, max: u64, d: u32) -> u64 {
        if self.trapish() {
            self.expr(t, d);
            return 0;
        }
        let n = match self.s.below(16) {
            0..3 => 0,
            3..9 => self.s.below(max.min(20) + 1),
            9..12 => self.s.below(max.min(300) + 1),
            12..15 => self.s.below(max.min(5000) + 1),
            _ => (4096 * self.s.range(1, 4) + self.s.below(3)).saturating_sub(1).min(max),
        };
        self.apply(Self::k(t, n), 0, &[t]);
        n
    }

    /// How far past the end a range reaches that should end exactly there.
    fn past(&mut self) -> u64 {
        if self.p.trap > 0 && self.s.chance(1, 6) { *self.s.pick(&[1, 1, 2, 65536]) } else { 0 }
    }

    /// Ranges of no or a few bytes that end at, or just past, the end of what they lie in.
    fn bulk_edge(&mut self, mem: usize) {
        let (t, sz) = (self.ity(mem), self.size_of(mem));
        let n = *self.s.pick(&[0, 0, 0, 1, 2, 3]);
        let n = n.min(sz);
        let a = sz - n + self.past();
        let byte = self.s.below(256) as u32;
        match self.s.below(4) {
            0 => {
                self.apply(Self::k(t, a), 0, &[t]);
                self.apply(In::I32(byte), 0, &[VT::I32]);
                self.apply(Self::k(t, n), 0, &[t]);
                self.apply(In::MFill(mem as u32), 3, &[]);
            }
            1 if !self.m.datas.is_empty() => {
                let data = self.s.usize(self.m.datas.len());
                let dl = if self.m.datas[data].active.is_some() { 0 } else { self.m.datas[data].bytes.len() as u64 };
                let n = n.min(dl);
                let a = if self.s.bool() { a } else { sz - n };
                self.apply(Self::k(t, a), 0, &[t]);
                let o = dl - n + self.past();
                self.apply(In::I32(o as u32), 0, &[VT::I32]);
                self.apply(In::I32(n as u32), 0, &[VT::I32]);
                self.apply(In::MInit { data: data as u32, mem: mem as u32 }, 3, &[]);
            }
            _ => {
                let src = self.s.usize(self.mems.len());
                let (ts, ss) = (self.ity(src), self.size_of(src));
                let n = n.min(ss);
                let b = if self.s.bool() { ss - n + self.past() } else { self.s.below(ss - n + 1) };
                let a = if self.s.bool() { a } else { self.s.below(sz - n + 1) };
                self.apply(Self::k(t, a), 0, &[t]);
                self.apply(Self::k(ts, b), 0, &[ts]);
                let tn = if t == VT::I64 && ts == VT::I64 { VT::I64 } else { VT::I32 };
                self.apply(Self::k(tn, n), 0, &[tn]);
                self.apply(In::MCopy { d: mem as u32, s: src as u32 }, 3, &[]);
            }
        }
    }

    fn table_edge(&mut self, tab: usize) {
        let tt = self.tabs[tab];
        let w = |t64: bool| if t64 { VT::I64 } else { VT::I32 };
        let n = *self.s.pick(&[0, 0, 1, 2]);
        let n = n.min(tt.min);
        let a = tt.min - n + self.past();
        let elems: Vec<usize> = (0..self.m.elems.len()).filter(|i| self.m.elems[*i].vt() == tt.el).collect();
        match self.s.below(4) {
            0 => {
                self.apply(Self::k(w(tt.t64), a), 0, &[w(tt.t64)]);
                self.apply(In::RefNull(tt.el), 0, &[tt.el]);
                self.apply(Self::k(w(tt.t64), n), 0, &[w(tt.t64)]);
                self.apply(In::TFill(tab as u32), 3, &[]);
            }
            1 if !elems.is_empty() => {
                let e = *self.s.pick(&elems);
                let el = if matches!(self.m.elems[e].mode, ElemMode::Passive) { self.m.elems[e].len() as u64 } else { 0 };
                let n = n.min(el);
                let a = if self.s.bool() { a } else { tt.min - n };
                self.apply(Self::k(w(tt.t64), a), 0, &[w(tt.t64)]);
                let o = el - n + self.past();
                self.apply(In::I32(o as u32), 0, &[VT::I32]);
                self.apply(In::I32(n as u32), 0, &[VT::I32]);
                self.apply(In::TInit { elem: e as u32, tab: tab as u32 }, 3, &[]);
            }
            _ => {
                let c: Vec<usize> = (0..self.tabs.len()).filter(|i| self.tabs[*i].el == tt.el).collect();
                let y = *self.s.pick(&c);
                let ty = self.tabs[y];
                let n = n.min(ty.min);
                let b = if self.s.bool() { ty.min - n + self.past() } else { self.s.below(ty.min - n + 1) };
                let a = if self.s.bool() { a } else { self.s.below(tt.min - n + 1) };
                self.apply(Self::k(w(tt.t64), a), 0, &[w(tt.t64)]);
                self.apply(Self::k(w(ty.t64), b), 0, &[w(ty.t64)]);
                let tn = w(tt.t64 && ty.t64);
                self.apply(Self::k(tn, n), 0, &[tn]);
                self.apply(In::TCopy { d: tab as u32, s: y as u32 }, 3, &[]);
            }
        }
    }

    fn bulk(&mut self, d: u32) {
        let Some(mem) = self.pick_mem() else { return };
        let t = self.ity(mem);
        let sz = self.size_of(mem);
        if self.s.chance(1, 10) {
            return self.bulk_edge(mem);
        }
        match self.s.below(7) {
            0 => {
                self.apply(In::MSize(mem as u32), 0, &[t]);
                match self.writable(t) {
                    Some(l) => self.apply(In::LSet(l), 1, &[]),
                    None => self.apply(DROP, 1, &[]),
                }
            }
            1 => {
                // grow: a small constant, or something absurd that must fail
                let big = self.s.chance(1, 4);
                let n = if big { *self.s.pick(&[0x7fff_ffff, 0xffff_ffffu64, 65536, 65537, 0x8000_0000]) } else { self.s.below(3) };
                let mt = self.mems[mem];
                let edge = mt.max.filter(|m| m.saturating_mul(mt.page_size()) <= 8 << 20 && self.s.chance(1, 3));
                if let Some(max) = edge {
                    // as far as it goes, or one further
                    let n = max + self.s.below(2);
                    self.apply(Self::k(t, n), 0, &[t]);
                    self.apply(In::MSize(mem as u32), 0, &[t]);
                    self.apply(In::Op(if t == VT::I64 { 0x7d } else { 0x6b }), 2, &[t]);
                } else if self.s.bool() && !big {
                    self.expr(t, d);
                    self.apply(Self::k(t, 1), 0, &[t]);
                    self.apply(In::Op(if t == VT::I64 { 0x83 } else { 0x71 }), 2, &[t]);
                } else {
                    self.apply(Self::k(t, n), 0, &[t]);
                }
                self.apply(In::MGrow(mem as u32), 1, &[t]);
                match self.writable(t) {
                    Some(l) => self.apply(In::LSet(l), 1, &[]),
                    None => self.apply(DROP, 1, &[]),
                }
            }
            2 | 3 => {
                let a = self.safe_addr(mem, 16);
                self.apply(Self::k(t, a), 0, &[t]);
                if self.s.bool() {
                    let b = int32(self.s);
                    self.apply(In::I32(b), 0, &[VT::I32]);
                } else {
                    self.expr(VT::I32, d);
                }
                self.len_op(t, sz.saturating_sub(a), d);
                self.apply(In::MFill(mem as u32), 3, &[]);
            }
            4 | 5 => {
                let src = self.s.usize(self.mems.len());
                let ts = self.ity(src);
                let a = self.safe_addr(mem, 16);
                let b = if self.s.bool() && src == mem { a + self.s.below(20) } else { self.safe_addr(src, 16) };
                self.apply(Self::k(t, a), 0, &[t]);
                self.apply(Self::k(ts, b), 0, &[ts]);
                let tn = if t == VT::I64 && ts == VT::I64 { VT::I64 } else { VT::I32 };
                let lim = sz.saturating_sub(a).min(self.size_of(src).saturating_sub(b));
                self.len_op(tn, lim, d);
                self.apply(In::MCopy { d: mem as u32, s: src as u32 }, 3, &[]);
            }
            _ => {
                if self.m.datas.is_empty() {
                    return;
                }
                let data = self.s.usize(self.m.datas.len());
                if self.s.chance(1, 5) {
                    return self.emit(In::DataDrop(data as u32));
                }
                let dl = if self.m.datas[data].active.is_some() { 0 } else { self.m.datas[data].bytes.len() as u64 };
                let a = self.safe_addr(mem, 16);
                self.apply(Self::k(t, a), 0, &[t]);
                let o = self.s.below(dl + 1);
                self.apply(In::I32(o as u32), 0, &[VT::I32]);
                let n = if self.trapish() { int32(self.s) } else { self.s.below((dl - o).min(sz.saturating_sub(a)) + 1) as u32 };
                self.apply(In::I32(n), 0, &[VT::I32]);
                self.apply(In::MInit { data: data as u32, mem: mem as u32 }, 3, &[]);
            }
        }
    }

    fn table(&mut self, d: u32) {
        let tab = self.s.usize(self.tabs.len());
        let tt = self.tabs[tab];
        let t = if tt.t64 { VT::I64 } else { VT::I32 };
        let x = tab as u32;
        if self.s.chance(1, 10) {
            return self.table_edge(tab);
        }
        match self.s.below(9) {
            0 => {
                self.apply(In::TSize(x), 0, &[t]);
                match self.writable(t) {
                    Some(l) => self.apply(In::LSet(l), 1, &[]),
                    None => self.apply(DROP, 1, &[]),
                }
            }
            1 => {
                self.expr(tt.el, d);
                let n = if self.s.chance(1, 4) { *self.s.pick(&[0xffff_ffffu64, 0x7fff_ffff, 0x8000_0000]) } else { self.s.below(4) };
                let n = if tt.max.is_none_or(|m| m > 5000) && n > 100 { 1 } else { n };
                match tt.max.filter(|m| *m <= 5000 && self.s.chance(1, 3)) {
                    Some(max) => {
                        let n = max + self.s.below(2);
                        self.apply(Self::k(t, n), 0, &[t]);
                        self.apply(In::TSize(x), 0, &[t]);
                        self.apply(In::Op(if t == VT::I64 { 0x7d } else { 0x6b }), 2, &[t]);
                    }
                    None => self.apply(Self::k(t, n), 0, &[t]),
                }
                self.apply(In::TGrow(x), 2, &[t]);
                match self.writable(t) {
                    Some(l) => self.apply(In::LSet(l), 1, &[]),
                    None => self.apply(DROP, 1, &[]),
                }
            }
            2 | 3 => {
                self.tidx(tab, 1, d);
                self.expr(tt.el, d);
                self.apply(In::TSet(x), 2, &[]);
            }
            4 => {
                self.tidx(tab, 1, d);
                self.apply(In::TGet(x), 1, &[tt.el]);
                match self.writable(tt.el) {
                    Some(l) if self.s.bool() => self.apply(In::LSet(l), 1, &[]),
                    _ => {
                        self.apply(REF_IS_NULL, 1, &[VT::I32]);
                        self.apply(DROP, 1, &[]);
                    }
                }
            }
            5 => {
                let n = self.s.below(4).min(tt.min);
                self.tidx(tab, n, d);
                self.expr(tt.el, d);
                let n = if self.trapish() { n + tt.min } else { n };
                self.apply(Self::k(t, n), 0, &[t]);
                self.apply(In::TFill(x), 3, &[]);
            }
            6 => {
                let c: Vec<usize> = (0..self.tabs.len()).filter(|i| self.tabs[*i].el == tt.el).collect();
                let y = *self.s.pick(&c);
                let n = self.s.below(5).min(tt.min).min(self.tabs[y].min);
                self.tidx(tab, n, d);
                self.tidx(y, n, d);
                let tn = if tt.t64 && self.tabs[y].t64 { VT::I64 } else { VT::I32 };
                let n = if self.trapish() { n + tt.min } else { n };
                self.apply(Self::k(tn, n), 0, &[tn]);
                self.apply(In::TCopy { d: x, s: y as u32 }, 3, &[]);
            }
            _ => {
                let c: Vec<usize> = (0..self.m.elems.len()).filter(|i| self.m.elems[*i].vt() == tt.el).collect();
                if c.is_empty() {
                    return;
                }
                let e = *self.s.pick(&c);
                if self.s.chance(1, 6) {
                    return self.emit(In::ElemDrop(e as u32));
                }
                let el = if matches!(self.m.elems[e].mode, ElemMode::Passive) { self.m.elems[e].len() as u64 } else { 0 };
                let o = self.s.below(el + 1);
                let mut n = self.s.below((el - o).min(tt.min) + 1);
                self.tidx(tab, n, d);
                self.apply(In::I32(o as u32), 0, &[VT::I32]);
                if self.trapish() {
                    n += 1 + self.s.below(3);
                }
                self.apply(In::I32(n as u32), 0, &[VT::I32]);
                self.apply(In::TInit { elem: e as u32, tab: x }, 3, &[]);
            }
        }
    }

    /// Instruction sequences the rewriter fuses.
    fn idiom(&mut self, d: u32) {
        let t = *self.s.pick(if self.p.floats > 0 { &NUM } else { &[VT::I32, VT::I64, VT::I32, VT::I64] });
        let (add, sub, mul) = match t {
            VT::I32 => (0x6a, 0x6b, 0x6c),
            VT::I64 => (0x7c, 0x7d, 0x7e),
            VT::F32 => (0x92, 0x93, 0x94),
            _ => (0xa0, 0xa1, 0xa2),
        };
        let (ld, stt) = match t {
            VT::I32 => (0x28, 0x36),
            VT::I64 => (0x29, 0x37),
            VT::F32 => (0x2a, 0x38),
            _ => (0x2b, 0x39),
        };
        let Some(x) = self.writable(t) else { return };
        match self.s.below(14) {
            0 => {
                // x += k
                self.apply(In::LGet(x), 0, &[t]);
                let v = value(self.s, t);
                self.apply(konst(t, v), 0, &[t]);
                let op = if self.s.bool() { add } else { sub };
                self.apply(In::Op(op), 2, &[t]);
                let tee = self.s.chance(1, 3);
                if tee { self.emit(In::LTee(x)) } else { self.apply(In::LSet(x), 1, &[]) }
            }
            1 => {
                // x = a op b, locals
                let (Some(a), Some(b)) = (self.readable(t), self.readable(t)) else {
                    return;
                };
                self.apply(In::LGet(a), 0, &[t]);
                self.apply(In::LGet(b), 0, &[t]);
                let op = match t {
                    VT::I32 => *self.s.pick(&[0x6au8, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78]),
                    VT::I64 => *self.s.pick(&[0x7cu8, 0x7d, 0x7e, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a]),
                    VT::F32 => *self.s.pick(&[0x92u8, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98]),
                    _ => *self.s.pick(&[0xa0u8, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6]),
                };
                self.apply(In::Op(op), 2, &[t]);
                if self.s.bool() { self.apply(In::LSet(x), 1, &[]) } else { self.emit(In::LTee(x)) }
            }
            2 => {
                // x = a op k (constant on either side)
                let Some(a) = self.readable(t) else { return };
                let v = value(self.s, t);
                if self.s.chance(2, 3) {
                    self.apply(In::LGet(a), 0, &[t]);
                    self.apply(konst(t, v), 0, &[t]);
                } else {
                    self.apply(konst(t, v), 0, &[t]);
                    self.apply(In::LGet(a), 0, &[t]);
                }
                let op = match t {
                    VT::I32 => *self.s.pick(&[0x6au8, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78]),
                    VT::I64 => *self.s.pick(&[0x7cu8, 0x7d, 0x7e, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a]),
                    VT::F32 => *self.s.pick(&[0x92u8, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98]),
                    _ => *self.s.pick(&[0xa0u8, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6]),
                };
                self.apply(In::Op(op), 2, &[t]);
                match self.s.below(4) {
                    0 => self.emit(In::LTee(x)),
                    1 => {
                        self.emit(In::LTee(x));
                        self.apply(DROP, 1, &[]);
                    }
                    2 => self.apply(In::LSet(x), 1, &[]),
                    _ => {}
                }
            }
            3 => {
                // shift pair used for sign extension
                if !matches!(t, VT::I32 | VT::I64) {
                    return;
                }
                let k = *self.s.pick(&[8u64, 16, 24, 32, 48, 56, 1]);
                self.apply(In::LGet(x), 0, &[t]);
                self.apply(Self::k(t, k), 0, &[t]);
                self.apply(In::Op(if t == VT::I32 { 0x74 } else { 0x86 }), 2, &[t]);
                self.apply(Self::k(t, k), 0, &[t]);
                self.apply(In::Op(if t == VT::I32 { 0x75 } else { 0x87 }), 2, &[t]);
            }
            4 => {
                // copy
                let Some(a) = self.readable(t) else { return };
                self.apply(In::LGet(a), 0, &[t]);
                self.apply(In::LSet(x), 1, &[]);
            }
            5 => {
                let v = value(self.s, t);
                self.apply(konst(t, v), 0, &[t]);
                self.apply(In::LSet(x), 1, &[]);
            }
            6 => {
                // acc += a * b
                self.expr(t, d);
                self.expr(t, d);
                self.apply(In::Op(mul), 2, &[t]);
                self.apply(In::LGet(x), 0, &[t]);
                self.apply(In::Op(add), 2, &[t]);
                self.apply(In::LSet(x), 1, &[]);
            }
            7 => {
                // three-operand add
                self.operands(&[t, t, t], d);
                self.apply(In::Op(add), 2, &[t]);
                self.apply(In::Op(add), 2, &[t]);
            }
            8 => {
                // const and / sub into tee
                self.expr(t, d);
                let v = value(self.s, t);
                self.apply(konst(t, v), 0, &[t]);
                let op = match t {
                    VT::I32 => *self.s.pick(&[0x71u8, 0x6b]),
                    VT::I64 => *self.s.pick(&[0x83u8, 0x7d]),
                    _ => sub,
                };
                self.apply(In::Op(op), 2, &[t]);
                self.emit(In::LTee(x));
            }
            9 => {
                // stack op global
                let c: Vec<u32> = self.globs.iter().enumerate().filter(|g| g.1.t == t).map(|g| g.0 as u32).collect();
                if c.is_empty() {
                    return;
                }
                let g = *self.s.pick(&c);
                self.expr(t, d);
                self.apply(In::GGet(g), 0, &[t]);
                let op = match t {
                    VT::I32 => 0x6a + *self.s.pick(&[0u8, 1, 2, 7, 8, 9, 10, 11, 12, 13, 14]),
                    VT::I64 => 0x7c + *self.s.pick(&[0u8, 1, 2, 7, 8, 9, 10, 11, 12, 13, 14]),
                    _ => sub,
                };
                self.apply(In::Op(op), 2, &[t]);
            }
            10 => {
                // memory increment through a pointer local
                let c = self.ptrs.clone();
                if c.is_empty() || self.p.mem == 0 {
                    return;
                }
                let (mem, l) = *self.s.pick(&c);
                if self.size_of(mem as usize) < 64 {
                    return;
                }
                let it = self.ity(mem as usize);
                let ma = MA { align: 0, off: self.s.below(9), mem };
                let mb = if self.s.chance(1, 4) { MA { align: 0, off: self.s.below(9), mem } } else { ma };
                self.apply(In::LGet(l), 0, &[it]);
                self.apply(In::LGet(l), 0, &[it]);
                self.apply(In::Mem(ld, ma), 1, &[t]);
                let v = if self.s.chance(3, 4) { crate::model::default_of(t) } else { value(self.s, t) };
                let k = match (t, v.b) {
                    (VT::I32, 0) => In::I32(1),
                    (VT::I64, 0) => In::I64(1),
                    _ => konst(t, v),
                };
                self.apply(k, 0, &[t]);
                self.apply(In::Op(add), 2, &[t]);
                self.apply(In::Mem(stt, mb), 2, &[]);
            }
            11 => {
                // addr; a; b; c; mul; add; store
                let Some(mem) = self.pick_mem() else { return };
                let ma = self.addr(mem, 8, d);
                let mut ma = ma;
                ma.align = ma.align.min(2);
                self.expr(t, d);
                self.expr(t, d);
                self.expr(t, d);
                self.apply(In::Op(mul), 2, &[t]);
                self.apply(In::Op(add), 2, &[t]);
                self.apply(In::Mem(stt, ma), 2, &[]);
            }
            12 => {
                // store local through local, load local through local into local
                let c = self.ptrs.clone();
                if c.is_empty() || self.p.mem == 0 {
                    return;
                }
                let (mem, l) = *self.s.pick(&c);
                if self.size_of(mem as usize) < 64 {
                    return;
                }
                let it = self.ity(mem as usize);
                let ma = MA { align: 0, off: self.s.below(9), mem };
                if self.s.bool() {
                    let Some(v) = self.readable(t) else { return };
                    self.apply(In::LGet(l), 0, &[it]);
                    self.apply(In::LGet(v), 0, &[t]);
                    self.apply(In::Mem(stt, ma), 2, &[]);
                } else {
                    let op = if t == VT::I32 { *self.s.pick(&[0x28u8, 0x2c, 0x2d, 0x2e, 0x2f]) } else { ld };
                    self.apply(In::LGet(l), 0, &[it]);
                    self.apply(In::Mem(op, ma), 1, &[t]);
                    if self.s.bool() { self.apply(In::LSet(x), 1, &[]) } else { self.emit(In::LTee(x)) }
                }
            }
            _ => {
                // vector forms
                if self.p.simd == 0 {
                    return;
                }
                let v = VT::V128;
                let Some(x) = self.writable(v) else { return };
                let (Some(a), Some(b)) = (self.readable(v), self.readable(v)) else {
                    return;
                };
                if self.s.chance(1, 4) {
                    let c = self.ptrs.clone();
                    if c.is_empty() || self.p.mem == 0 {
                        return;
                    }
                    let (mem, l) = *self.s.pick(&c);
                    if self.size_of(mem as usize) < 64 {
                        return;
                    }
                    let it = self.ity(mem as usize);
                    let ma = MA { align: 0, off: 0, mem };
                    self.apply(In::LGet(l), 0, &[it]);
                    if self.s.bool() {
                        self.apply(In::LGet(a), 0, &[v]);
                        self.apply(In::SimdMem(0x0b, ma), 2, &[]);
                    } else {
                        self.apply(In::SimdMem(0, ma), 1, &[v]);
                        if self.s.bool() { self.apply(In::LSet(x), 1, &[]) } else { self.emit(In::LTee(x)) }
                    }
                    return;
                }
                let op = *self.s.pick(&[0x4eu32, 0x4f, 0x50, 0x51, 0xce, 0xd5]);
                let k = v128b(self.s);
                match self.s.below(3) {
                    0 => {
                        self.apply(In::LGet(a), 0, &[v]);
                        self.apply(In::LGet(b), 0, &[v]);
                    }
                    1 => {
                        self.apply(In::LGet(a), 0, &[v]);
                        self.apply(In::V128(k), 0, &[v]);
                    }
                    _ => {
                        self.apply(In::V128(k), 0, &[v]);
                        self.apply(In::LGet(a), 0, &[v]);
                    }
                }
                self.apply(In::Simd(op), 2, &[v]);
                match self.s.below(3) {
                    0 => self.apply(In::LSet(x), 1, &[]),
                    1 => self.emit(In::LTee(x)),
                    _ => {}
                }
            }
        }
    }
}

/// What becomes of a loaded value: a local, a result, or nothing.
fn probe_sink(s: &mut Src, r: VT, base: u32, locals: &mut Vec<VT>, res: &mut Vec<VT>, b: &mut Vec<In>) {
    match s.below(6) {
        0 => res.push(r),
        1 => b.push(DROP),
        2 => {
            locals.push(r);
            b.extend([In::LSet(base), In::LGet(base)]);
            res.push(r);
        }
        3 => {
            locals.push(r);
            b.push(In::LTee(base));
            res.push(r);
        }
        _ => {
            // set, then something else
            locals.extend([r, VT::I32, VT::I32]);
            b.extend([In::LSet(base), In::LGet(base + 1), In::LSet(base + 2), In::LGet(base)]);
            res.push(r);
        }
    }
}

/// Append a function made of one or two memory instructions (so that a module may use its memory in just one place).
pub fn memory_probe(s: &mut Src, made: &mut Made) {
    let m = &mut made.m;
    let mems = m.all_mems();
    if mems.is_empty() {
        return;
    }
    let k = s.usize(mems.len());
    let t = mems[k];
    let it = if t.m64 { VT::I64 } else { VT::I32 };
    let c = |v: u64| if t.m64 { In::I64(v) } else { In::I32(v as u32) };
    let len = t.min * t.page_size();
    let mut params = vec![];
    let mut locals = vec![];
    let mut res = vec![];
    let mut b = vec![];
    let addr = |s: &mut Src| match s.below(4) {
        0 => len.saturating_sub(s.below(20)),
        1 => s.below(70000),
        _ => s.below(len.max(1)),
    };
    let a = addr(s);
    let ma = |s: &mut Src, al: u32| MA { align: s.below(al as u64 + 1) as u32, off: s.below(9), mem: k as u32 };
    match s.below(15) {
        0 => {
            b.push(In::MSize(k as u32));
            res.push(it);
        }
        1 | 11 | 12 => {
            let op = s.range(0x28, 0x35) as u8;
            let (r, al) = match op {
                0x28 => (VT::I32, 2),
                0x29 => (VT::I64, 3),
                0x2a => (VT::F32, 2),
                0x2b => (VT::F64, 3),
                0x2c | 0x2d => (VT::I32, 0),
                0x2e | 0x2f => (VT::I32, 1),
                0x30 | 0x31 => (VT::I64, 0),
                0x32 | 0x33 => (VT::I64, 1),
                _ => (VT::I64, 2),
            };
            if s.chance(2, 3) {
                params.push(it);
                b.push(In::LGet(0));
            } else {
                b.push(c(a));
            }
            let x = ma(s, al);
            b.push(In::Mem(op, x));
            probe_sink(s, r, params.len() as u32, &mut locals, &mut res, &mut b);
        }
        2 => {
            let (op, v, al) = match s.range(0x36, 0x3e) as u8 {
                o @ 0x36 => (o, VT::I32, 2),
                o @ 0x37 => (o, VT::I64, 3),
                o @ 0x38 => (o, VT::F32, 2),
                o @ 0x39 => (o, VT::F64, 3),
                o @ 0x3a => (o, VT::I32, 0),
                o @ 0x3b => (o, VT::I32, 1),
                o => (o, VT::I64, o as u32 - 0x3c),
            };
            if s.bool() {
                params.push(it);
                b.push(In::LGet(0));
            } else {
                b.push(c(a));
            }
            if s.bool() {
                b.push(In::LGet(params.len() as u32));
                params.push(v);
            } else {
                let x = value(s, v);
                b.push(konst(v, x));
            }
            let x = ma(s, al);
            b.push(In::Mem(op, x));
        }
        3 => {
            b.push(c(s.below(3)));
            b.push(In::MGrow(k as u32));
            res.push(it);
        }
        4 => {
            b.extend([c(a), In::I32(s.u32() & 255), c(s.below(40)), In::MFill(k as u32)]);
        }
        5 => {
            let j = s.usize(mems.len());
            let u = mems[j];
            let cj = |v: u64| if u.m64 { In::I64(v) } else { In::I32(v as u32) };
            let n = if t.m64 && u.m64 { In::I64(s.below(40)) } else { In::I32(s.below(40) as u32) };
            b.extend([c(a), cj(s.below(60)), n, In::MCopy { d: k as u32, s: j as u32 }]);
        }
        6 | 7 => {
            if m.datas.is_empty() {
                b.push(In::MSize(k as u32));
                res.push(it);
            } else {
                m.data_count = true;
                let d = s.usize(m.datas.len()) as u32;
                if s.chance(1, 4) {
                    b.push(In::DataDrop(d));
                } else {
                    b.extend([c(a), In::I32(s.below(4) as u32), In::I32(s.below(8) as u32), In::MInit { data: d, mem: k as u32 }]);
                }
            }
        }
        8 => {
            if s.bool() {
                params.push(it);
                b.push(In::LGet(0));
            } else {
                b.push(c(a));
            }
            let o = *s.pick(&[0u32, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x5c, 0x5d]);
            let x = ma(s, 0);
            b.push(In::SimdMem(o, x));
            probe_sink(s, VT::V128, params.len() as u32, &mut locals, &mut res, &mut b);
        }
        9 => {
            b.push(c(a));
            let x = value(s, VT::V128);
            b.push(konst(VT::V128, x));
            let x = ma(s, 4);
            b.push(In::SimdMem(0x0b, x));
        }
        10 => {
            b.push(c(a));
            let x = value(s, VT::V128);
            b.push(konst(VT::V128, x));
            let o = s.range(0x54, 0x5b) as u32;
            let l = s.below(16 >> ((o - 0x54) & 3)) as u8;
            let x = ma(s, 0);
            b.push(In::SimdMemLane(o, x, l));
            if o < 0x58 {
                res.push(VT::V128);
            }
        }
        13 => {
            // addr, c, a * b, +, store: fused multiply-add
            let f64 = s.bool();
            let t = if f64 { VT::F64 } else { VT::F32 };
            params.extend([it, t, t, t]);
            b.extend([In::LGet(0), In::LGet(1), In::LGet(2), In::LGet(3)]);
            let x = ma(s, 0);
            let (mul, add, st) = if f64 { (0xa2, 0xa0, 0x39) } else { (0x94, 0x92, 0x38) };
            b.extend([In::Op(mul), In::Op(add), In::Mem(st, x)]);
        }
        _ => {
            // load, add, store: fused read-modify-write
            let x = MA { align: 2, off: s.below(9) * 4, mem: k as u32 };
            params.push(it);
            if s.bool() {
                b.extend([In::LGet(0), In::LGet(0), In::Mem(0x28, x), In::I32(s.u32() & 7), In::Op(0x6a), In::Mem(0x36, x)]);
            } else {
                b.extend([In::LGet(0), In::LGet(0), In::Mem(0x29, x), In::I64(s.u64() & 7), In::Op(0x7c), In::Mem(0x37, x)]);
            }
        }
    }
    let ty = m.ty(FT { p: params, r: res });
    m.funcs.push(Func { ty, locals, body: b });
    let i = m.n_funcs() - 1;
    m.export(format!("f{i}"), Kind::Func, i);
}

/// Enlarge the code section beyond `bytes` with code that is validated but never runs.
pub fn pad_code(s: &mut Src, m: &mut Module, bytes: u64) {
    let n = m.funcs.len() as u64;
    let each = bytes / n / 12 + 1;
    for i in 0..m.funcs.len() {
        let mut pad = vec![In::Br(0)];
        let k = match s.below(4) {
            0 => each / 4,
            1 => each * 3,
            _ => each + s.below(8),
        };
        for _ in 0..k {
            pad.push(In::I64(s.u64() | 1 << 63));
            pad.push(DROP);
        }
        m.funcs[i].body.insert(0, In::Block(BT::Empty, pad));
    }
}
