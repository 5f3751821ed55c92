//! Calls across instances.
//!
//! A few small modules whose functions hand a counter and an accumulator to each other, directly, through
//! imports, through one shared table, by tail calls and through host functions. Modules are instantiated more
//! than once, so that the same code runs for different owners. Every function keeps values in locals and below
//! the arguments on the stack across its calls and folds them, its instance's global and its instance's memory
//! into the accumulator, so running a function with the wrong owner, the wrong locals or a shifted stack changes
//! the outcome.

use crate::ir::*;
use crate::model::{Ext, HAct, HV, HostBeh};
use crate::modgen::{konst, value};
use crate::runner::{Cx, R};
use crate::tape::Src;
use crate::tw::Variant;
use crate::val::*;
use crate::world::{Nontrivial, Plan, World, finish};

#[derive(Clone, Copy)]
pub struct Mix {
    /// weights of calls and tail calls
    pub call: u32,
    pub tail: u32,
    /// host functions, at most
    pub hosts: u64,
    /// per mille
    pub trap: u64,
    /// loops that make a call take more than one slice
    pub spin: u64,
    /// start and drop executions now and then
    pub drops: bool,
}

impl Default for Mix {
    fn default() -> Self {
        Mix { call: 3, tail: 1, hosts: 2, trap: 60, spin: 0, drops: false }
    }
}

struct Pool {
    tys: Vec<FT>,
    slots: u64,
    tab: usize,
    /// functions with up to a few hundred parameters, results and locals
    wide: bool,
}

/// A few types over and over.
fn many(s: &mut Src, from: &[VT]) -> Vec<VT> {
    let n = *s.pick(&[12usize, 33, 70, 130, 256, 300]);
    let n = n + s.usize(5);
    let k = s.range(1, 3);
    let pat: Vec<VT> = (0..k).map(|_| *s.pick(from)).collect();
    // the stack of vectors has 4096 places for all frames together
    let v = pat.iter().filter(|t| **t == VT::V128).count();
    let n = if v > 0 { n.min(60 * pat.len() / v) } else { n };
    pat.into_iter().cycle().take(n).collect()
}

fn fuel_at(t: &FT) -> u32 {
    t.p.iter().position(|x| *x == VT::I32).unwrap() as u32
}
fn acc_at(t: &FT) -> u32 {
    t.p.iter().position(|x| *x == VT::I64).unwrap() as u32
}

fn some_type(s: &mut Src, res: &[Vec<VT>], wide: bool) -> FT {
    let mut p = vec![VT::I32, VT::I64];
    if s.bool() {
        p.swap(0, 1);
    }
    if wide && s.chance(1, 3) {
        p.extend(many(s, &[VT::I32, VT::I64, VT::F64, VT::V128, VT::F32]));
    }
    for _ in 0..*s.pick(&[0u64, 0, 1, 2, 4]) {
        let t = *s.pick(&[VT::F64, VT::V128, VT::F32, VT::I64, VT::I32, VT::Func]);
        // further integers go behind the two that matter
        let lo = if matches!(t, VT::I32 | VT::I64) { p.len() } else { s.usize(p.len() + 1) };
        p.insert(lo, t);
    }
    FT { p, r: s.pick(res).clone() }
}

struct Gen<'a> {
    s: &'a mut Src,
    m: Module,
    pool: &'a Pool,
    mix: Mix,
    fimp: u32,
    nf: u32,
    own_tab: Option<u32>,
    mem: bool,
    hglob: Option<u32>,
}

struct Fx {
    ft: FT,
    fuel: u32,
    acc: u32,
    /// a local that is zero between its uses
    counter: u32,
    /// locals to keep values in, by type
    keep: Vec<(u32, VT)>,
}

impl Gen<'_> {
    /// A value of type `t` from what the function has.
    fn any(&mut self, f: &Fx, t: VT, b: &mut Vec<In>) {
        let mut c: Vec<u32> = f.keep.iter().filter(|k| k.1 == t).map(|k| k.0).collect();
        c.extend(f.ft.p.iter().enumerate().filter(|x| *x.1 == t && t != VT::I32).map(|x| x.0 as u32));
        if !c.is_empty() && self.s.chance(3, 4) {
            b.push(In::LGet(*self.s.pick(&c)));
            return;
        }
        match t {
            VT::Func if self.s.bool() => b.push(In::RefFunc(self.fimp + self.s.below(self.nf as u64) as u32)),
            VT::Func => b.push(In::RefNull(VT::Func)),
            VT::F64 if self.s.bool() => b.extend([In::LGet(f.acc), In::Op(0xb9)]),
            VT::F32 if self.s.bool() => b.extend([In::LGet(f.acc), In::Op(0xb4)]),
            VT::V128 if self.s.bool() => b.extend([In::LGet(f.acc), In::Simd(0x12)]),
            _ => {
                let v = match t {
                    VT::F32 => Val { b: (self.s.below(1000) as f32).to_bits() as u128, t: 0 },
                    VT::F64 => Val { b: (self.s.below(1000) as f64).to_bits() as u128, t: 0 },
                    VT::I32 => i32v(self.s.u32()),
                    VT::I64 => i64v(self.s.u64()),
                    _ => v128v(self.s.u64() as u128 * 0x1_0000_0001_0000_0001),
                };
                b.push(konst(t, v))
            }
        }
    }

    /// [.. t] -> [..], mixing the value into the accumulator.
    fn fold(&mut self, f: &Fx, t: VT, b: &mut Vec<In>) {
        match t {
            VT::I32 => b.push(In::Op(if self.s.bool() { 0xac } else { 0xad })),
            VT::I64 => {}
            VT::F32 => b.extend([In::Op(0xbc), In::Op(0xad)]),
            VT::F64 => b.push(In::Op(0xbd)),
            VT::V128 => b.push(In::SimdLane(0x1d, self.s.below(2) as u8)),
            _ => b.extend([REF_IS_NULL, In::Op(0xad)]),
        }
        b.extend([In::LGet(f.acc), In::I64(self.s.range(1, 63)), In::Op(0x89), In::Op(*self.s.pick(&[0x85, 0x7c, 0x7d])), In::LSet(f.acc)]);
    }

    fn touch(&mut self, f: &Fx, b: &mut Vec<In>) {
        match self.s.below(7) {
            0 | 1 => {
                b.push(In::GGet(self.m.n_imp(Kind::Glob)));
                self.fold(f, VT::I64, b);
            }
            2 => {
                let g = self.m.n_imp(Kind::Glob);
                b.extend([In::GGet(g), In::LGet(f.acc), In::Op(0x85), In::GSet(g)]);
            }
            3 if self.mem => {
                let o = self.s.below(24);
                b.extend([In::LGet(f.acc), In::Op(0xa7), In::I32(0xff), In::Op(0x71), In::Mem(0x29, MA { align: 0, off: o, mem: 0 })]);
                self.fold(f, VT::I64, b);
            }
            4 if self.mem => {
                let o = self.s.below(24);
                b.extend([
                    In::LGet(f.acc),
                    In::Op(0xa7),
                    In::I32(0xff),
                    In::Op(0x71),
                    In::LGet(f.acc),
                    In::Mem(0x37, MA { align: 0, off: o, mem: 0 }),
                ]);
            }
            5 => {
                if let Some(g) = self.hglob {
                    b.extend([In::GGet(g), In::LGet(f.acc), In::Op(0x7c), In::GSet(g), In::GGet(g)]);
                    self.fold(f, VT::I64, b);
                } else {
                    b.push(In::TSize(self.own_tab.unwrap_or(0)));
                    self.fold(f, VT::I32, b);
                }
            }
            _ => {
                let i = self.s.below(self.pool.slots) as u32;
                let r = self.fimp + self.s.below(self.nf as u64) as u32;
                let t = if self.s.chance(1, 3) { self.own_tab.unwrap_or(0) } else { 0 };
                b.extend([In::I32(i), In::RefFunc(r), In::TSet(t)]);
            }
        }
    }

    /// Choose a callee; `same` restricts it to functions with these results.
    fn callee(&mut self, res: Option<&[VT]>) -> Option<(FT, Option<u32>, u32, bool)> {
        let fits = |t: &FT| res.is_none_or(|r| t.r == r);
        if self.s.bool() {
            let c: Vec<u32> = (0..self.fimp + self.nf).filter(|i| fits(self.m.func_ty(*i))).collect();
            if c.is_empty() {
                return None;
            }
            let i = *self.s.pick(&c);
            Some((self.m.func_ty(i).clone(), Some(i), 0, false))
        } else {
            let c: Vec<&FT> = self.pool.tys.iter().filter(|t| fits(t)).collect();
            if c.is_empty() {
                return None;
            }
            let t = (*self.s.pick(&c)).clone();
            let tab = if self.s.chance(1, 4) { self.own_tab.unwrap_or(0) } else { 0 };
            Some((t, None, tab, self.s.bool()))
        }
    }

    fn call(&mut self, f: &Fx, tail: bool, halve: bool, b: &mut Vec<In>) -> bool {
        let res = f.ft.r.clone();
        let Some((t, direct, tab, dynamic)) = self.callee(if tail { Some(&res) } else { None }) else {
            return false;
        };
        // values that stay below the arguments
        let under: Vec<VT> = (0..self.s.below(3)).map(|_| *self.s.pick(&[VT::I64, VT::I32, VT::V128, VT::F64])).collect();
        for u in &under {
            self.any(f, *u, b);
        }
        for (i, p) in t.p.iter().enumerate() {
            if i as u32 == fuel_at(&t) {
                b.extend([In::LGet(f.fuel), In::I32(1), In::Op(if halve { 0x76 } else { 0x6b })]);
            } else if i as u32 == acc_at(&t) {
                b.push(In::LGet(f.acc));
            } else {
                self.any(f, *p, b);
            }
        }
        let ty = self.m.ty(t.clone());
        match direct {
            Some(i) => b.push(if tail { In::RetCall(i) } else { In::Call(i) }),
            None => {
                if dynamic {
                    b.extend([In::LGet(f.acc), In::Op(0xa7), In::I32(self.pool.slots as u32 - 1), In::Op(0x71)]);
                } else {
                    b.push(In::I32(self.s.below(self.pool.slots) as u32));
                }
                b.push(if tail { In::RetCallInd { ty, tab } } else { In::CallInd { ty, tab } });
            }
        }
        if !tail {
            for r in t.r.iter().rev() {
                self.fold(f, *r, b);
            }
            for u in under.iter().rev() {
                self.fold(f, *u, b);
            }
        }
        true
    }

    /// The results, left in place or carried out of blocks.
    fn leave(&mut self, f: &Fx, b: &mut Vec<In>) {
        if !self.s.chance(1, if self.pool.wide { 2 } else { 6 }) {
            return self.results(f, b);
        }
        let r = f.ft.r.clone();
        if self.s.chance(1, 3) {
            // once or more around a loop
            self.results(f, b);
            let ty = self.m.ty(FT { p: r.clone(), r: r.clone() });
            let mut c = vec![];
            let under = *self.s.pick(&[VT::I64, VT::I32, VT::V128]);
            let n = self.s.below(4) as u32;
            if self.s.bool() {
                // the values below are dropped on the way back
                let mut last = vec![];
                self.any(f, under, &mut last);
                self.results(f, &mut last);
                last.push(In::Br(1));
                for _ in &r {
                    c.push(DROP);
                }
                c.extend([
                    In::LGet(f.counter),
                    In::I32(1),
                    In::Op(0x6a),
                    In::LTee(f.counter),
                    In::I32(n),
                    In::Op(0x49),
                    In::If(BT::Empty, last, None),
                ]);
                self.results(f, &mut c);
            } else {
                c.extend([In::LGet(f.counter), In::I32(1), In::Op(0x6a), In::LTee(f.counter), In::I32(n), In::Op(0x49), In::BrIf(0)]);
            }
            b.push(In::Loop(BT::Ty(ty), c));
            b.extend([In::I32(0), In::LSet(f.counter)]);
            return;
        }
        let ty = self.m.ty(FT { p: vec![], r });
        let mut c = vec![];
        let n = self.s.below(4);
        for _ in 0..n {
            let t = *self.s.pick(&[VT::I64, VT::I32, VT::V128, VT::F64]);
            self.any(f, t, &mut c);
        }
        self.results(f, &mut c);
        match self.s.below(4) {
            0 => c.push(In::Br(0)),
            1 => {
                c.extend([In::LGet(f.acc), In::Op(0xa7), In::I32(1), In::Op(0x71), In::BrIf(0), In::Br(0)]);
            }
            2 => {
                c.extend([In::LGet(f.acc), In::Op(0xa7), In::I32(3), In::Op(0x71), In::BrTable(vec![0, 0, 1], 0)]);
                // out of two blocks at once, or out of one with other values
                let mut o = vec![];
                self.any(f, VT::I64, &mut o);
                o.push(In::Block(BT::Ty(ty), c));
                o.push(In::Br(0));
                c = o;
            }
            _ => {
                c.push(In::Br(1));
                let mut o = vec![];
                self.any(f, VT::V128, &mut o);
                o.extend([In::Block(BT::Empty, c), UNREACHABLE]);
                c = o;
            }
        }
        b.push(In::Block(BT::Ty(ty), c));
    }

    fn results(&mut self, f: &Fx, b: &mut Vec<In>) {
        for r in f.ft.r.clone() {
            if r == VT::I64 {
                b.push(In::LGet(f.acc));
            } else {
                self.any(f, r, b);
            }
        }
    }

    fn func(&mut self, t: FT) -> Func {
        let np = t.p.len() as u32;
        let n = self.s.below(5);
        let mut locals: Vec<VT> = (0..n).map(|_| *self.s.pick(&[VT::I64, VT::V128, VT::F64, VT::I32, VT::F32, VT::Func])).collect();
        if self.pool.wide && self.s.bool() {
            locals.extend(many(self.s, &[VT::I32, VT::I64, VT::F64, VT::V128, VT::F32, VT::Func]));
        }
        let spin = self.s.chance(self.mix.spin, 10);
        let mut keep: Vec<(u32, VT)> = locals.iter().enumerate().map(|(i, t)| (np + i as u32, *t)).collect();
        let mut f = Fx { fuel: fuel_at(&t), acc: acc_at(&t), counter: np + locals.len() as u32, ft: t.clone(), keep: vec![] };
        std::mem::swap(&mut f.keep, &mut keep);
        let mut all = locals;
        let counter = np + all.len() as u32;
        all.push(VT::I32);
        let mut b = vec![];
        for _ in 0..self.s.below(3) {
            self.touch(&f, &mut b);
        }
        // fill the locals
        for (l, t) in f.keep.clone() {
            if self.s.chance(3, 4) {
                self.any(&f, t, &mut b);
                b.push(In::LSet(l));
            }
        }
        if spin {
            let n = self.s.range(2, 60) as u32;
            let mut body = vec![];
            self.touch(&f, &mut body);
            body.extend([In::LGet(counter), In::I32(1), In::Op(0x6a), In::LTee(counter), In::I32(n), In::Op(0x49), In::BrIf(0)]);
            b.push(In::Loop(BT::Empty, body));
            b.extend([In::I32(0), In::LSet(counter)]);
        }
        let mut fin = vec![];
        self.leave(&f, &mut fin);
        fin.push(RETURN);
        b.extend([In::LGet(f.fuel), In::Op(0x45), In::If(BT::Empty, fin, None)]);
        if self.s.chance(self.mix.trap, 1000) {
            let k = self.s.below(16);
            let t = match self.s.below(3) {
                0 => vec![UNREACHABLE],
                1 => vec![In::I64(1), In::I64(0), In::Op(0x7f), DROP],
                _ => vec![In::I32(u32::MAX), In::TGet(0), DROP],
            };
            b.extend([In::LGet(f.acc), In::I64(15), In::Op(0x83), In::I64(k), In::Op(0x51), In::If(BT::Empty, t, None)]);
        }
        let calls = self.s.below(if self.mix.call > 0 { 3 } else { 1 });
        let tail = self.s.chance(self.mix.tail as u64, (self.mix.call + self.mix.tail) as u64);
        let rounds = if calls == 1 && self.s.chance(1, 5) { self.s.range(2, 3) } else { 1 };
        let halve = calls * rounds + tail as u64 > 1;
        let mut c = vec![];
        for _ in 0..calls {
            self.call(&f, false, halve, &mut c);
            if self.s.bool() {
                self.touch(&f, &mut c);
            }
        }
        if rounds > 1 {
            c.extend([In::LGet(counter), In::I32(1), In::Op(0x6a), In::LTee(counter), In::I32(rounds as u32), In::Op(0x49), In::BrIf(0)]);
            b.push(In::Loop(BT::Empty, c));
            b.extend([In::I32(0), In::LSet(counter)]);
        } else if self.s.chance(1, 3) {
            b.push(In::Block(BT::Empty, c));
        } else {
            b.extend(c);
        }
        // what the parameters and locals hold now
        if self.pool.wide {
            for (i, t) in f.ft.p.clone().into_iter().enumerate() {
                if ![f.fuel, f.acc].contains(&(i as u32)) && self.s.chance(1, 3) {
                    b.push(In::LGet(i as u32));
                    self.fold(&f, t, &mut b);
                }
            }
        }
        for (l, t) in f.keep.clone() {
            if self.s.chance(2, 3) {
                b.push(In::LGet(l));
                self.fold(&f, t, &mut b);
            }
        }
        if !(tail && self.call(&f, true, halve, &mut b)) {
            self.leave(&f, &mut b);
        }
        Func { ty: self.m.ty(t), locals: all, body: b }
    }
}

fn module(s: &mut Src, w: &World, pool: &Pool, mix: Mix) -> (Module, Vec<Ext>) {
    let mut m = Module::default();
    let mut imports = vec![];
    let tt = TabTy { min: pool.slots, ..w.ms.tabs[pool.tab].ty };
    m.imports.push(Import { module: "env".into(), name: "t".into(), desc: Desc::Tab(tt) });
    imports.push(Ext::Tab(pool.tab));
    let mut hglob = None;
    for a in &w.avail {
        match a.ext {
            Ext::Func(x) if pool.tys.contains(&w.ms.funcs[x].ty) && s.chance(1, 2) => {
                let ty = m.ty(w.ms.funcs[x].ty.clone());
                m.imports.push(Import { module: "env".into(), name: format!("f{x}"), desc: Desc::Func(ty) });
                imports.push(a.ext);
            }
            Ext::Glob(x) if hglob.is_none() && w.ms.globs[x].ty == (GlobTy { t: VT::I64, m: true }) && s.chance(1, 3) => {
                m.imports.push(Import { module: "env".into(), name: format!("g{x}"), desc: Desc::Glob(w.ms.globs[x].ty) });
                imports.push(a.ext);
                hglob = Some(0);
            }
            _ => {}
        }
    }
    let fimp = m.n_imp(Kind::Func);
    let nf = s.range(1, 3) as u32;
    let tys: Vec<FT> = (0..nf).map(|_| s.pick(&pool.tys).clone()).collect();
    let own = s.chance(1, 4);
    if own {
        m.tables.push((TabTy { t64: false, el: VT::Func, min: pool.slots, max: None }, None));
    }
    let mem = s.chance(1, 3);
    if mem {
        m.mems.push(if s.bool() {
            MemTy { m64: false, min: 1, max: None, page: None }
        } else {
            MemTy { m64: false, min: 512, max: Some(512), page: Some(0) }
        });
        m.export("m", Kind::Mem, 0);
        if s.bool() {
            m.datas.push(Data { active: Some((0, vec![In::I32(s.below(64) as u32)])), bytes: (0..s.below(40)).map(|_| s.u32() as u8).collect() });
        }
    }
    m.globals.push((GlobTy { t: VT::I64, m: true }, vec![In::I64(s.u64() & 0xffff)]));
    m.export("g", Kind::Glob, m.n_imp(Kind::Glob));
    // placeholders, so that the types are known before the bodies are written
    for t in &tys {
        let ty = m.ty(t.clone());
        m.funcs.push(Func { ty, locals: vec![], body: vec![] });
    }
    for i in 0..nf {
        m.export(format!("f{i}"), Kind::Func, fimp + i);
    }
    let n = s.below(3);
    for _ in 0..n {
        let k = s.range(1, pool.slots);
        let off = s.below(pool.slots - k + 1) as u32;
        let items = (0..k).map(|_| if s.chance(1, 4) { s.below((fimp + nf) as u64) as u32 } else { fimp + s.below(nf as u64) as u32 }).collect();
        let tab = if own && s.bool() { 1 } else { 0 };
        m.elems.push(Elem { mode: ElemMode::Active { tab, off: vec![In::I32(off)] }, items: ElemItems::Funcs(items) });
    }
    m.elems.push(Elem { mode: ElemMode::Declared, items: ElemItems::Funcs((fimp..fimp + nf).collect()) });
    let mut g = Gen { s, m, pool, mix, fimp, nf, own_tab: own.then_some(1), mem, hglob };
    for (i, t) in tys.into_iter().enumerate() {
        let f = g.func(t);
        g.m.funcs[i] = f;
    }
    (g.m, imports)
}

fn host(s: &mut Src, w: &mut World, pool: &Pool, mix: Mix, id: u32) {
    let t = s.pick(&pool.tys).clone();
    let mut b = HostBeh { id, ..Default::default() };
    let mut last: Vec<VT> = vec![];
    let src = |s: &mut Src, want: VT| -> HV {
        let c: Vec<usize> = t.p.iter().enumerate().filter(|x| *x.1 == want).map(|x| x.0).collect();
        if !c.is_empty() { HV::Param(*s.pick(&c)) } else { HV::Const(if want == VT::Func { Val::default() } else { plain(s, want) }) }
    };
    let known = |x: &usize| w.tw.h.borrow().to_addr.contains_key(x);
    let guests: Vec<usize> = w
        .avail
        .iter()
        .filter_map(|a| if let Ext::Func(x) = a.ext { Some(x) } else { None })
        .filter(|x| matches!(&*w.ms.funcs[*x].code, crate::model::Code::Wasm { .. }))
        .collect();
    if !guests.is_empty() && s.chance(2, 3) {
        let f = *s.pick(&guests);
        let ft = w.ms.funcs[f].ty.clone();
        if pool.tys.contains(&ft) {
            let args =
                ft.p.iter()
                    .enumerate()
                    .map(|(i, p)| match i as u32 {
                        x if x == fuel_at(&ft) => HV::Param(fuel_at(&t) as usize),
                        x if x == acc_at(&ft) => HV::Param(acc_at(&t) as usize),
                        _ => src(s, *p),
                    })
                    .collect();
            b.acts.push(HAct::Call(f, args));
            last = ft.r.clone();
        }
    }
    let put: Vec<usize> = guests.iter().copied().filter(known).collect();
    if s.chance(1, 4) && !put.is_empty() {
        let i = s.below(pool.slots);
        let f = *s.pick(&put);
        b.acts.push(HAct::TabSet(pool.tab, i, HV::Const(i64v(f as u64 + 1))));
    }
    if s.chance(mix.trap, 1000) {
        b.acts.push(HAct::FailIfOdd(fuel_at(&t) as usize, id * 10 + 1));
    }
    for r in &t.r {
        let c: Vec<usize> = last.iter().enumerate().filter(|x| x.1 == r).map(|x| x.0).collect();
        let v = if !c.is_empty() && s.chance(2, 3) { HV::Res(*s.pick(&c)) } else { src(s, *r) };
        b.ret.push(v);
    }
    w.add_host_of(t, b);
}

fn plain(s: &mut Src, t: VT) -> Val {
    match t {
        VT::F32 => Val { b: (s.below(1000) as f32).to_bits() as u128, t: 0 },
        VT::F64 => Val { b: (s.below(1000) as f64).to_bits() as u128, t: 0 },
        VT::Func => Val::default(),
        _ => value(s, t),
    }
}

/// Build the instances and make calls.
pub fn history(prop: &'static str, mix: Mix, v: Variant, s: &mut Src, cx: &mut Cx, max_steps: Option<u64>) -> (World, R) {
    let mut w = World::new(prop, Plan { host_calls: true, ..Plan::default() }, v);
    let r = run(&mut w, mix, s, cx, max_steps);
    (w, r)
}

fn run(w: &mut World, mix: Mix, s: &mut Src, cx: &mut Cx, max_steps: Option<u64>) -> R {
    let mut res: Vec<Vec<VT>> = vec![vec![VT::I64]];
    if s.bool() {
        res.push(s.pick(&[vec![], vec![VT::I64, VT::I32], vec![VT::V128, VT::I64], vec![VT::I64, VT::I64, VT::F64]]).clone());
    }
    let wide = s.chance(1, 12);
    if wide {
        cx.label("hundreds of parameters, results or locals");
        if s.bool() {
            let mut r = many(s, &[VT::I32, VT::I64, VT::F64, VT::V128, VT::F32]);
            r.push(VT::I64);
            res.push(r);
        }
    }
    let n = s.range(1, 4);
    let tys = (0..n).map(|_| some_type(s, &res, wide)).collect();
    let slots = *s.pick(&[2u64, 4, 8]);
    let tt = TabTy { t64: false, el: VT::Func, min: slots, max: None };
    let tab = w.ms.add_tab(tt, Val::default());
    w.note(format!("host table {tab} of {slots} null references"));
    if let Err(e) = w.tw.add_tab(tab, &tt, Val::default()) {
        return w.bad("host table creation", e.to_string());
    }
    let pool = Pool { tys, slots, tab, wide };
    if s.chance(1, 3) {
        let t = GlobTy { t: VT::I64, m: true };
        let v = i64v(s.below(100));
        let a = w.ms.add_glob(t, v);
        w.note(format!("host global {a}"));
        if let Err(e) = w.tw.add_glob(a, &t, v) {
            return w.bad("host global creation", e.to_string());
        }
        w.avail.push(crate::modgen::Avail { ext: Ext::Glob(a), desc: crate::modgen::AvDesc::Glob(t) });
    }
    let mut hosts = 0;
    let steps = s.range(5, 16);
    for k in 0..steps {
        if max_steps.is_some_and(|m| w.steps_done >= m) {
            break;
        }
        let wi = if w.loaded.len() < 3 { 2 } else { 0 };
        let wa = if w.loaded.is_empty() || w.live.len() > 5 { 0 } else { 2 };
        let what = if k == 0 { 0 } else { s.weighted(&[wi, wa, if hosts < mix.hosts { 2 } else { 0 }, 2, 8]) };
        match what {
            0 => {
                let (mut m, imports) = module(s, w, &pool, mix);
                if s.chance(w.plan.prof.stretch as u64, 1000) {
                    crate::stretch::stretch(s, &mut m, None, false);
                }
                w.inst(cx, m, imports, 0)?;
            }
            1 => {
                let li = s.usize(w.loaded.len());
                cx.label("modules instantiated again");
                w.instantiate(cx, li)?;
            }
            2 => {
                hosts += 1;
                host(s, w, &pool, mix, hosts as u32);
            }
            3 => {
                let f: Vec<usize> = w.avail.iter().filter_map(|a| if let Ext::Func(x) = a.ext { Some(x) } else { None }).collect();
                let f: Vec<usize> = f.into_iter().filter(|x| w.tw.h.borrow().to_addr.contains_key(x)).collect();
                if f.is_empty() {
                    continue;
                }
                let i = s.below(slots);
                let f = *s.pick(&f);
                w.tab_put(tab, i, i64v(f as u64 + 1))?;
            }
            _ => {
                let f: Vec<usize> = w.avail.iter().filter_map(|a| if let Ext::Func(x) = a.ext { Some(x) } else { None }).collect();
                let f: Vec<usize> =
                    f.into_iter().filter(|x| w.tw.has_func(*x) && matches!(&*w.ms.funcs[*x].code, crate::model::Code::Wasm { .. })).collect();
                if f.is_empty() {
                    continue;
                }
                let a = *s.pick(&f);
                let ft = w.ms.funcs[a].ty.clone();
                let fuel = s.below(9);
                let args: Vec<Val> =
                    ft.p.iter()
                        .enumerate()
                        .map(|(i, p)| {
                            if i as u32 == fuel_at(&ft) {
                                i32v(fuel as u32)
                            } else if i as u32 == acc_at(&ft) {
                                i64v(s.u64() & 0xffff)
                            } else {
                                plain(s, *p)
                            }
                        })
                        .collect();
                w.note(format!(
                    "call function {a} ({})",
                    args.iter().zip(&ft.p).map(|(v, t)| crate::tw::show(*t, *v)).collect::<Vec<_>>().join(", ")
                ));
                if mix.drops && s.chance(1, 6) {
                    w.drop_run(s, cx, a, args)?;
                } else {
                    w.call(cx, a, args)?;
                }
            }
        }
    }
    Ok(())
}

pub fn case(prop: &'static str, mix: Mix, v: Variant, s: &mut Src, cx: &mut Cx, nt: Nontrivial) -> R {
    cx.label("calls across instances");
    let (w, r) = history(prop, mix, v, s, cx, None);
    finish(w, r, s, cx, nt)
}

pub fn diff(prop: &'static str, mix: Mix, v: Variant, base: Variant, s: &mut Src, cx: &mut Cx, nt: Nontrivial) -> R {
    cx.label("calls across instances");
    let start = s.used();
    let (w, r) = history(prop, mix, v, s, cx, None);
    let n = w.steps_done + 1;
    let r = crate::world::against(r, start, s, |s2, cx2| history(prop, mix, base, s2, cx2, Some(n)).1)?;
    finish(w, r, s, cx, nt)
}
