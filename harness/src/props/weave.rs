//! Observations and changes of the same small tables, memories and globals interwoven in one invocation: by instructions of
//! the running function, by functions of the same or of another instance that it calls, and by host functions. Part of E05,
//! E04 and H01; the oracle is the same sequence on plain vectors.

use crate::ir::*;
use crate::runner::{Cx, R, fail, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{Variant, encode};
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::types::{FuncRef, WasmValue};
use tinywasm::{Engine, Error, ExecProgress, FuncContext, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};

/// The functions that tables refer to return their number: 100.. in the first module, 200.. in the second.
const K: u32 = 5;

#[derive(Clone, Debug)]
enum Op {
    Ind(usize, u64),
    IsNull(usize, u64),
    TSize(usize),
    TSet(usize, u64, Option<u32>),
    TFill(usize, u64, u64, Option<u32>),
    TCopy(usize, u64, usize, u64, u64),
    TInit(usize, u64, usize, u64, u64),
    TGrow(usize, u64, Option<u32>),
    ElemDrop(usize),
    MSize(usize),
    Load(usize, u64),
    Store(usize, u64, u8),
    MFill(usize, u64, u64, u8),
    MCopy(usize, u64, usize, u64, u64),
    MInit(usize, u64, usize, u64, u64),
    MGrow(usize, u64),
    DataDrop(usize),
    GGet(usize),
    GSet(usize, i32),
    /// the host does what stands at this place of its list
    Host(usize),
    Helper(usize),
}

/// What the host function does, in terms of the handles it has.
#[derive(Clone, Debug)]
enum HostOp {
    /// copies one element over another one
    TMove(usize, u64, usize, u64),
    TNull(usize, u64),
    TGrow(usize, u64),
    TCopy(usize, u64, u64, u64),
    MGrow(usize, u64),
    MWrite(usize, u64, u8),
    GSet(usize, i32),
    Nothing,
}

#[derive(Clone)]
struct State {
    tabs: Vec<Vec<Option<u32>>>,
    mems: Vec<Vec<u8>>,
    globs: Vec<i32>,
    elems: [Vec<Vec<Option<u32>>>; 2],
    datas: [Vec<Vec<u8>>; 2],
}

struct Plan {
    tabs: Vec<TabTy>,
    mems: Vec<MemTy>,
    hosts: Vec<HostOp>,
    helpers: Vec<Vec<Op>>,
    helper_module: usize,
}

/// A range of two places: most often inside.
fn span(s: &mut Src, len: u64) -> u64 {
    if s.chance(1, 40) { len + s.below(3) } else { s.below(len.max(1)) }
}

fn part(s: &mut Src, rest: u64) -> u64 {
    if s.chance(1, 60) { rest + 1 } else { s.below(rest.min(4) + 1) }
}

impl Plan {
    fn op(&self, s: &mut Src, kinds: (u64, u64), helpers: usize) -> Op {
        let t = s.usize(self.tabs.len());
        let m = s.usize(self.mems.len());
        let (tl, ml) = (self.tabs[t].min, self.mems[m].min);
        let val = |s: &mut Src| if s.chance(1, 12) { None } else { Some(s.below(K as u64) as u32) };
        if s.chance(1, 5) {
            return if helpers > 0 && s.bool() { Op::Helper(s.usize(helpers)) } else { Op::Host(s.usize(self.hosts.len())) };
        }
        let x = s.below(kinds.0 + kinds.1 + 1);
        if x < kinds.0 {
            let i = span(s, tl);
            return match s.below(12) {
                0..=3 => Op::Ind(t, i),
                4 => Op::IsNull(t, i),
                5 => Op::TSize(t),
                6 => Op::TSet(t, i, val(s)),
                7 => Op::TFill(t, i, part(s, tl.saturating_sub(i)), val(s)),
                8 => {
                    let u = s.usize(self.tabs.len());
                    let j = span(s, self.tabs[u].min);
                    Op::TCopy(t, i, u, j, part(s, tl.min(self.tabs[u].min).saturating_sub(i.max(j))))
                }
                9 => {
                    let j = s.below(4);
                    Op::TInit(t, i, s.usize(2), j, part(s, tl.saturating_sub(i).min(4 - j)))
                }
                10 => Op::TGrow(t, s.below(3), val(s)),
                _ if s.chance(1, 4) => Op::ElemDrop(s.usize(2)),
                _ => Op::TSet(t, i, val(s)),
            };
        }
        if x < kinds.0 + kinds.1 {
            let i = span(s, ml);
            return match s.below(12) {
                0..=2 => Op::Load(m, i),
                3 | 4 => Op::MSize(m),
                5 => Op::Store(m, i, s.u32() as u8),
                6 => Op::MFill(m, i, part(s, ml.saturating_sub(i)), s.u32() as u8),
                7 => {
                    let u = s.usize(self.mems.len());
                    let j = span(s, self.mems[u].min);
                    Op::MCopy(m, i, u, j, part(s, ml.min(self.mems[u].min).saturating_sub(i.max(j))))
                }
                8 => {
                    let j = s.below(4);
                    Op::MInit(m, i, s.usize(2), j, part(s, ml.saturating_sub(i).min(4 - j)))
                }
                9 | 10 => Op::MGrow(m, s.below(4)),
                _ if s.chance(1, 4) => Op::DataDrop(s.usize(2)),
                _ => Op::Load(m, i),
            };
        }
        if s.bool() { Op::GGet(s.usize(2)) } else { Op::GSet(s.usize(2), s.below(1000) as i32) }
    }

    fn host_op(&self, s: &mut Src) -> HostOp {
        let t = s.usize(self.tabs.len());
        let m = s.usize(self.mems.len());
        let i = s.below(self.tabs[t].min);
        match s.below(10) {
            0..=2 => {
                let u = s.usize(self.tabs.len());
                HostOp::TMove(t, i, u, s.below(self.tabs[u].min))
            }
            3 => HostOp::TNull(t, i),
            4 => HostOp::TGrow(t, s.below(3)),
            5 => {
                let j = s.below(self.tabs[t].min);
                HostOp::TCopy(t, i, j, s.below(self.tabs[t].min - i.max(j) + 1))
            }
            6 => HostOp::MGrow(m, s.below(4)),
            7 => HostOp::MWrite(m, s.below(self.mems[m].min), s.u32() as u8),
            8 => HostOp::GSet(s.usize(2), s.below(1000) as i32),
            _ => HostOp::Nothing,
        }
    }

    /// The model: None is a trap.
    fn run(&self, ops: &[Op], m: usize, acc: &mut i32, st: &mut State, seen: &mut u32) -> Option<()> {
        let room = |i: u64, n: u64, len: usize| (i + n <= len as u64).then_some(());
        for op in ops {
            let num = |k: Option<u32>| k.map(|k| 100 * (m as u32 + 1) + k);
            let obs = match *op {
                Op::Ind(t, i) => (*st.tabs[t].get(i as usize)?)? as i32,
                Op::IsNull(t, i) => st.tabs[t].get(i as usize)?.is_none() as i32,
                Op::TSize(t) => st.tabs[t].len() as i32,
                Op::TSet(t, i, k) => {
                    *st.tabs[t].get_mut(i as usize)? = num(k);
                    continue;
                }
                Op::TFill(t, i, n, k) => {
                    room(i, n, st.tabs[t].len())?;
                    st.tabs[t][i as usize..(i + n) as usize].fill(num(k));
                    continue;
                }
                Op::TCopy(t, i, u, j, n) => {
                    room(i, n, st.tabs[t].len())?;
                    room(j, n, st.tabs[u].len())?;
                    let x = st.tabs[u][j as usize..(j + n) as usize].to_vec();
                    st.tabs[t][i as usize..(i + n) as usize].copy_from_slice(&x);
                    continue;
                }
                Op::TInit(t, i, g, j, n) => {
                    room(i, n, st.tabs[t].len())?;
                    room(j, n, st.elems[m][g].len())?;
                    let x = st.elems[m][g][j as usize..(j + n) as usize].to_vec();
                    st.tabs[t][i as usize..(i + n) as usize].copy_from_slice(&x);
                    continue;
                }
                Op::TGrow(t, n, k) => {
                    let old = st.tabs[t].len();
                    if old as u64 + n <= self.tabs[t].max.unwrap() {
                        st.tabs[t].resize(old + n as usize, num(k));
                        old as i32
                    } else {
                        -1
                    }
                }
                Op::ElemDrop(g) => {
                    st.elems[m][g].clear();
                    continue;
                }
                Op::MSize(x) => st.mems[x].len() as i32,
                Op::Load(x, i) => *st.mems[x].get(i as usize)? as i32,
                Op::Store(x, i, v) => {
                    *st.mems[x].get_mut(i as usize)? = v;
                    continue;
                }
                Op::MFill(x, i, n, v) => {
                    room(i, n, st.mems[x].len())?;
                    st.mems[x][i as usize..(i + n) as usize].fill(v);
                    continue;
                }
                Op::MCopy(x, i, y, j, n) => {
                    room(i, n, st.mems[x].len())?;
                    room(j, n, st.mems[y].len())?;
                    let b = st.mems[y][j as usize..(j + n) as usize].to_vec();
                    st.mems[x][i as usize..(i + n) as usize].copy_from_slice(&b);
                    continue;
                }
                Op::MInit(x, i, g, j, n) => {
                    room(i, n, st.mems[x].len())?;
                    room(j, n, st.datas[m][g].len())?;
                    let b = st.datas[m][g][j as usize..(j + n) as usize].to_vec();
                    st.mems[x][i as usize..(i + n) as usize].copy_from_slice(&b);
                    continue;
                }
                Op::MGrow(x, n) => {
                    let old = st.mems[x].len();
                    if old as u64 + n <= self.mems[x].max.unwrap() {
                        st.mems[x].resize(old + n as usize, 0);
                        old as i32
                    } else {
                        -1
                    }
                }
                Op::DataDrop(g) => {
                    st.datas[m][g].clear();
                    continue;
                }
                Op::GGet(g) => st.globs[g],
                Op::GSet(g, v) => {
                    st.globs[g] = v;
                    continue;
                }
                Op::Host(h) => {
                    match self.hosts[h] {
                        HostOp::TMove(t, i, u, j) => st.tabs[t][i as usize] = st.tabs[u][j as usize],
                        HostOp::TNull(t, i) => st.tabs[t][i as usize] = None,
                        HostOp::TGrow(t, n) => {
                            if st.tabs[t].len() as u64 + n <= self.tabs[t].max.unwrap() {
                                let l = st.tabs[t].len();
                                st.tabs[t].resize(l + n as usize, None);
                            }
                        }
                        HostOp::TCopy(t, i, j, n) => st.tabs[t].copy_within(j as usize..(j + n) as usize, i as usize),
                        HostOp::MGrow(x, n) => {
                            if st.mems[x].len() as u64 + n <= self.mems[x].max.unwrap() {
                                let l = st.mems[x].len();
                                st.mems[x].resize(l + n as usize, 0);
                            }
                        }
                        HostOp::MWrite(x, i, v) => st.mems[x][i as usize] = v,
                        HostOp::GSet(g, v) => st.globs[g] = v,
                        HostOp::Nothing => {}
                    }
                    continue;
                }
                Op::Helper(h) => {
                    let mut a = 0;
                    self.run(&self.helpers[h], self.helper_module, &mut a, st, seen)?;
                    a
                }
            };
            *seen += 1;
            *acc = acc.wrapping_mul(31).wrapping_add(obs);
        }
        Some(())
    }

    /// Instructions; the observations are gathered in a local. Functions: the host's, the helpers', then the numbered ones.
    fn emit(&self, ops: &[Op], k0: u32, h0: u32, tk: u32, acc: u32) -> Vec<In> {
        let mut b = vec![];
        let ix = |wide: bool, v: u64| if wide { In::I64(v) } else { In::I32(v as u32) };
        let f = |k: Option<u32>| k.map_or(In::RefNull(VT::Func), |k| In::RefFunc(k0 + k));
        for op in ops {
            let tw = |t: usize| self.tabs[t].t64;
            let mw = |m: usize| self.mems[m].m64;
            let narrow = |b: &mut Vec<In>, wide: bool| {
                if wide {
                    b.push(In::Op(0xa7))
                }
            };
            match *op {
                Op::Ind(t, i) => b.extend([ix(tw(t), i), In::CallInd { ty: tk, tab: t as u32 }]),
                Op::IsNull(t, i) => b.extend([ix(tw(t), i), In::TGet(t as u32), REF_IS_NULL]),
                Op::TSize(t) => {
                    b.push(In::TSize(t as u32));
                    narrow(&mut b, tw(t));
                }
                Op::TSet(t, i, k) => b.extend([ix(tw(t), i), f(k), In::TSet(t as u32)]),
                Op::TFill(t, i, n, k) => b.extend([ix(tw(t), i), f(k), ix(tw(t), n), In::TFill(t as u32)]),
                Op::TCopy(t, i, u, j, n) => b.extend([ix(tw(t), i), ix(tw(u), j), ix(tw(t) && tw(u), n), In::TCopy { d: t as u32, s: u as u32 }]),
                Op::TInit(t, i, g, j, n) => {
                    b.extend([ix(tw(t), i), In::I32(j as u32), In::I32(n as u32), In::TInit { elem: g as u32, tab: t as u32 }])
                }
                Op::TGrow(t, n, k) => {
                    b.extend([f(k), ix(tw(t), n), In::TGrow(t as u32)]);
                    narrow(&mut b, tw(t));
                }
                Op::ElemDrop(g) => b.push(In::ElemDrop(g as u32)),
                Op::MSize(m) => {
                    b.push(In::MSize(m as u32));
                    narrow(&mut b, mw(m));
                }
                Op::Load(m, i) => b.extend([ix(mw(m), i), In::Mem(0x2d, MA { align: 0, off: 0, mem: m as u32 })]),
                Op::Store(m, i, v) => b.extend([ix(mw(m), i), In::I32(v as u32), In::Mem(0x3a, MA { align: 0, off: 0, mem: m as u32 })]),
                Op::MFill(m, i, n, v) => b.extend([ix(mw(m), i), In::I32(v as u32), ix(mw(m), n), In::MFill(m as u32)]),
                Op::MCopy(m, i, u, j, n) => b.extend([ix(mw(m), i), ix(mw(u), j), ix(mw(m) && mw(u), n), In::MCopy { d: m as u32, s: u as u32 }]),
                Op::MInit(m, i, g, j, n) => {
                    b.extend([ix(mw(m), i), In::I32(j as u32), In::I32(n as u32), In::MInit { data: g as u32, mem: m as u32 }])
                }
                Op::MGrow(m, n) => {
                    b.extend([ix(mw(m), n), In::MGrow(m as u32)]);
                    narrow(&mut b, mw(m));
                }
                Op::DataDrop(g) => b.push(In::DataDrop(g as u32)),
                Op::GGet(g) => b.push(In::GGet(g as u32)),
                Op::GSet(g, v) => b.extend([In::I32(v as u32), In::GSet(g as u32)]),
                Op::Host(h) => b.extend([In::I32(h as u32), In::Call(0)]),
                Op::Helper(h) => b.push(In::Call(h0 + h as u32)),
            }
            use Op::*;
            if matches!(op, Ind(..) | IsNull(..) | Op::TSize(_) | Op::TGrow(..) | Op::MSize(_) | Load(..) | Op::MGrow(..) | GGet(_) | Helper(_)) {
                b.extend([In::LGet(acc), In::I32(31), In::Op(0x6c), In::Op(0x6a), In::LSet(acc)]);
            }
        }
        b
    }
}

struct Handles {
    tabs: Vec<Table>,
    mems: Vec<Memory>,
    globs: Vec<Global>,
}

pub fn weave(kinds: (u64, u64), s: &mut Src, cx: &mut Cx) -> R {
    let tabs: Vec<TabTy> = (0..s.range(1, 2))
        .map(|_| {
            let min = s.range(1, 6);
            TabTy { t64: s.chance(1, 4), el: VT::Func, min, max: Some(min + s.below(5)) }
        })
        .collect();
    let mems: Vec<MemTy> = (0..s.range(1, 2))
        .map(|_| {
            let min = s.range(1, 20);
            MemTy { m64: s.chance(1, 4), min, max: Some(min + s.below(9)), page: Some(0) }
        })
        .collect();
    let two = s.bool();
    let mut p = Plan { tabs, mems, hosts: vec![], helpers: vec![], helper_module: 0 };
    p.hosts = (0..s.range(1, 4)).map(|_| p.host_op(s)).collect();
    for i in 0..s.range(1, 2) as usize {
        let ops = (0..s.range(1, 4)).map(|_| p.op(s, kinds, i)).collect();
        p.helpers.push(ops);
    }
    let nh = p.helpers.len();
    let ops: Vec<Op> = (0..s.range(4, 16)).map(|_| p.op(s, kinds, nh)).collect();
    let rounds = s.range(1, 3) as u32;
    let globs = [s.below(100) as i32, s.below(100) as i32];

    // the first module holds everything, and the second one, when there is one, imports it; `run` is in the last
    let main = two as usize;
    let mut st = State {
        tabs: p.tabs.iter().map(|t| vec![None; t.min as usize]).collect(),
        mems: p.mems.iter().map(|t| vec![0; t.min as usize]).collect(),
        globs: globs.to_vec(),
        elems: Default::default(),
        datas: Default::default(),
    };
    let mut wasms = vec![];
    for x in 0..=main {
        let mut m = Module { data_count: true, ..Module::default() };
        let (th, tk) = (m.ty(ft(&[VT::I32], &[])), m.ty(ft(&[], &[VT::I32])));
        m.imports.push(Import { module: "h".into(), name: "host".into(), desc: Desc::Func(th) });
        let own = |m: &mut Module, ty: u32, locals: Vec<VT>, body: Vec<In>| m.funcs.push(Func { ty, locals, body });
        let k0 = 1 + nh as u32;
        if x == 0 {
            for (i, h) in p.helpers.iter().enumerate() {
                let mut body = p.emit(h, k0, 1, tk, 0);
                body.push(In::LGet(0));
                own(&mut m, tk, vec![VT::I32], body);
                m.export(format!("h{i}"), Kind::Func, 1 + i as u32);
            }
            for t in &p.tabs {
                m.tables.push((*t, None));
            }
            m.mems = p.mems.clone();
            for g in globs {
                m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(g as u32)]));
            }
            for (n, kind, c) in [("t", Kind::Tab, p.tabs.len()), ("m", Kind::Mem, p.mems.len()), ("g", Kind::Glob, 2)] {
                for i in 0..c {
                    m.export(format!("{n}{i}"), kind, i as u32);
                }
            }
        } else {
            let mut imp = |name: String, desc: Desc| m.imports.push(Import { module: "a".into(), name, desc });
            (0..nh).for_each(|i| imp(format!("h{i}"), Desc::Func(tk)));
            p.tabs.iter().enumerate().for_each(|(i, t)| imp(format!("t{i}"), Desc::Tab(*t)));
            p.mems.iter().enumerate().for_each(|(i, t)| imp(format!("m{i}"), Desc::Mem(*t)));
            (0..2).for_each(|i| imp(format!("g{i}"), Desc::Glob(GlobTy { t: VT::I32, m: true })));
        }
        for k in 0..K {
            own(&mut m, tk, vec![], vec![In::I32(100 * (x as u32 + 1) + k)]);
        }
        m.elems.push(Elem { mode: ElemMode::Declared, items: ElemItems::Funcs((k0..k0 + K).collect()) });
        m.elems.clear();
        for _ in 0..2 {
            let v: Vec<u32> = (0..4).map(|_| s.below(K as u64) as u32).collect();
            st.elems[x].push(v.iter().map(|k| Some(100 * (x as u32 + 1) + k)).collect());
            m.elems.push(Elem { mode: ElemMode::Passive, items: ElemItems::Funcs(v.iter().map(|k| k0 + k).collect()) });
            let d: Vec<u8> = (0..4).map(|_| s.u32() as u8).collect();
            st.datas[x].push(d.clone());
            m.datas.push(Data { active: None, bytes: d });
        }
        m.elems.push(Elem { mode: ElemMode::Declared, items: ElemItems::Funcs((k0..k0 + K).collect()) });
        // filled tables to begin with
        for (t, ty) in p.tabs.iter().enumerate() {
            if x == 0 || s.bool() {
                let v: Vec<u32> = (0..ty.min).map(|_| s.below(K as u64) as u32).collect();
                st.tabs[t] = v.iter().map(|k| Some(100 * (x as u32 + 1) + k)).collect();
                let off = vec![if ty.t64 { In::I64(0) } else { In::I32(0) }];
                let mode = ElemMode::Active { tab: t as u32, off };
                m.elems.push(Elem { mode, items: ElemItems::Funcs(v.iter().map(|k| k0 + k).collect()) });
            }
        }
        if x == main {
            let tr = m.ty(ft(&[VT::I32], &[VT::I32]));
            let mut body = p.emit(&ops, k0, 1, tk, 1);
            body.extend([In::LGet(0), In::I32(1), In::Op(0x6b), In::LTee(0), In::BrIf(0)]);
            own(&mut m, tr, vec![VT::I32], vec![In::Loop(BT::Empty, body), In::LGet(1)]);
            m.export("run", Kind::Func, k0 + K);
        }
        let w = encode(&m);
        if let Err(e) = crate::world::validate(&w) {
            panic!("woven module {x} is invalid: {e}");
        }
        wasms.push(w);
    }
    let v = Variant::any(s);
    let mut shown = format!("{:?}\n  {:?}\n  hosts {:?}\n  helpers {:?}\n  {rounds} times {ops:?}\n  {}", p.tabs, p.mems, p.hosts, p.helpers, v.name);
    let held: Rc<RefCell<Option<Handles>>> = Default::default();
    let mut store = Store::new(Engine::new(v.cfg.clone()));
    let (hs, list) = (held.clone(), p.hosts.clone());
    let host = HostFunction::from(&mut store, move |mut c: FuncContext<'_>, n: i32| -> tinywasm::Result<()> {
        let h = hs.borrow();
        let h = h.as_ref().unwrap();
        let st = c.store_mut();
        match list[n as usize] {
            HostOp::TMove(t, i, u, j) => {
                let x = h.tabs[u].get(st, j as u32)?;
                h.tabs[t].set(st, i as u32, x)?;
            }
            HostOp::TNull(t, i) => h.tabs[t].set(st, i as u32, WasmValue::RefFunc(FuncRef::null()))?,
            HostOp::TGrow(t, n) => drop(h.tabs[t].grow(st, n as i32, WasmValue::RefFunc(FuncRef::null()))),
            HostOp::TCopy(t, i, j, n) => h.tabs[t].copy_within(st, j as usize, i as usize, n as usize)?,
            HostOp::MGrow(m, n) => drop(h.mems[m].grow(st, n as i64)),
            HostOp::MWrite(m, i, v) => h.mems[m].copy_from_slice(st, i as usize, &[v])?,
            HostOp::GSet(g, v) => h.globs[g].set(st, WasmValue::I32(v))?,
            HostOp::Nothing => {}
        }
        Ok(())
    });
    let mut last: Option<ModuleInstance> = None;
    for w in &wasms {
        let m = match v.load(w) {
            Ok(m) => m,
            Err(e) => return fail("valid module rejected", format!("{e}\n{shown}")),
        };
        let mut im = Imports::new();
        im.define("h", "host", host.clone());
        if let Some(a) = &last {
            im.link_module("a", a.clone()).unwrap();
        }
        let i = match guarded(|| ModuleInstance::instantiate(&mut store, &m, Some(im))) {
            Ok(Ok(i)) => i,
            r => return fail("instantiation", format!("{:?}\n{shown}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
        };
        if last.is_none() {
            *held.borrow_mut() = Some(Handles {
                tabs: (0..p.tabs.len()).map(|k| i.table(&format!("t{k}")).unwrap()).collect(),
                mems: (0..p.mems.len()).map(|k| i.memory(&format!("m{k}")).unwrap()).collect(),
                globs: (0..2).map(|k| i.global(&format!("g{k}")).unwrap()).collect(),
            });
        }
        last = Some(i);
    }
    let f = last.unwrap().func_untyped(&store, "run").unwrap();
    let mut seen = 0;
    for call in 0..s.range(1, 2) {
        let mut acc = 0;
        let want = (0..rounds).try_for_each(|_| p.run(&ops, main, &mut acc, &mut st, &mut seen)).map(|_| acc);
        let args = [WasmValue::I32(rounds as i32)];
        let fuel = s.chance(1, 4).then(|| 1 + s.below(60) as u32);
        shown += &format!("\n  call {call}, fuel {fuel:?}");
        let r = guarded(|| match fuel {
            None => f.call(&mut store, &args),
            Some(n) => {
                let mut x = f.call_resumable(&mut store, &args)?;
                loop {
                    if let ExecProgress::Completed(v) = x.resume_with_fuel(n)? {
                        return Ok(v);
                    }
                }
            }
        });
        match (want, r) {
            (_, Err(p)) => return fail(panic_sig(&p), format!("{p}\n{shown}")),
            (Some(a), Ok(Ok(g))) if g[..] == [WasmValue::I32(a)] => {}
            (None, Ok(Err(Error::Trap(_)))) => {}
            (w, Ok(g)) => {
                let g = g.map_err(|e| e.to_string());
                return fail("woven result", format!("expected {w:?} (None: a trap), got {g:?}\n{shown}"));
            }
        }
        let h = held.borrow();
        let h = h.as_ref().unwrap();
        for (i, t) in st.tabs.iter().enumerate() {
            let n = h.tabs[i].size(&store).ok();
            let got: Vec<Option<bool>> = (0..t.len())
                .map(|k| match h.tabs[i].get(&store, k as u32) {
                    Ok(WasmValue::RefFunc(f)) => Some(f.is_null()),
                    _ => None,
                })
                .collect();
            let want: Vec<Option<bool>> = t.iter().map(|x| Some(x.is_none())).collect();
            if n != Some(t.len()) || got != want {
                return fail("woven tables", format!("table {i}: expected {t:?}, got {n:?} elements, nulls {got:?}\n{shown}"));
            }
        }
        for (i, m) in st.mems.iter().enumerate() {
            let got = h.mems[i].len(&store).and_then(|n| h.mems[i].read_vec(&store, 0, n)).map_err(|e| e.to_string());
            if got.as_ref() != Ok(m) {
                return fail("woven memories", format!("memory {i}: expected {m:?}, got {got:?}\n{shown}"));
            }
        }
        for (i, g) in st.globs.iter().enumerate() {
            let got = h.globs[i].get(&store).map_err(|e| e.to_string());
            if got != Ok(WasmValue::I32(*g)) {
                return fail("woven globals", format!("global {i}: expected {g}, got {got:?}\n{shown}"));
            }
        }
    }
    cx.label("interwoven observations and changes");
    if seen >= 4 {
        cx.nontrivial(shown.as_bytes());
    }
    cx.sample(|| shown.clone());
    Ok(())
}
