//! Reference model: a specification-style store and interpreter over `ir`.
//! Addresses are arena indices; a reference value is 0 for null and address + 1 otherwise.

use crate::ir::*;
use crate::num::*;
use crate::ops;
use crate::runner::Stop;
use crate::simd;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ext {
    Func(usize),
    Tab(usize),
    Mem(usize),
    Glob(usize),
}

/// Value expressions used by scripted host functions.
#[derive(Clone, PartialEq, Debug)]
pub enum HV {
    Param(usize),
    Const(Val),
    /// i-th result of the last nested call
    Res(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub enum HAct {
    GlobSet(usize, HV),
    MemWrite(usize, u64, Vec<u8>),
    MemGrow(usize, u64),
    TabSet(usize, u64, HV),
    Call(usize, Vec<HV>),
    /// call, and carry on when the call fails; the outcome is recorded
    TryCall(usize, Vec<HV>),
    /// fail with this code
    Fail(u32),
    /// fail when the i32 parameter `i` is odd
    FailIfOdd(usize, u32),
    /// return an `unreachable` trap of the host's own making (when the i32 parameter is odd)
    FailTrap(Option<usize>),
    /// try a plain (not nested) call of a function, which must be refused
    Reenter(usize),
    /// record the calling instance and the value of its export `gf`
    Who,
    /// charge fuel
    Charge(u32),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct HostBeh {
    pub id: u32,
    pub acts: Vec<HAct>,
    pub ret: Vec<HV>,
    /// return a result list that does not fit the type (when the i32 parameter is odd)
    pub bad: Option<(u8, Option<usize>)>,
}

/// marks log entries of `HAct::Who`
pub const WHO: u32 = 0x8000_0000;
/// marks log entries of `HAct::TryCall`
pub const TRY: u32 = 0x4000_0000;

/// what a log entry says about a failed call
pub fn code(t: Tr) -> Val {
    i32v(match t {
        Tr::Unreachable => 1,
        Tr::MemOob => 2,
        Tr::TableOob => 3,
        Tr::DivZero => 4,
        Tr::Overflow => 5,
        Tr::BadConv => 6,
        Tr::Undefined => 7,
        Tr::Uninit => 8,
        Tr::SigMismatch => 9,
        Tr::BadHost => 10,
        Tr::Stack => 11,
        Tr::Host(c) => 100 + c,
    })
}

pub enum Code {
    Wasm { inst: usize, idx: usize },
    Host(HostBeh),
}

#[derive(Clone)]
pub struct FuncI {
    pub ty: FT,
    pub code: Rc<Code>,
}

#[derive(Clone)]
pub struct TabI {
    pub ty: TabTy,
    pub el: Vec<Val>,
}

#[derive(Clone)]
pub struct GlobI {
    pub ty: GlobTy,
    pub v: Val,
}

const CH: u64 = 4096;

#[derive(Clone)]
pub struct MemI {
    pub ty: MemTy,
    pub pages: u64,
    pub data: HashMap<u64, Box<[u8; CH as usize]>>,
    /// undetermined NaNs in memory: address -> (width, code)
    pub nan: BTreeMap<u64, (u64, u64)>,
}

pub const MEM_LIMIT: u64 = 64 << 20;
pub const TAB_LIMIT: u64 = 200_000;

impl MemI {
    pub fn new(ty: MemTy) -> Self {
        MemI { ty, pages: ty.min, data: HashMap::new(), nan: BTreeMap::new() }
    }
    pub fn len(&self) -> u64 {
        self.pages.saturating_mul(self.ty.page_size())
    }
    pub fn max_pages(&self) -> u64 {
        let cap = if self.ty.m64 { u64::MAX >> self.ty.page.unwrap_or(16) } else { (1u64 << 32) / self.ty.page_size() };
        self.ty.max.unwrap_or(cap).min(cap)
    }
    pub fn in_bounds(&self, addr: u128, n: u64) -> bool {
        addr + n as u128 <= self.len() as u128
    }
    pub fn read(&self, addr: u64, n: u64) -> Vec<u8> {
        let mut v = vec![0; n as usize];
        let mut i = 0;
        while i < n {
            let (p, o) = ((addr + i) / CH, (addr + i) % CH);
            let k = (CH - o).min(n - i);
            if let Some(d) = self.data.get(&p) {
                v[i as usize..(i + k) as usize].copy_from_slice(&d[o as usize..(o + k) as usize]);
            }
            i += k;
        }
        v
    }
    fn overlaps(&self, addr: u64, n: u64) -> Vec<u64> {
        if self.nan.is_empty() || n == 0 {
            return vec![];
        }
        self.nan.range(addr.saturating_sub(15)..addr + n).filter(|(a, w)| **a + w.0 > addr).map(|x| *x.0).collect()
    }
    pub fn write(&mut self, addr: u64, b: &[u8]) -> Result<(), Stop> {
        for a in self.overlaps(addr, b.len() as u64) {
            let w = self.nan[&a].0;
            if a < addr || a + w > addr + b.len() as u64 {
                return Err(Stop::Discard("NaN bits observed"));
            }
            self.nan.remove(&a);
        }
        let n = b.len() as u64;
        let mut i = 0;
        while i < n {
            let (p, o) = ((addr + i) / CH, (addr + i) % CH);
            let k = (CH - o).min(n - i);
            let d = self.data.entry(p).or_insert_with(|| Box::new([0; CH as usize]));
            d[o as usize..(o + k) as usize].copy_from_slice(&b[i as usize..(i + k) as usize]);
            i += k;
        }
        Ok(())
    }
    /// Read determined bytes.
    pub fn read_exact(&self, addr: u64, n: u64) -> Result<Vec<u8>, Stop> {
        if !self.overlaps(addr, n).is_empty() {
            return Err(Stop::Discard("NaN bits observed"));
        }
        Ok(self.read(addr, n))
    }
    /// Move NaN marks along with copied bytes (same or other memory).
    fn nan_copy(&self, src: u64, n: u64) -> Result<Vec<(u64, (u64, u64))>, Stop> {
        let mut v = vec![];
        for a in self.overlaps(src, n) {
            let w = self.nan[&a];
            if a < src || a + w.0 > src + n {
                return Err(Stop::Discard("NaN bits observed"));
            }
            v.push((a - src, w));
        }
        Ok(v)
    }
}

#[derive(Default, Clone)]
pub struct Inst {
    pub module: Rc<Module>,
    pub funcs: Vec<usize>,
    pub tabs: Vec<usize>,
    pub mems: Vec<usize>,
    pub globs: Vec<usize>,
    pub elems: Vec<usize>,
    pub datas: Vec<usize>,
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub charged: u64,
    pub locals: u64,
    pub nested: u64,
    pub swallowed: u64,
    pub steps: u64,
    pub calls: u64,
    pub host_calls: u64,
    pub indirect: u64,
    pub tail: u64,
    pub branches: u64,
    pub back_edges: u64,
    pub loads: u64,
    pub stores: u64,
    pub bulk: u64,
    pub grows: u64,
    pub table: u64,
    pub globals: u64,
    pub fops: u64,
    pub iops: u64,
    pub vops: u64,
    pub traps: u64,
    pub max_depth: u64,
}

#[derive(Default, Clone)]
pub struct Store {
    pub funcs: Vec<FuncI>,
    pub tabs: Vec<TabI>,
    pub mems: Vec<MemI>,
    pub globs: Vec<GlobI>,
    pub elems: Vec<Option<Vec<Val>>>,
    pub datas: Vec<Option<Rc<Vec<u8>>>>,
    pub insts: Vec<Inst>,
    /// calls of host functions, in order
    pub log: Vec<(u32, Vec<Val>)>,
    pub c: Counts,
    pub max_steps: u64,
    pub max_depth: u64,
    /// relaxed vector operators have exactly one accepted outcome only when all permitted outcomes coincide
    pub trap_inst: Option<usize>,
    /// number of state changes made so far, and the number after which execution is cut off
    pub eff: u64,
    pub cut: Option<u64>,
    /// exact limit on pending guest calls (None: no limit but the harness's own)
    pub call_limit: Option<u64>,
}

enum Flow {
    Next,
    Br(u32),
    Ret,
    Tail(usize, Vec<Val>),
}

struct Frame {
    inst: usize,
    locals: Vec<Val>,
    st: Vec<Val>,
    n_res: usize,
    depth: u64,
}

impl Frame {
    fn pop(&mut self) -> Val {
        self.st.pop().expect("model: stack underflow")
    }
    fn pops(&mut self, n: usize) -> Vec<Val> {
        let k = self.st.len() - n;
        self.st.split_off(k)
    }
    fn keep(&mut self, n: usize, h: usize) {
        let k = self.st.len() - n;
        self.st.drain(h..k);
    }
}

fn st<T>(r: Result<T, Stop>) -> ER<T> {
    r.map_err(Er::Stop)
}

pub fn default_of(_t: VT) -> Val {
    Val::default()
}

impl Store {
    pub fn new() -> Self {
        Store { max_steps: 20_000, max_depth: 150, ..Default::default() }
    }

    pub fn add_host(&mut self, ty: FT, beh: HostBeh) -> usize {
        self.funcs.push(FuncI { ty, code: Rc::new(Code::Host(beh)) });
        self.funcs.len() - 1
    }
    pub fn add_tab(&mut self, ty: TabTy, init: Val) -> usize {
        self.tabs.push(TabI { ty, el: vec![init; ty.min as usize] });
        self.tabs.len() - 1
    }
    pub fn add_mem(&mut self, ty: MemTy) -> usize {
        self.mems.push(MemI::new(ty));
        self.mems.len() - 1
    }
    pub fn add_glob(&mut self, ty: GlobTy, v: Val) -> usize {
        self.globs.push(GlobI { ty, v });
        self.globs.len() - 1
    }

    /// Does `e` satisfy the import `d` of module `m`?
    pub fn matches(&self, m: &Module, d: &Desc, e: Ext) -> bool {
        let lim = |min: u64, max: Option<u64>, cur: u64, emax: Option<u64>| {
            cur >= min
                && match (max, emax) {
                    (None, _) => true,
                    (Some(_), None) => false,
                    (Some(a), Some(b)) => b <= a,
                }
        };
        match (d, e) {
            (Desc::Func(t), Ext::Func(a)) => m.types[*t as usize] == self.funcs[a].ty,
            (Desc::Tab(t), Ext::Tab(a)) => {
                let x = &self.tabs[a];
                x.ty.el == t.el && x.ty.t64 == t.t64 && lim(t.min, t.max, x.el.len() as u64, x.ty.max)
            }
            (Desc::Mem(t), Ext::Mem(a)) => {
                let x = &self.mems[a];
                x.ty.m64 == t.m64 && x.ty.page_size() == t.page_size() && lim(t.min, t.max, x.pages, x.ty.max)
            }
            (Desc::Glob(t), Ext::Glob(a)) => self.globs[a].ty == *t,
            _ => false,
        }
    }

    pub fn export(&self, inst: usize, name: &str) -> Option<Ext> {
        let i = &self.insts[inst];
        let e = i.module.exports.iter().find(|e| e.name == name)?;
        Some(self.ext_of(inst, e.kind, e.idx))
    }
    pub fn ext_of(&self, inst: usize, k: Kind, idx: u32) -> Ext {
        let i = &self.insts[inst];
        let x = idx as usize;
        match k {
            Kind::Func => Ext::Func(i.funcs[x]),
            Kind::Tab => Ext::Tab(i.tabs[x]),
            Kind::Mem => Ext::Mem(i.mems[x]),
            Kind::Glob => Ext::Glob(i.globs[x]),
        }
    }

    fn const_expr(&self, inst: usize, e: &[In]) -> Val {
        let i = &self.insts[inst];
        let mut s: Vec<Val> = vec![];
        for x in e {
            let v = match x {
                In::I32(v) => i32v(*v),
                In::I64(v) => i64v(*v),
                In::F32(v) => i32v(*v),
                In::F64(v) => i64v(*v),
                In::V128(v) => v128v(*v),
                In::RefNull(_) => Val::default(),
                In::RefFunc(f) => i64v(i.funcs[*f as usize] as u64 + 1),
                In::GGet(g) => self.globs[i.globs[*g as usize]].v,
                In::Op(op) => {
                    let b = s.pop().unwrap();
                    let a = s.pop().unwrap();
                    match scalar(*op, &[a, b]) {
                        Ok(v) => v,
                        _ => panic!("const expr"),
                    }
                }
                _ => panic!("not a constant instruction: {x:?}"),
            };
            s.push(v);
        }
        s.pop().expect("empty const expr")
    }

    /// Everything up to (not including) the start function. The instance exists even when this traps.
    pub fn instantiate(&mut self, m: Rc<Module>, imports: &[Ext]) -> ER<usize> {
        let id = self.insts.len();
        let mut i = Inst { module: m.clone(), ..Default::default() };
        for e in imports {
            match *e {
                Ext::Func(a) => i.funcs.push(a),
                Ext::Tab(a) => i.tabs.push(a),
                Ext::Mem(a) => i.mems.push(a),
                Ext::Glob(a) => i.globs.push(a),
            }
        }
        for (idx, f) in m.funcs.iter().enumerate() {
            self.funcs.push(FuncI { ty: m.types[f.ty as usize].clone(), code: Rc::new(Code::Wasm { inst: id, idx }) });
            i.funcs.push(self.funcs.len() - 1);
        }
        self.insts.push(i);
        for t in &m.mems {
            let a = self.add_mem(*t);
            self.insts[id].mems.push(a);
        }
        for (t, e) in &m.globals {
            let v = self.const_expr(id, e);
            let a = self.add_glob(*t, v);
            self.insts[id].globs.push(a);
        }
        for (t, e) in &m.tables {
            let v = e.as_ref().map(|e| self.const_expr(id, e)).unwrap_or_default();
            let a = self.add_tab(*t, v);
            self.insts[id].tabs.push(a);
        }
        for e in &m.elems {
            let v: Vec<Val> = match &e.items {
                ElemItems::Funcs(f) => f.iter().map(|f| i64v(self.insts[id].funcs[*f as usize] as u64 + 1)).collect(),
                ElemItems::Exprs(_, es) => es.iter().map(|x| self.const_expr(id, x)).collect(),
            };
            self.elems.push(Some(v));
            self.insts[id].elems.push(self.elems.len() - 1);
        }
        for d in &m.datas {
            self.datas.push(Some(Rc::new(d.bytes.clone())));
            self.insts[id].datas.push(self.datas.len() - 1);
        }
        for (k, e) in m.elems.iter().enumerate() {
            let ea = self.insts[id].elems[k];
            match &e.mode {
                ElemMode::Active { tab, off } => {
                    let t = self.insts[id].tabs[*tab as usize];
                    let o = self.const_expr(id, off);
                    let o = if self.tabs[t].ty.t64 { o.i64() } else { o.i32() as u64 };
                    let v = self.elems[ea].take().unwrap();
                    let tt = &mut self.tabs[t];
                    if o as u128 + v.len() as u128 > tt.el.len() as u128 {
                        self.elems[ea] = Some(v);
                        return trap(Tr::TableOob);
                    }
                    tt.el[o as usize..o as usize + v.len()].copy_from_slice(&v);
                }
                ElemMode::Declared => self.elems[ea] = None,
                ElemMode::Passive => {}
            }
        }
        for (k, d) in m.datas.iter().enumerate() {
            if let Some((mem, off)) = &d.active {
                let da = self.insts[id].datas[k];
                let a = self.insts[id].mems[*mem as usize];
                let o = self.const_expr(id, off);
                let o = if self.mems[a].ty.m64 { o.i64() } else { o.i32() as u64 };
                if !self.mems[a].in_bounds(o as u128, d.bytes.len() as u64) {
                    return trap(Tr::MemOob);
                }
                st(self.mems[a].write(o, &d.bytes))?;
                self.datas[da] = None;
            }
        }
        Ok(id)
    }

    pub fn start(&mut self, inst: usize) -> ER {
        if let Some(s) = self.insts[inst].module.start {
            let f = self.insts[inst].funcs[s as usize];
            self.call(f, vec![])?;
        }
        Ok(())
    }

    /// Call from the host.
    pub fn call(&mut self, f: usize, args: Vec<Val>) -> ER<Vec<Val>> {
        let r = self.invoke(f, args, 0, None);
        if let Err(Er::Trap(_)) = &r {
            self.c.traps += 1;
        }
        r
    }

    /// `who` is the calling instance (None: called by the host).
    fn invoke(&mut self, mut f: usize, mut args: Vec<Val>, depth: u64, mut who: Option<usize>) -> ER<Vec<Val>> {
        if depth > self.max_depth {
            return Err(Er::Stop(Stop::Discard("deep recursion")));
        }
        self.c.max_depth = self.c.max_depth.max(depth);
        loop {
            let fi = &self.funcs[f];
            let n_res = fi.ty.r.len();
            let code = fi.code.clone();
            match &*code {
                Code::Host(b) => {
                    self.c.host_calls += 1;
                    return self.host(b, args, depth, who);
                }
                Code::Wasm { inst, idx } => {
                    self.c.calls += 1;
                    let m = self.insts[*inst].module.clone();
                    let fun = &m.funcs[*idx];
                    let mut locals = args;
                    self.c.locals += fun.locals.len() as u64;
                    locals.extend(fun.locals.iter().map(|t| default_of(*t)));
                    let mut fr = Frame { inst: *inst, locals, st: vec![], n_res, depth };
                    match self.seq(&mut fr, &fun.body)? {
                        Flow::Next | Flow::Ret | Flow::Br(_) => return Ok(fr.pops(n_res)),
                        Flow::Tail(g, a) => {
                            self.c.tail += 1;
                            f = g;
                            args = a;
                            who = Some(*inst);
                        }
                    }
                }
            }
        }
    }

    fn host(&mut self, b: &HostBeh, args: Vec<Val>, depth: u64, who: Option<usize>) -> ER<Vec<Val>> {
        self.effect()?;
        self.log.push((b.id, args.clone()));
        let mut res: Vec<Val> = vec![];
        let ev = |v: &HV, res: &[Val]| match v {
            HV::Param(i) => args[*i],
            HV::Const(c) => *c,
            HV::Res(i) => res[*i],
        };
        for a in &b.acts {
            match a {
                HAct::GlobSet(g, v) => {
                    self.effect()?;
                    self.globs[*g].v = ev(v, &res)
                }
                HAct::MemWrite(m, o, b) => {
                    if !self.mems[*m].in_bounds(*o as u128, b.len() as u64) {
                        return trap(Tr::MemOob);
                    }
                    self.effect()?;
                    st(self.mems[*m].write(*o, b))?;
                }
                HAct::MemGrow(m, n) => {
                    self.mem_grow(*m, *n)?;
                }
                HAct::TabSet(t, i, v) => {
                    let v = ev(v, &res);
                    self.effect()?;
                    match self.tabs[*t].el.get_mut(*i as usize) {
                        Some(x) => *x = v,
                        None => return trap(Tr::TableOob),
                    }
                }
                HAct::Call(f, a) => {
                    let a = a.iter().map(|v| ev(v, &res)).collect();
                    self.c.nested += 1;
                    res = self.invoke(*f, a, depth + 1, None)?;
                }
                HAct::TryCall(f, a) => {
                    let a = a.iter().map(|v| ev(v, &res)).collect();
                    self.c.nested += 1;
                    let mut v = vec![i32v(0)];
                    match self.invoke(*f, a, depth + 1, None) {
                        Ok(r) => v.extend(r),
                        Err(Er::Trap(t)) => {
                            self.c.swallowed += 1;
                            v[0] = code(t);
                        }
                        Err(e) => return Err(e),
                    }
                    self.effect()?;
                    self.log.push((b.id | TRY, v));
                }
                HAct::Fail(c) => return trap(Tr::Host(*c)),
                HAct::FailIfOdd(i, c) => {
                    if args[*i].i32() & 1 == 1 {
                        return trap(Tr::Host(*c));
                    }
                }
                HAct::FailTrap(i) => {
                    if i.is_none_or(|i| args[i].i32() & 1 == 1) {
                        return trap(Tr::Unreachable);
                    }
                }
                HAct::Who => {
                    if let Some(w) = who {
                        let m = self.insts[w].module.clone();
                        let gf = m.exports.iter().find(|e| e.name == "gf" && e.kind == Kind::Glob);
                        let mut v = vec![i32v(w as u32)];
                        v.extend(gf.map(|e| self.globs[self.insts[w].globs[e.idx as usize]].v));
                        self.effect()?;
                        self.log.push((b.id | WHO, v));
                    }
                }
                HAct::Reenter(_) => {}
                HAct::Charge(n) => self.c.charged += (*n).min(5000) as u64,
            }
        }
        if let Some((_, i)) = b.bad
            && i.is_none_or(|i| args[i].i32() & 1 == 1)
        {
            return trap(Tr::BadHost);
        }
        Ok(b.ret.iter().map(|v| ev(v, &res)).collect())
    }

    /// Some(old size) or None when the growth must fail.
    pub fn mem_grow(&mut self, a: usize, n: u64) -> ER<Option<u64>> {
        self.c.grows += 1;
        let m = &mut self.mems[a];
        let old = m.pages;
        match old.checked_add(n) {
            Some(x) if x <= m.max_pages() => {
                if x.saturating_mul(m.ty.page_size()) > MEM_LIMIT && n > 0 {
                    return Err(Er::Stop(Stop::Discard("large growth")));
                }
                self.effect()?;
                self.mems[a].pages = x;
                Ok(Some(old))
            }
            _ => Ok(None),
        }
    }
    pub fn tab_grow(&mut self, a: usize, n: u64, v: Val) -> ER<Option<u64>> {
        self.c.grows += 1;
        let t = &mut self.tabs[a];
        let old = t.el.len() as u64;
        let cap = if t.ty.t64 { u64::MAX } else { u32::MAX as u64 };
        match old.checked_add(n) {
            Some(x) if x <= t.ty.max.unwrap_or(cap).min(cap) => {
                if x > TAB_LIMIT && n > 0 {
                    return Err(Er::Stop(Stop::Discard("large growth")));
                }
                self.effect()?;
                self.tabs[a].el.resize(x as usize, v);
                Ok(Some(old))
            }
            _ => Ok(None),
        }
    }

    /// A change of state is about to happen.
    fn effect(&mut self) -> ER {
        if self.cut == Some(self.eff) {
            return Err(Er::Stop(Stop::Discard("cut")));
        }
        self.eff += 1;
        Ok(())
    }

    fn seq(&mut self, f: &mut Frame, b: &[In]) -> ER<Flow> {
        for i in b {
            match self.step(f, i)? {
                Flow::Next => {}
                x => return Ok(x),
            }
        }
        Ok(Flow::Next)
    }

    fn bt(&self, f: &Frame, b: &BT) -> (usize, usize) {
        match b {
            BT::Empty => (0, 0),
            BT::Val(_) => (0, 1),
            BT::Ty(t) => {
                let t = &self.insts[f.inst].module.types[*t as usize];
                (t.p.len(), t.r.len())
            }
        }
    }

    fn block(&mut self, f: &mut Frame, t: &BT, b: &[In]) -> ER<Flow> {
        let (p, r) = self.bt(f, t);
        let h = f.st.len() - p;
        match self.seq(f, b)? {
            Flow::Br(0) => {
                f.keep(r, h);
                Ok(Flow::Next)
            }
            Flow::Br(n) => Ok(Flow::Br(n - 1)),
            x => Ok(x),
        }
    }

    fn tick(&mut self) -> ER {
        self.c.steps += 1;
        if self.c.steps > self.max_steps { Err(Er::Stop(Stop::Discard("too many steps"))) } else { Ok(()) }
    }

    fn addr(&self, a: usize, v: Val) -> u64 {
        if self.mems[a].ty.m64 { v.i64() } else { v.i32() as u64 }
    }
    fn tidx(&self, t: usize, v: Val) -> u64 {
        if self.tabs[t].ty.t64 { v.i64() } else { v.i32() as u64 }
    }
    fn ea(&self, f: &mut Frame, m: &MA, w: u64) -> ER<(usize, u64)> {
        let a = self.insts[f.inst].mems[m.mem as usize];
        let base = self.addr(a, f.pop());
        let e = base as u128 + m.off as u128;
        if !self.mems[a].in_bounds(e, w) {
            return trap(Tr::MemOob);
        }
        Ok((a, e as u64))
    }
    fn load_raw(&self, a: usize, e: u64, w: u64) -> ER<u128> {
        let b = st(self.mems[a].read_exact(e, w))?;
        let mut x = [0u8; 16];
        x[..w as usize].copy_from_slice(&b);
        Ok(u128::from_le_bytes(x))
    }

    fn lookup_indirect(&mut self, f: &mut Frame, ty: u32, tab: u32) -> ER<usize> {
        self.c.indirect += 1;
        let t = self.insts[f.inst].tabs[tab as usize];
        let v = f.pop();
        let i = self.tidx(t, v);
        let Some(r) = self.tabs[t].el.get(usize::try_from(i).unwrap_or(usize::MAX)) else {
            return trap(Tr::Undefined);
        };
        if r.b == 0 {
            return trap(Tr::Uninit);
        }
        let fa = r.b as usize - 1;
        if self.funcs[fa].ty != self.insts[f.inst].module.types[ty as usize] {
            return trap(Tr::SigMismatch);
        }
        Ok(fa)
    }

    fn step(&mut self, f: &mut Frame, i: &In) -> ER<Flow> {
        self.tick()?;
        match i {
            In::Op(0x00) => return trap(Tr::Unreachable),
            In::Op(0x01) => {}
            In::Op(0x0f) => return Ok(Flow::Ret),
            In::Op(0x1a) => {
                f.pop();
            }
            In::Op(0x1b) | In::SelectT(_) => {
                let c = f.pop().i32();
                let b = f.pop();
                let a = f.pop();
                f.st.push(if c != 0 { a } else { b });
            }
            In::Op(0xd1) => {
                let v = f.pop();
                f.st.push(boolv(v.b == 0));
            }
            In::Op(op) => {
                let (p, _) = ops::sig(*op);
                if matches!(op, 0x45..=0x5a | 0x67..=0x8a | 0xac | 0xad | 0xa7 | 0xc0..=0xc4) {
                    self.c.iops += 1;
                } else {
                    self.c.fops += 1;
                }
                let k = f.st.len() - p.len();
                let v = scalar(*op, &f.st[k..])?;
                f.st.truncate(k);
                f.st.push(v);
            }
            In::Fc(op) => {
                let (p, _) = ops::fc_sig(*op);
                let a = f.pops(p.len());
                f.st.extend(fc(*op, &a)?);
                self.c.iops += 1;
            }
            In::I32(v) | In::F32(v) => f.st.push(i32v(*v)),
            In::I64(v) | In::F64(v) => f.st.push(i64v(*v)),
            In::V128(v) => f.st.push(v128v(*v)),
            In::Block(t, b) => return self.block(f, t, b),
            In::Loop(t, b) => {
                let (p, _) = self.bt(f, t);
                let h = f.st.len() - p;
                loop {
                    self.tick()?;
                    match self.seq(f, b)? {
                        Flow::Br(0) => {
                            self.c.back_edges += 1;
                            f.keep(p, h);
                        }
                        Flow::Br(n) => return Ok(Flow::Br(n - 1)),
                        x => return Ok(x),
                    }
                }
            }
            In::If(t, a, b) => {
                if f.pop().i32() != 0 {
                    return self.block(f, t, a);
                }
                if let Some(b) = b {
                    return self.block(f, t, b);
                }
            }
            In::Br(n) => {
                self.c.branches += 1;
                return Ok(Flow::Br(*n));
            }
            In::BrIf(n) => {
                if f.pop().i32() != 0 {
                    self.c.branches += 1;
                    return Ok(Flow::Br(*n));
                }
            }
            In::BrTable(l, d) => {
                self.c.branches += 1;
                let v = f.pop().i32() as usize;
                return Ok(Flow::Br(*l.get(v).unwrap_or(d)));
            }
            In::Call(x) => {
                let fa = self.insts[f.inst].funcs[*x as usize];
                let n = self.funcs[fa].ty.p.len();
                let a = f.pops(n);
                let r = self.invoke(fa, a, f.depth + 1, Some(f.inst))?;
                f.st.extend(r);
            }
            In::CallInd { ty, tab } => {
                let fa = self.lookup_indirect(f, *ty, *tab)?;
                let n = self.funcs[fa].ty.p.len();
                let a = f.pops(n);
                let r = self.invoke(fa, a, f.depth + 1, Some(f.inst))?;
                f.st.extend(r);
            }
            In::RetCall(x) => {
                let fa = self.insts[f.inst].funcs[*x as usize];
                let n = self.funcs[fa].ty.p.len();
                let a = f.pops(n);
                return Ok(Flow::Tail(fa, a));
            }
            In::RetCallInd { ty, tab } => {
                let fa = self.lookup_indirect(f, *ty, *tab)?;
                let n = self.funcs[fa].ty.p.len();
                let a = f.pops(n);
                return Ok(Flow::Tail(fa, a));
            }
            In::LGet(x) => f.st.push(f.locals[*x as usize]),
            In::LSet(x) => f.locals[*x as usize] = f.pop(),
            In::LTee(x) => f.locals[*x as usize] = *f.st.last().unwrap(),
            In::GGet(x) => {
                self.c.globals += 1;
                let a = self.insts[f.inst].globs[*x as usize];
                f.st.push(self.globs[a].v);
            }
            In::GSet(x) => {
                self.c.globals += 1;
                let a = self.insts[f.inst].globs[*x as usize];
                self.effect()?;
                self.globs[a].v = f.pop();
            }
            In::TGet(x) => {
                self.c.table += 1;
                let t = self.insts[f.inst].tabs[*x as usize];
                let v = f.pop();
                let i = self.tidx(t, v);
                match self.tabs[t].el.get(usize::try_from(i).unwrap_or(usize::MAX)) {
                    Some(v) => f.st.push(*v),
                    None => return trap(Tr::TableOob),
                }
            }
            In::TSet(x) => {
                self.c.table += 1;
                let t = self.insts[f.inst].tabs[*x as usize];
                let r = f.pop();
                let v = f.pop();
                let i = self.tidx(t, v);
                if i >= self.tabs[t].el.len() as u64 {
                    return trap(Tr::TableOob);
                }
                self.effect()?;
                self.tabs[t].el[i as usize] = r;
            }
            In::TSize(x) => {
                let t = self.insts[f.inst].tabs[*x as usize];
                let n = self.tabs[t].el.len() as u64;
                f.st.push(i64v(n));
            }
            In::TGrow(x) => {
                let t = self.insts[f.inst].tabs[*x as usize];
                let n = f.pop();
                let n = self.tidx(t, n);
                let v = f.pop();
                let t64 = self.tabs[t].ty.t64;
                let r = self.tab_grow(t, n, v)?;
                f.st.push(match r {
                    Some(o) => i64v(o),
                    None if t64 => i64v(u64::MAX),
                    None => i32v(u32::MAX),
                });
            }
            In::TFill(x) => {
                self.c.table += 1;
                let t = self.insts[f.inst].tabs[*x as usize];
                let n = f.pop();
                let v = f.pop();
                let d = f.pop();
                let (n, d) = (self.tidx(t, n), self.tidx(t, d));
                if d as u128 + n as u128 > self.tabs[t].el.len() as u128 {
                    return trap(Tr::TableOob);
                }
                self.effect()?;
                let el = &mut self.tabs[t].el;
                el[d as usize..(d + n) as usize].fill(v);
            }
            In::TCopy { d, s } => {
                self.c.table += 1;
                let td = self.insts[f.inst].tabs[*d as usize];
                let ts = self.insts[f.inst].tabs[*s as usize];
                let n = f.pop();
                let n = if self.tabs[td].ty.t64 && self.tabs[ts].ty.t64 { n.i64() } else { n.i32() as u64 };
                let so = f.pop();
                let so = self.tidx(ts, so);
                let dd = f.pop();
                let dd = self.tidx(td, dd);
                if so as u128 + n as u128 > self.tabs[ts].el.len() as u128 || dd as u128 + n as u128 > self.tabs[td].el.len() as u128 {
                    return trap(Tr::TableOob);
                }
                self.effect()?;
                let v = self.tabs[ts].el[so as usize..(so + n) as usize].to_vec();
                self.tabs[td].el[dd as usize..(dd + n) as usize].copy_from_slice(&v);
            }
            In::TInit { elem, tab } => {
                self.c.table += 1;
                let t = self.insts[f.inst].tabs[*tab as usize];
                let ea = self.insts[f.inst].elems[*elem as usize];
                let n = f.pop().i32() as u64;
                let s = f.pop().i32() as u64;
                let d = f.pop();
                let d = self.tidx(t, d);
                let src = self.elems[ea].clone().unwrap_or_default();
                if s + n > src.len() as u64 || d as u128 + n as u128 > self.tabs[t].el.len() as u128 {
                    return trap(Tr::TableOob);
                }
                self.effect()?;
                self.tabs[t].el[d as usize..(d + n) as usize].copy_from_slice(&src[s as usize..(s + n) as usize]);
            }
            In::ElemDrop(x) => {
                let ea = self.insts[f.inst].elems[*x as usize];
                self.effect()?;
                self.elems[ea] = None;
            }
            In::Mem(op, m) => {
                let (w, t, store) = ops::mem_op(*op);
                let w = w as u64;
                if store {
                    self.c.stores += 1;
                    let v = f.pop();
                    let (a, e) = self.ea(f, m, w)?;
                    let bytes = v.b.to_le_bytes();
                    self.effect()?;
                    st(self.mems[a].write(e, &bytes[..w as usize]))?;
                    if v.t != 0 {
                        self.mems[a].nan.insert(e, (w, v.t & 0xf));
                    }
                } else {
                    self.c.loads += 1;
                    let (a, e) = self.ea(f, m, w)?;
                    if let Some((nw, code)) = self.mems[a].nan.get(&e)
                        && *nw == w
                        && matches!(t, VT::F32 | VT::F64)
                    {
                        let b = if w == 4 { QNAN32 as u128 } else { QNAN64 as u128 };
                        f.st.push(Val { b, t: *code });
                        return Ok(Flow::Next);
                    }
                    let x = self.load_raw(a, e, w)? as u64;
                    f.st.push(match op {
                        0x28 | 0x2a | 0x29 | 0x2b => i64v(x),
                        0x2c => i32v(x as u8 as i8 as i32 as u32),
                        0x2e => i32v(x as u16 as i16 as i32 as u32),
                        0x30 => i64v(x as u8 as i8 as i64 as u64),
                        0x32 => i64v(x as u16 as i16 as i64 as u64),
                        0x34 => i64v(x as u32 as i32 as i64 as u64),
                        _ => i64v(x),
                    });
                }
            }
            In::MSize(m) => {
                let a = self.insts[f.inst].mems[*m as usize];
                f.st.push(i64v(self.mems[a].pages));
            }
            In::MGrow(m) => {
                let a = self.insts[f.inst].mems[*m as usize];
                let v = f.pop();
                let n = self.addr(a, v);
                let m64 = self.mems[a].ty.m64;
                let r = self.mem_grow(a, n)?;
                f.st.push(match r {
                    Some(o) => i64v(o),
                    None if m64 => i64v(u64::MAX),
                    None => i32v(u32::MAX),
                });
            }
            In::MFill(m) => {
                self.c.bulk += 1;
                let a = self.insts[f.inst].mems[*m as usize];
                let n = f.pop();
                let v = f.pop().i32() as u8;
                let d = f.pop();
                let (n, d) = (self.addr(a, n), self.addr(a, d));
                if !self.mems[a].in_bounds(d as u128, n) {
                    return trap(Tr::MemOob);
                }
                self.c.steps += n / 64;
                self.effect()?;
                st(self.mems[a].write(d, &vec![v; n as usize]))?;
            }
            In::MCopy { d, s } => {
                self.c.bulk += 1;
                let ad = self.insts[f.inst].mems[*d as usize];
                let a_s = self.insts[f.inst].mems[*s as usize];
                let n = f.pop();
                let n = if self.mems[ad].ty.m64 && self.mems[a_s].ty.m64 { n.i64() } else { n.i32() as u64 };
                let so = f.pop();
                let so = self.addr(a_s, so);
                let dd = f.pop();
                let dd = self.addr(ad, dd);
                if !self.mems[a_s].in_bounds(so as u128, n) || !self.mems[ad].in_bounds(dd as u128, n) {
                    return trap(Tr::MemOob);
                }
                self.c.steps += n / 64;
                let b = self.mems[a_s].read(so, n);
                let nans = st(self.mems[a_s].nan_copy(so, n))?;
                self.effect()?;
                st(self.mems[ad].write(dd, &b))?;
                for (o, w) in nans {
                    self.mems[ad].nan.insert(dd + o, w);
                }
            }
            In::MInit { data, mem } => {
                self.c.bulk += 1;
                let a = self.insts[f.inst].mems[*mem as usize];
                let da = self.insts[f.inst].datas[*data as usize];
                let n = f.pop().i32() as u64;
                let s = f.pop().i32() as u64;
                let d = f.pop();
                let d = self.addr(a, d);
                let src = self.datas[da].clone().unwrap_or_default();
                if s + n > src.len() as u64 || !self.mems[a].in_bounds(d as u128, n) {
                    return trap(Tr::MemOob);
                }
                self.effect()?;
                st(self.mems[a].write(d, &src[s as usize..(s + n) as usize]))?;
            }
            In::DataDrop(x) => {
                let da = self.insts[f.inst].datas[*x as usize];
                self.effect()?;
                self.datas[da] = None;
            }
            In::RefNull(_) => f.st.push(Val::default()),
            In::RefFunc(x) => {
                let a = self.insts[f.inst].funcs[*x as usize];
                f.st.push(i64v(a as u64 + 1));
            }
            In::Simd(op) => {
                self.c.vops += 1;
                let (p, _) = ops::simd_sig(*op).unwrap();
                let a = f.pops(p.len());
                f.st.push(st(simd::vector(*op, &a))?);
            }
            In::SimdLane(op, l) => {
                self.c.vops += 1;
                let (_, _, rep) = ops::simd_lane(*op).unwrap();
                let a = f.pops(1 + rep as usize);
                f.st.push(st(simd::lane(*op, *l, &a))?);
            }
            In::Shuffle(l) => {
                self.c.vops += 1;
                let a = f.pops(2);
                f.st.push(st(simd::shuffle(l, &a))?);
            }
            In::SimdMem(op, m) => {
                self.c.vops += 1;
                let w = ops::simd_mem_width(*op) as u64;
                if *op == 0x0b {
                    self.c.stores += 1;
                    let v = f.pop();
                    let (a, e) = self.ea(f, m, w)?;
                    self.effect()?;
                    st(self.mems[a].write(e, &v.b.to_le_bytes()))?;
                    let mut i = 0;
                    while i < 16 {
                        let n = (v.t >> (i * 4)) & 0xf;
                        let k = match n {
                            0 => 1,
                            C32 | A32 => 4,
                            _ => 8,
                        };
                        if n != 0 {
                            self.mems[a].nan.insert(e + i, (k, n));
                        }
                        i += k;
                    }
                } else {
                    self.c.loads += 1;
                    let (a, e) = self.ea(f, m, w)?;
                    let x = self.load_raw(a, e, w)?;
                    f.st.push(simd::load(*op, x as u64, x));
                }
            }
            In::SimdMemLane(op, m, l) => {
                self.c.vops += 1;
                let w = ops::simd_mem_width(*op) as u64;
                let v = f.pop();
                let b = st(v.bits())?;
                let sh = *l as u32 * w as u32 * 8;
                let mask = if w == 8 { u64::MAX as u128 } else { (1u128 << (w * 8)) - 1 };
                let (a, e) = self.ea(f, m, w)?;
                if *op >= 0x58 {
                    self.c.stores += 1;
                    let x = (b >> sh) & mask;
                    self.effect()?;
                    st(self.mems[a].write(e, &x.to_le_bytes()[..w as usize]))?;
                } else {
                    self.c.loads += 1;
                    let x = self.load_raw(a, e, w)?;
                    f.st.push(v128v((b & !(mask << sh)) | x << sh));
                }
            }
        }
        let _ = f.n_res;
        Ok(Flow::Next)
    }
}
