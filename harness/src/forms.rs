//! Modules that apply a few chosen instructions to operands from every kind of source and send the results
//! to every kind of sink, for direct search over operand forms.

use crate::ir::*;
use crate::modgen::{konst, v128b, value};
use crate::ops;
use crate::tape::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Scalar(u8),
    Fc(u32),
    Simd(u32),
    Lane(u32, u8),
    Shuffle([u8; 16]),
}

impl Op {
    pub fn sig(&self) -> (Vec<VT>, Vec<VT>) {
        match self {
            Op::Scalar(o) => {
                let (p, r) = ops::sig(*o);
                (p.to_vec(), vec![r])
            }
            Op::Fc(o) => {
                let (p, r) = ops::fc_sig(*o);
                (p.to_vec(), r.to_vec())
            }
            Op::Simd(o) => {
                let (p, r) = ops::simd_sig(*o).unwrap();
                (p.to_vec(), vec![r])
            }
            Op::Lane(o, _) => {
                let (_, t, rep) = ops::simd_lane(*o).unwrap();
                if rep { (vec![VT::V128, t], vec![VT::V128]) } else { (vec![VT::V128], vec![t]) }
            }
            Op::Shuffle(_) => (vec![VT::V128, VT::V128], vec![VT::V128]),
        }
    }
    pub fn ins(&self) -> In {
        match self {
            Op::Scalar(o) => In::Op(*o),
            Op::Fc(o) => In::Fc(*o),
            Op::Simd(o) => In::Simd(*o),
            Op::Lane(o, l) => In::SimdLane(*o, *l),
            Op::Shuffle(l) => In::Shuffle(*l),
        }
    }
}

pub fn scalar_op(s: &mut Src) -> Op {
    if s.chance(1, 8) { Op::Fc(*s.pick(&ops::FC_OPS)) } else { Op::Scalar(s.range(0x45, 0xc4) as u8) }
}

pub fn simd_op(s: &mut Src, relaxed: bool) -> Op {
    match s.below(10) {
        0 => {
            let o = 0x15 + s.below(14) as u32;
            let n = ops::simd_lane(o).unwrap().0;
            Op::Lane(o, s.below(n as u64) as u8)
        }
        1 => Op::Shuffle(shuffle(s)),
        _ => {
            let all: Vec<u32> = ops::all_simd().into_iter().filter(|o| ops::is_relaxed(*o) == relaxed).collect();
            Op::Simd(*s.pick(&all))
        }
    }
}
pub fn shuffle(s: &mut Src) -> [u8; 16] {
    let mut l = [0u8; 16];
    match s.below(5) {
        0 => l.iter_mut().for_each(|x| *x = s.below(32) as u8),
        1 => {
            // rotation / alignment
            let k = s.below(17) as u8;
            l.iter_mut().enumerate().for_each(|(i, x)| *x = i as u8 + k.min(16));
        }
        2 => {
            // broadcast of one lane of some width
            let w = 1u8 << s.below(4);
            let k = s.below((32 / w) as u64) as u8 * w;
            l.iter_mut().enumerate().for_each(|(i, x)| *x = k + i as u8 % w);
        }
        3 => {
            // interleave
            let w = 1u8 << s.below(4);
            let hi = 8 * s.below(2) as u8;
            l.iter_mut().enumerate().for_each(|(i, x)| {
                let i = i as u8;
                let e = i / w;
                *x = (e / 2 * w + hi + i % w) + if e % 2 == 1 { 16 } else { 0 };
            });
        }
        _ => {
            // one element from the other operand
            let side = 16 * s.below(2) as u8;
            l.iter_mut().enumerate().for_each(|(i, x)| *x = i as u8 + side);
            let i = s.usize(16);
            l[i] = s.below(32) as u8;
        }
    }
    l.iter_mut().for_each(|x| *x %= 32);
    l
}

pub struct Form {
    pub m: Module,
    pub ops: Vec<Op>,
    pub params: Vec<VT>,
}

const TS: [VT; 5] = [VT::I32, VT::I64, VT::F32, VT::F64, VT::V128];
fn ti(t: VT) -> usize {
    TS.iter().position(|x| *x == t).unwrap()
}
pub fn load_of(t: VT, ma: MA) -> In {
    match t {
        VT::I32 => In::Mem(0x28, ma),
        VT::I64 => In::Mem(0x29, ma),
        VT::F32 => In::Mem(0x2a, ma),
        VT::F64 => In::Mem(0x2b, ma),
        _ => In::SimdMem(0, ma),
    }
}
pub fn store_of(t: VT, ma: MA) -> In {
    match t {
        VT::I32 => In::Mem(0x36, ma),
        VT::I64 => In::Mem(0x37, ma),
        VT::F32 => In::Mem(0x38, ma),
        VT::F64 => In::Mem(0x39, ma),
        _ => In::SimdMem(0x0b, ma),
    }
}

struct B<'a> {
    s: &'a mut Src,
    nt: usize,
    out: Vec<In>,
    /// local index of the pointer
    ptr: u32,
    m64: bool,
    marker: u32,
    helper: Vec<u32>,
}

impl B<'_> {
    // parameters: 2 of each type, then locals: 2 of each type
    fn par(&mut self, t: VT) -> u32 {
        (ti(t) * 2) as u32 + self.s.below(2) as u32
    }
    fn loc(&mut self, t: VT) -> u32 {
        (self.nt * 2 + ti(t) * 2) as u32 + self.s.below(2) as u32
    }
    fn glob(&mut self, t: VT) -> u32 {
        1 + (ti(t) * 2) as u32 + self.s.below(2) as u32
    }
    fn addr(&mut self) -> (In, MA) {
        let off = 8 * self.s.below(16);
        if self.s.bool() {
            (In::LGet(self.ptr), MA { align: 0, off, mem: 0 })
        } else {
            let k = 16 * self.s.below(8);
            (if self.m64 { In::I64(k) } else { In::I32(k as u32) }, MA { align: 0, off, mem: 0 })
        }
    }
    /// push a value of type t
    fn src(&mut self, t: VT, depth: u32, mk: fn(&mut Src, &[VT]) -> Option<Op>) {
        match self.s.below(13) {
            0..=3 => {
                let i = self.par(t);
                self.out.push(In::LGet(i))
            }
            4 | 5 => {
                let i = self.loc(t);
                self.out.push(In::LGet(i))
            }
            6..=8 => {
                let v = value(self.s, t);
                self.out.push(konst(t, v))
            }
            9 => {
                let i = self.glob(t);
                self.out.push(In::GGet(i))
            }
            10 => {
                let (a, ma) = self.addr();
                self.out.push(a);
                self.out.push(load_of(t, ma));
            }
            11 => {
                // tee
                let v = self.par(t);
                let l = self.loc(t);
                self.out.push(In::LGet(v));
                self.out.push(In::LTee(l));
            }
            _ => {
                if depth > 0
                    && let Some(op) = mk(self.s, &[t])
                {
                    return self.apply(op, depth - 1, mk);
                }
                if self.s.bool() {
                    let f = self.helper[ti(t)];
                    let i = self.par(t);
                    self.out.push(In::LGet(i));
                    self.out.push(In::Call(f));
                } else {
                    let i = self.par(t);
                    self.out.push(In::LGet(i));
                    self.out.push(In::Block(BT::Empty, vec![]));
                }
            }
        }
    }
    fn apply(&mut self, op: Op, depth: u32, mk: fn(&mut Src, &[VT]) -> Option<Op>) {
        let (p, r) = op.sig();
        if p.len() == 2 && p[0] == p[1] && self.s.chance(1, 12) {
            // the same value twice
            let i = self.par(p[0]);
            self.out.push(In::LGet(i));
            self.out.push(In::LGet(i));
        } else {
            for t in &p {
                self.src(*t, depth, mk);
            }
        }
        self.out.push(op.ins());
        if r.len() == 2 && depth == 0 {
            self.out.push(if self.s.bool() { In::Op(0x7c) } else { In::Op(0x85) });
        }
    }
    fn mark(&mut self) -> Vec<In> {
        let k = self.s.below(1000) as u32;
        vec![In::LGet(self.marker), In::I32(3), In::Op(0x6c), In::I32(k), In::Op(0x6a), In::LSet(self.marker)]
    }
    fn sink(&mut self, t: VT) {
        match self.s.below(if t == VT::I32 { 14 } else { 8 }) {
            0..=2 => {
                let l = self.loc(t);
                self.out.push(In::LSet(l));
            }
            3 => {
                let l = self.loc(t);
                self.out.push(In::LTee(l));
                self.out.push(DROP);
            }
            4 => {
                let g = self.glob(t);
                self.out.push(In::GSet(g));
            }
            5 => {
                let l = self.loc(t);
                self.out.push(In::LTee(l));
                let l = self.loc(t);
                self.out.push(In::LSet(l));
            }
            6 => {
                // store through a scratch local: addr, value
                let l = self.loc(t);
                let (a, ma) = self.addr();
                self.out.push(In::LSet(l));
                self.out.push(a);
                self.out.push(In::LGet(l));
                self.out.push(store_of(t, ma));
            }
            7 => {
                let l = self.loc(t);
                let c = self.loc(VT::I32);
                let q = self.par(t);
                self.out.push(In::LGet(q));
                self.out.push(In::LGet(c));
                self.out.push(if self.s.bool() { SELECT } else { In::SelectT(t) });
                self.out.push(In::LSet(l));
            }
            8 | 9 => {
                // branch on it
                let neg = self.s.chance(1, 3);
                let mut b = std::mem::take(&mut self.out);
                // the operands are already in `b`: wrap the whole statement
                if neg {
                    b.push(In::Op(0x45));
                }
                b.push(In::BrIf(0));
                let mk = self.mark();
                b.extend(mk);
                self.out = vec![In::Block(BT::Empty, b)];
            }
            10 => {
                let a = self.mark();
                let b = if self.s.bool() { Some(self.mark()) } else { None };
                self.out.push(In::If(BT::Empty, a, b));
            }
            11 => {
                let (x, y) = (self.par(VT::I64), self.par(VT::I64));
                // value selected by the result
                let l = self.loc(VT::I64);
                let c = self.loc(VT::I32);
                self.out.push(In::LSet(c));
                self.out.extend([In::LGet(x), In::LGet(y), In::LGet(c), SELECT, In::LSet(l)]);
            }
            12 => {
                let mut b = std::mem::take(&mut self.out);
                b.push(In::BrTable(vec![0, 1], 0));
                let mk = self.mark();
                let mut o = vec![In::Block(BT::Empty, b)];
                o.extend(mk);
                self.out = vec![In::Block(BT::Empty, o)];
            }
            _ => {
                // backward branch taken a bounded number of times
                let c = self.marker + 1;
                let mut b = vec![In::LGet(c), In::I32(1), In::Op(0x6b), In::LTee(c), In::Op(0x45), In::BrIf(1)];
                b.extend(std::mem::take(&mut self.out));
                b.push(In::BrIf(0));
                self.out = vec![In::I32(3), In::LSet(c), In::Block(BT::Empty, vec![In::Loop(BT::Empty, b)])];
            }
        }
    }
}

/// `pick` draws the operation under test; `inner` an operation producing the given type.
pub fn form(s: &mut Src, simd: bool, pick: impl Fn(&mut Src) -> Op, inner: fn(&mut Src, &[VT]) -> Option<Op>) -> Form {
    let nt = if simd { 5 } else { 4 };
    let ts = &TS[..nt];
    let mut m = Module::default();
    let params: Vec<VT> = ts.iter().flat_map(|t| [*t, *t]).collect();
    let m64 = s.chance(1, 8);
    m.mems.push(MemTy { m64, min: 1, max: None, page: None });
    let mut bytes = vec![];
    for i in 0..24u64 {
        let t = ts[(i as usize) % nt];
        let v = if t == VT::V128 { v128b(s) } else { value(s, t).b };
        bytes.extend_from_slice(&v.to_le_bytes()[..if t == VT::V128 { 16 } else { 8 }]);
    }
    m.datas.push(Data { active: Some((0, vec![if m64 { In::I64(0) } else { In::I32(0) }])), bytes });
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("gf", Kind::Glob, 0);
    for t in ts {
        for _ in 0..2 {
            let v = value(s, *t);
            m.globals.push((GlobTy { t: *t, m: true }, vec![konst(*t, v)]));
        }
    }
    let mut res: Vec<VT> = params.clone();
    res.push(VT::I32);
    // identity helpers, one per type (function indices 1..)
    let mut helper = vec![];
    let n_ops = 1 + s.below(3);
    let ret = s.chance(1, 4);
    let mut ops_used = vec![];
    let mut body = vec![];
    let base = (nt * 4) as u32;
    let (marker, ptr) = (base, base + 2);
    for i in 0..nt {
        helper.push(i as u32 + 1);
    }
    let pv = 16 * s.below(6);
    body.push(if m64 { In::I64(pv) } else { In::I32(pv as u32) });
    body.push(In::LSet(ptr));
    let mut last: Option<Vec<VT>> = None;
    for k in 0..n_ops {
        let op = pick(s);
        ops_used.push(op);
        let (_, r) = op.sig();
        let mut b = B { s, nt, out: vec![], ptr, m64, marker, helper: helper.clone() };
        let d = if b.s.chance(1, 2) { 1 } else { 0 };
        let fused = r.len() == 2;
        let d = if fused { 1 } else { d };
        // a store whose address comes first on the stack
        let as_store = r.len() == 1 && b.s.chance(1, 6);
        let ret_now = ret && k + 1 == n_ops && !as_store;
        let mut ma = None;
        if as_store {
            let (a, x) = b.addr();
            b.out.push(a);
            ma = Some(x);
        }
        b.apply(op, d, inner);
        if let Some(ma) = ma {
            b.out.push(store_of(r[0], ma));
        } else if ret_now {
            last = Some(r.clone());
        } else {
            for t in r.iter().rev() {
                if r.len() == 1 {
                    b.sink(*t);
                } else {
                    let l = b.loc(*t);
                    b.out.push(In::LSet(l));
                }
            }
        }
        let o = b.out;
        body.extend(o);
    }
    let mut rt = vec![];
    if let Some(l) = &last {
        rt.extend_from_slice(l);
    }
    rt.extend_from_slice(&res);
    for i in 0..nt * 2 {
        body.push(In::LGet((nt * 2 + i) as u32));
    }
    body.push(In::LGet(marker));
    if s.chance(1, 4) {
        body.push(RETURN);
    }
    let ty = m.ty(FT { p: params.clone(), r: rt });
    let mut locals: Vec<VT> = ts.iter().flat_map(|t| [*t, *t]).collect();
    locals.extend([VT::I32, VT::I32, if m64 { VT::I64 } else { VT::I32 }]);
    m.funcs.push(Func { ty, locals, body });
    for t in ts {
        let ty = m.ty(FT { p: vec![*t], r: vec![*t] });
        m.funcs.push(Func { ty, locals: vec![], body: vec![In::LGet(0)] });
    }
    m.export("f0", Kind::Func, 0);
    Form { m, ops: ops_used, params }
}

pub fn inner_scalar(s: &mut Src, want: &[VT]) -> Option<Op> {
    for _ in 0..20 {
        let o = s.range(0x45, 0xc4) as u8;
        if ops::sig(o).1 == want[0] && !matches!(o, 0x6d..=0x70 | 0x7f..=0x82 | 0xa8..=0xab | 0xae..=0xb1) {
            return Some(Op::Scalar(o));
        }
    }
    None
}
pub fn inner_any(s: &mut Src, want: &[VT]) -> Option<Op> {
    if want[0] == VT::V128 || (want[0] == VT::I32 && s.bool()) {
        for _ in 0..20 {
            let all = ops::all_simd();
            let o = *s.pick(&all);
            if !ops::is_relaxed(o) && ops::simd_sig(o).unwrap().1 == want[0] {
                return Some(Op::Simd(o));
            }
        }
        return None;
    }
    inner_scalar(s, want)
}
