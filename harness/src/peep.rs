//! Functions made of short instruction sequences over a handful of locals, globals, constants, offsets and
//! memories, so that neighbouring instructions often name the same things and just as often almost the same
//! things.  Labels and inert blocks are dropped between any two instructions.

use crate::forms::{Form, load_of, store_of};
use crate::ir::*;
use crate::modgen::{akin, konst, v128b, value};
use crate::ops;
use crate::tape::Src;

#[derive(Clone, Copy)]
pub struct Want {
    pub simd: bool,
    pub float: bool,
    /// relative weights
    pub mem: u32,
    pub control: u32,
    pub max_mems: u64,
    /// percentage of control mazes instead
    pub maze: u64,
}

impl Default for Want {
    fn default() -> Self {
        Want { simd: true, float: true, mem: 6, control: 6, max_mems: 2, maze: 0 }
    }
}

const INT: [VT; 2] = [VT::I32, VT::I64];

struct P<'a> {
    s: &'a mut Src,
    w: Want,
    ts: Vec<VT>,
    /// locals in use, by type
    pool: Vec<(VT, Vec<u32>)>,
    ptr: [Vec<u32>; 2],
    m64: Vec<bool>,
    offs: Vec<u64>,
    cnt: Vec<(VT, u32, u32)>,
    globs: Vec<(VT, u32)>,
    marker: u32,
    id: Vec<(VT, u32)>,
    out: Vec<In>,
    budget: i32,
}

fn bin_ops(t: VT) -> &'static [u8] {
    match t {
        VT::I32 => &[0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78],
        VT::I64 => &[0x7c, 0x7d, 0x7e, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a],
        VT::F32 => &[0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98],
        _ => &[0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6],
    }
}
fn arith(t: VT) -> (u8, u8, u8) {
    match t {
        VT::I32 => (0x6a, 0x6b, 0x6c),
        VT::I64 => (0x7c, 0x7d, 0x7e),
        VT::F32 => (0x92, 0x93, 0x94),
        _ => (0xa0, 0xa1, 0xa2),
    }
}

impl P<'_> {
    fn e(&mut self, i: In) {
        self.out.push(i)
    }
    fn loc(&mut self, t: VT) -> u32 {
        let p = &self.pool.iter().find(|x| x.0 == t).unwrap().1;
        let n = p.len() as u64;
        // mostly one of the first two
        let i = if self.s.chance(1, 4) { self.s.below(n) } else { self.s.below(2) };
        p[i as usize]
    }
    fn ty(&mut self) -> VT {
        let ts = self.ts.clone();
        if self.s.chance(1, 3) { *self.s.pick(&INT) } else { *self.s.pick(&ts) }
    }
    fn k(&mut self, t: VT) -> In {
        let small = self.s.chance(2, 3);
        match t {
            VT::I32 if small => In::I32(*self.s.pick(&[0u32, 1, 2, 24, 16, 8, u32::MAX, 31, 32, 0x8000_0000])),
            VT::I64 if small => {
                In::I64(*self.s.pick(&[0u64, 1, 2, 56, 48, 32, u64::MAX, 8, 1 << 31, 1 << 32, (-(1i64 << 31)) as u64, (1 << 32) + 1, 1 << 63]))
            }
            VT::V128 => In::V128(v128b(self.s)),
            _ => {
                let v = value(self.s, t);
                konst(t, v)
            }
        }
    }
    fn op2(&mut self, t: VT) -> In {
        if t == VT::V128 {
            return In::Simd(*self.s.pick(&[0x4eu32, 0x4f, 0x50, 0x51, 0xce, 0xd5, 0xd1, 0xae, 0x6e]));
        }
        let o = bin_ops(t);
        In::Op(if self.s.chance(1, 2) { o[self.s.below(3) as usize] } else { *self.s.pick(o) })
    }
    fn get(&mut self, t: VT) {
        let l = self.loc(t);
        self.e(In::LGet(l));
    }
    /// address local and memory argument; leaves nothing on the stack
    fn at(&mut self, w: u64) -> Option<(In, MA)> {
        if self.m64.is_empty() {
            return None;
        }
        let mem = self.s.usize(self.m64.len());
        let m64 = self.m64[mem];
        let off = *self.s.pick(&self.offs.clone());
        let ma = MA { align: 0, off, mem: mem as u32 };
        let _ = w;
        let a = if self.s.chance(1, 6) {
            let k = 8 * self.s.below(6);
            if m64 { In::I64(k) } else { In::I32(k as u32) }
        } else {
            let p = self.ptr[m64 as usize].clone();
            In::LGet(*self.s.pick(&p))
        };
        Some((a, ma))
    }
    fn src(&mut self, t: VT, d: u32) {
        let mem = if self.m64.is_empty() { 0 } else { 1 };
        match self.s.weighted(&[6, 4, 2, 1, mem, mem, if d > 0 { 3 } else { 0 }, 1, 1, 1]) {
            0 => self.get(t),
            1 => {
                let k = self.k(t);
                self.e(k);
            }
            2 => {
                self.src(t, 0);
                let l = self.loc(t);
                self.e(In::LTee(l));
            }
            3 => {
                let g = self.glob(t);
                self.e(In::GGet(g));
            }
            4 => {
                let (a, ma) = self.at(16).unwrap();
                self.e(a);
                self.load(t, ma);
            }
            5 => {
                let (a, ma) = self.at(16).unwrap();
                self.e(a);
                self.load(t, ma);
                let l = self.loc(t);
                self.e(In::LTee(l));
            }
            6 => {
                self.src(t, d - 1);
                self.src(t, d - 1);
                let o = self.op2(t);
                self.e(o);
            }
            7 => {
                // through a local
                self.src(t, 0);
                let l = self.loc(t);
                self.e(In::LSet(l));
                let l = self.loc(t);
                self.e(In::LGet(l));
            }
            8 => {
                let l = self.loc(t);
                let b = self.s.below(3);
                match b {
                    0 => self.e(In::Block(BT::Val(t), vec![In::LGet(l)])),
                    1 => {
                        let c = self.loc(VT::I32);
                        let l2 = self.loc(t);
                        self.e(In::LGet(c));
                        self.e(In::If(BT::Val(t), vec![In::LGet(l)], Some(vec![In::LGet(l2)])));
                    }
                    _ => {
                        let f = self.id.iter().find(|x| x.0 == t).unwrap().1;
                        self.e(In::LGet(l));
                        self.e(In::Call(f));
                    }
                }
            }
            _ => {
                let (a, b, c) = (self.loc(t), self.loc(t), self.loc(VT::I32));
                self.out.extend([In::LGet(a), In::LGet(b), In::LGet(c)]);
                let typed = self.s.bool();
                self.e(if typed { In::SelectT(t) } else { SELECT });
            }
        }
    }
    fn load(&mut self, t: VT, ma: MA) {
        let narrow = self.s.chance(1, 2);
        let i = match t {
            VT::I32 if narrow => In::Mem(*self.s.pick(&[0x2cu8, 0x2d, 0x2e, 0x2f]), ma),
            VT::I64 if narrow => In::Mem(self.s.range(0x30, 0x35) as u8, ma),
            VT::V128 if narrow => In::SimdMem(*self.s.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x5c, 0x5d]), ma),
            t => load_of(t, ma),
        };
        self.e(i);
    }
    fn store(&mut self, t: VT, ma: MA) {
        let narrow = self.s.chance(1, 3);
        let i = match t {
            VT::I32 if narrow => In::Mem(self.s.range(0x3a, 0x3b) as u8, ma),
            VT::I64 if narrow => In::Mem(self.s.range(0x3c, 0x3e) as u8, ma),
            t => store_of(t, ma),
        };
        self.e(i);
    }
    fn glob(&mut self, t: VT) -> u32 {
        let c: Vec<u32> = self.globs.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
        *self.s.pick(&c)
    }
    fn sink(&mut self, t: VT) {
        let mem = if self.m64.is_empty() { 0 } else { 2 };
        match self.s.weighted(&[8, 3, 2, 2, mem, 2]) {
            0 => {
                let l = self.loc(t);
                self.e(In::LSet(l));
            }
            1 => {
                let l = self.loc(t);
                self.e(In::LTee(l));
                self.e(DROP);
            }
            2 => {
                let (a, b) = (self.loc(t), self.loc(t));
                self.e(In::LTee(a));
                self.e(In::LSet(b));
            }
            3 => {
                let g = self.glob(t);
                self.e(In::GSet(g));
            }
            4 => {
                let l = self.loc(t);
                let (a, ma) = self.at(16).unwrap();
                self.e(In::LSet(l));
                self.e(a);
                self.e(In::LGet(l));
                self.store(t, ma);
            }
            _ => {
                let (a, b, c) = (self.loc(t), self.loc(t), self.loc(t));
                self.out.extend([In::LSet(a), In::LGet(b), In::LSet(c)]);
            }
        }
    }
    fn cmp(&mut self) {
        let t = *self.s.pick(&INT);
        let (eqz, base) = if t == VT::I32 { (0x45u8, 0x46u8) } else { (0x50, 0x51) };
        match self.s.below(12) {
            0 => self.get(VT::I32),
            1 => {
                self.src(t, 0);
                self.e(In::Op(eqz));
            }
            2 if self.w.float => {
                let t = *self.s.pick(&[VT::F32, VT::F64]);
                self.src(t, 0);
                self.src(t, 0);
                let o = self.s.below(6) as u8;
                self.e(In::Op(if t == VT::F32 { 0x5b } else { 0x61 } + o));
            }
            3..=5 => {
                self.get(t);
                let k = self.k(t);
                self.e(k);
                let o = self.s.below(10) as u8;
                self.e(In::Op(base + o));
            }
            6 => {
                let k = self.k(t);
                self.e(k);
                self.get(t);
                let o = self.s.below(10) as u8;
                self.e(In::Op(base + o));
            }
            _ => {
                self.src(t, 1);
                self.src(t, 1);
                let o = self.s.below(10) as u8;
                self.e(In::Op(base + o));
            }
        }
        for _ in 0..self.s.below(8).saturating_sub(5) {
            self.e(In::Op(0x45));
        }
    }
    fn mark(&mut self) {
        let m = self.marker;
        let k = self.s.below(50) as u32;
        self.out.extend([In::LGet(m), In::I32(3), In::Op(0x6c), In::I32(k), In::Op(0x6a), In::LSet(m)]);
    }
    /// Collect what `f` emits.
    fn sub(&mut self, f: impl FnOnce(&mut Self)) -> Vec<In> {
        let o = std::mem::take(&mut self.out);
        f(self);
        std::mem::replace(&mut self.out, o)
    }
    fn body(&mut self, d: u32, n: u64) {
        for _ in 0..n {
            self.stmt(d);
        }
    }
    fn stmt(&mut self, d: u32) {
        if self.budget <= 0 {
            return;
        }
        self.budget -= 1;
        let b = self.sub(|p| p.stmt_in(d));
        let cut = if b.len() >= 2 && self.s.chance(1, 4) { 1 + self.s.usize(b.len() - 1) } else { 0 };
        for (i, x) in b.into_iter().enumerate() {
            if i > 0 && i == cut {
                let c = self.loc(VT::I32);
                let x = match self.s.below(6) {
                    0 => In::Block(BT::Empty, vec![]),
                    1 => In::Loop(BT::Empty, vec![]),
                    2 => In::Block(BT::Empty, vec![In::LGet(c), In::BrIf(0)]),
                    3 => {
                        let m = self.sub(|p| p.mark());
                        let mut b = vec![In::LGet(c), In::BrIf(0)];
                        b.extend(m);
                        In::Block(BT::Empty, b)
                    }
                    4 => In::Block(BT::Empty, vec![In::Block(BT::Empty, vec![In::LGet(c), In::BrTable(vec![0, 1], 0)])]),
                    _ => NOP,
                };
                self.e(x);
            }
            self.e(x);
        }
    }
    fn stmt_in(&mut self, d: u32) {
        let m = if self.m64.is_empty() { 0 } else { self.w.mem };
        let c = if d > 0 { self.w.control } else { 0 };
        let v = if self.w.simd { 3 } else { 0 };
        match self.s.weighted(&[8, 2, 1, m, m / 2, 1, m, m, c, c, c, 2, m / 3, 2, v, 2, 1]) {
            0 => {
                let t = self.ty();
                self.src(t, 1);
                self.src(t, 1);
                let o = self.op2(t);
                if self.s.chance(1, 12) {
                    // the operator in a block of its own
                    let b = self.blk2(t);
                    self.e(In::Block(b, vec![o]));
                } else {
                    self.e(o);
                }
                self.sink(t);
            }
            1 => {
                // accumulate
                let t = self.scalar();
                let (add, sub, mul) = arith(t);
                let acc_first = self.s.chance(1, 4);
                if acc_first {
                    self.get(t);
                }
                self.src(t, 0);
                self.src(t, 0);
                self.e(In::Op(mul));
                if !acc_first {
                    self.get(t);
                }
                let o = if self.s.chance(1, 5) { sub } else { add };
                self.e(In::Op(o));
                let l = self.loc(t);
                let tee = self.s.chance(1, 4);
                if tee {
                    self.e(In::LTee(l));
                    self.sink(t);
                } else {
                    self.e(In::LSet(l));
                }
            }
            2 => {
                let t = self.scalar();
                let (add, _, _) = arith(t);
                for _ in 0..3 {
                    self.src(t, 0);
                }
                self.e(In::Op(add));
                let o = if self.s.chance(1, 4) { self.op2(t) } else { In::Op(add) };
                self.e(o);
                self.sink(t);
            }
            3 => {
                // increment in memory
                let t = self.scalar();
                let (add, sub, _) = arith(t);
                let (a, ma) = self.at(16).unwrap();
                let (mut b, mut mb) = (a.clone(), ma);
                match self.s.below(6) {
                    0 => {
                        // the same address in another memory
                        mb.mem = self.s.usize(self.m64.len()) as u32;
                    }
                    1 => mb.off = *self.s.pick(&self.offs.clone()),
                    2 => {
                        let p = self.ptr[self.m64[ma.mem as usize] as usize].clone();
                        b = In::LGet(*self.s.pick(&p));
                    }
                    _ => {}
                }
                if self.m64[mb.mem as usize] != self.m64[ma.mem as usize] {
                    mb.mem = ma.mem;
                }
                self.e(b);
                self.e(a);
                if self.s.chance(1, 6) {
                    self.load(t, ma)
                } else {
                    self.e(load_of(t, ma))
                }
                let one = match t {
                    VT::I32 => In::I32(1),
                    VT::I64 => In::I64(1),
                    VT::F32 => In::F32(1.0f32.to_bits()),
                    _ => In::F64(1.0f64.to_bits()),
                };
                let k = if self.s.chance(1, 3) { self.k(t) } else { one };
                self.e(k);
                let o = if self.s.chance(1, 6) { sub } else { add };
                self.e(In::Op(o));
                if self.s.chance(1, 8) {
                    let l = self.loc(t);
                    self.e(In::LTee(l));
                }
                if self.s.chance(1, 6) { self.store(t, mb) } else { self.e(store_of(t, mb)) }
            }
            4 => {
                // multiply-add into memory
                let t = self.scalar();
                let (add, sub, mul) = arith(t);
                let (a, ma) = self.at(16).unwrap();
                self.e(a);
                let first = self.s.chance(3, 4);
                if first {
                    self.src(t, 0);
                }
                self.src(t, 0);
                self.src(t, 0);
                self.e(In::Op(mul));
                if !first {
                    self.src(t, 0);
                }
                let o = if self.s.chance(1, 5) { sub } else { add };
                self.e(In::Op(o));
                self.e(store_of(t, ma));
            }
            5 => {
                // shift pair
                let t = *self.s.pick(&INT);
                self.src(t, 0);
                let k = *self.s.pick(&[24u64, 16, 56, 48, 32, 8]);
                let k2 = if self.s.chance(1, 3) { *self.s.pick(&[24u64, 16, 56, 48, 32, 8]) } else { k };
                let kk = |t, k: u64| if t == VT::I32 { In::I32(k as u32) } else { In::I64(k) };
                let (shl, shr) = if t == VT::I32 { (0x74, 0x75) } else { (0x86, 0x87) };
                self.e(kk(t, k));
                self.e(In::Op(shl));
                self.e(kk(t, k2));
                let u = self.s.chance(1, 6) as u8;
                self.e(In::Op(shr + u));
                self.sink(t);
            }
            6 => {
                let t = self.ty();
                let (a, ma) = self.at(16).unwrap();
                self.e(a);
                self.load(t, ma);
                self.sink(t);
            }
            7 => {
                let t = self.ty();
                let (a, ma) = self.at(16).unwrap();
                self.e(a);
                if self.s.bool() {
                    self.get(t)
                } else {
                    self.src(t, 1)
                }
                self.store(t, ma);
            }
            8 => {
                // conditional
                match self.s.below(5) {
                    0 => {
                        self.cmp();
                        let a = self.sub(|p| p.few(d - 1));
                        let b = if self.s.bool() { Some(self.sub(|p| p.few(d - 1))) } else { None };
                        self.e(In::If(BT::Empty, a, b));
                    }
                    1 => {
                        let b = self.sub(|p| {
                            p.few(d - 1);
                            p.cmp();
                            p.e(In::BrIf(0));
                            p.few(d - 1);
                            p.mark();
                        });
                        self.e(In::Block(BT::Empty, b));
                    }
                    2 => {
                        // branch over a branch
                        let b = self.sub(|p| {
                            let inner = p.sub(|p| {
                                p.cmp();
                                p.e(In::BrIf(0));
                                p.few(d - 1);
                                let t = p.s.below(2) as u32;
                                if p.s.bool() {
                                    p.cmp();
                                    p.e(In::BrIf(t));
                                } else {
                                    p.e(In::Br(t));
                                }
                            });
                            p.e(In::Block(BT::Empty, inner));
                            p.mark();
                        });
                        self.e(In::Block(BT::Empty, b));
                    }
                    3 => {
                        // a value leaves through the branch
                        let t = self.ty();
                        let b = self.sub(|p| {
                            p.src(t, 0);
                            p.cmp();
                            p.e(In::BrIf(0));
                            p.e(DROP);
                            p.mark();
                            p.src(t, 0);
                        });
                        self.e(In::Block(BT::Val(t), b));
                        self.sink(t);
                    }
                    _ => {
                        // value of a conditional
                        let t = self.ty();
                        self.cmp();
                        let a = self.sub(|p| p.src(t, 1));
                        let b = self.sub(|p| p.src(t, 1));
                        self.e(In::If(BT::Val(t), a, Some(b)));
                        self.sink(t);
                    }
                }
            }
            9 => self.looped(d),
            10 => {
                // switch
                let n = 1 + self.s.below(4) as u32;
                let mut b = self.sub(|p| {
                    if p.s.bool() {
                        p.get(VT::I32)
                    } else {
                        p.src(VT::I32, 1)
                    }
                    if p.s.bool() {
                        p.e(In::I32(3));
                        p.e(In::Op(0x71));
                    }
                });
                let k = 1 + self.s.below(5);
                let t: Vec<u32> = (0..k).map(|_| self.s.below(n as u64) as u32).collect();
                let dflt = self.s.below(n as u64) as u32;
                b.push(In::BrTable(t, dflt));
                for i in 0..n {
                    let mut o = vec![In::Block(BT::Empty, b)];
                    let last = i + 1 == n;
                    let x = self.sub(|p| {
                        if p.s.chance(2, 3) {
                            p.few(d - 1)
                        }
                        p.mark();
                        if !last && p.s.chance(1, 3) {
                            p.e(In::Br(n - 2 - i));
                        }
                    });
                    o.extend(x);
                    b = o;
                }
                self.out.extend(b);
            }
            11 => {
                // copies and constants
                let t = self.ty();
                let (a, b) = (self.loc(t), self.loc(t));
                match self.s.below(4) {
                    0 => self.out.extend([In::LGet(a), In::LSet(b)]),
                    1 => self.out.extend([In::LGet(a), In::LTee(b), DROP]),
                    2 => {
                        let k = self.k(t);
                        self.e(k);
                        self.e(In::LSet(a));
                    }
                    _ => {
                        let c = self.loc(t);
                        self.out.extend([In::LGet(a), In::LGet(b), In::LSet(c), In::LSet(b)]);
                    }
                }
            }
            12 => {
                // bulk with constants
                let mem = self.s.usize(self.m64.len());
                let m64 = self.m64[mem];
                let c = |k: u64| if m64 { In::I64(k) } else { In::I32(k as u32) };
                let (a, k) = (8 * self.s.below(8), self.s.below(20));
                if self.s.bool() {
                    self.e(c(a));
                } else {
                    let p = self.ptr[m64 as usize].clone();
                    let p = *self.s.pick(&p);
                    self.e(In::LGet(p));
                }
                if self.s.bool() {
                    let v = *self.s.pick(&[0u32, 1, 255, 256, 511, u32::MAX]);
                    self.e(In::I32(v));
                } else {
                    self.get(VT::I32);
                }
                self.e(c(k));
                self.e(In::MFill(mem as u32));
            }
            13 => {
                // pointer arithmetic
                let w = self.s.usize(2);
                let p = self.ptr[w].clone();
                let (a, b) = (*self.s.pick(&p), *self.s.pick(&p));
                let k = 4 * self.s.below(5);
                let (k, add) = if w == 1 { (In::I64(k), 0x7c) } else { (In::I32(k as u32), 0x6a) };
                match self.s.below(3) {
                    0 => self.out.extend([In::LGet(a), k, In::Op(add), In::LSet(b)]),
                    1 => {
                        let Some((x, ma)) = self.at(16) else { return };
                        if matches!(x, In::LGet(_)) && self.m64[ma.mem as usize] == (w == 1) {
                            let t = self.ty();
                            self.out.extend([In::LGet(a), k, In::Op(add), In::LTee(b)]);
                            self.load(t, ma);
                            self.sink(t);
                        }
                    }
                    _ => self.out.extend([In::LGet(a), In::LSet(b)]),
                }
            }
            14 => {
                let t = VT::V128;
                match self.s.below(4) {
                    0 => {
                        // unary or test
                        let o = *self.s.pick(&[0x4du32, 0x60, 0x63, 0x64, 0x83, 0xa0, 0xc1, 0x53]);
                        self.src(t, 1);
                        self.e(In::Simd(o));
                        let r = ops::simd_sig(o).unwrap().1;
                        self.sink(r);
                    }
                    1 => {
                        self.src(t, 0);
                        self.src(t, 0);
                        self.src(t, 0);
                        self.e(In::Simd(0x52));
                        self.sink(t);
                    }
                    _ => {
                        self.src(t, 1);
                        self.src(t, 0);
                        let o = self.op2(t);
                        self.e(o);
                        if self.s.chance(1, 3) {
                            self.src(t, 0);
                            let o = self.op2(t);
                            self.e(o);
                        }
                        self.sink(t);
                    }
                }
            }
            15 => {
                // comparison or conversion into a local
                if self.s.bool() {
                    self.cmp();
                    self.sink(VT::I32);
                } else {
                    let (o, p, r): (u8, VT, VT) = *self.s.pick(&[
                        (0xa7, VT::I64, VT::I32),
                        (0xac, VT::I32, VT::I64),
                        (0xad, VT::I32, VT::I64),
                        (0xc0, VT::I32, VT::I32),
                        (0xc4, VT::I64, VT::I64),
                        (0x45, VT::I32, VT::I32),
                        (0x50, VT::I64, VT::I32),
                    ]);
                    self.src(p, 1);
                    self.e(In::Op(o));
                    self.sink(r);
                }
            }
            _ => {
                // a few values kept on the stack across a statement
                let t = self.ty();
                self.src(t, 0);
                let u = self.ty();
                self.src(u, 0);
                if d > 0 {
                    let b = self.sub(|p| p.few(d - 1));
                    if self.s.bool() { self.out.extend(b) } else { self.e(In::Block(BT::Empty, b)) }
                }
                self.sink(u);
                self.sink(t);
            }
        }
    }
    fn few(&mut self, d: u32) {
        let n = self.s.below(3);
        self.body(d, n);
    }
    fn scalar(&mut self) -> VT {
        if !self.w.float {
            return *self.s.pick(&INT);
        }
        *self.s.pick(&NUM)
    }
    fn blk2(&mut self, t: VT) -> BT {
        // filled in by the caller's type table: parameters t t, result t
        BT::Ty(self.ts.iter().position(|x| *x == t).unwrap() as u32)
    }
    fn looped(&mut self, d: u32) {
        let Some((t, i, lim)) = self.cnt.pop() else { return self.few(d - 1) };
        let n = 1 + self.s.below(3);
        let k = |x: u64| if t == VT::I32 { In::I32(x as u32) } else { In::I64(x) };
        let (add, sub) = if t == VT::I32 { (0x6a, 0x6b) } else { (0x7c, 0x7d) };
        let base = if t == VT::I32 { 0x46 } else { 0x51 };
        // eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u
        let inner = self.sub(|p| p.few(d - 1));
        let tee = self.s.bool();
        let up = self.s.bool();
        let by_local = self.s.bool();
        let bound = if by_local { In::LGet(lim) } else { k(n) };
        match self.s.below(4) {
            0 => {
                // while with the test on top
                let mut b = vec![];
                if up {
                    b.extend([In::LGet(i), bound]);
                    match self.s.below(3) {
                        0 => b.push(In::Op(base + 8 + self.s.below(2) as u8)),
                        1 => b.push(In::Op(base)),
                        _ => b.extend([In::Op(base + 2 + self.s.below(2) as u8), In::Op(0x45)]),
                    }
                    b.push(In::BrIf(1));
                    b.extend(inner);
                    b.extend([In::LGet(i), k(1), In::Op(add)]);
                } else {
                    b.push(In::LGet(i));
                    match self.s.below(3) {
                        0 => b.push(In::Op(base - 1)),
                        1 => b.extend([k(0), In::Op(base)]),
                        _ => b.extend([k(0), In::Op(base + 1), In::Op(0x45)]),
                    }
                    b.push(In::BrIf(1));
                    b.extend(inner);
                    b.extend([In::LGet(i), k(1), In::Op(sub)]);
                }
                if tee {
                    b.extend([In::LTee(i), DROP])
                } else {
                    b.push(In::LSet(i))
                }
                b.push(In::Br(0));
                self.out.extend([k(n), In::LSet(lim), k(if up { 0 } else { n }), In::LSet(i)]);
                self.e(In::Block(BT::Empty, vec![In::Loop(BT::Empty, b)]));
            }
            1 => {
                // do-while
                let mut b = inner;
                b.extend([In::LGet(i), k(1), In::Op(if up { add } else { sub })]);
                if tee {
                    b.push(In::LTee(i))
                } else {
                    b.extend([In::LSet(i), In::LGet(i)])
                }
                if up {
                    b.extend([bound, In::Op(base + *self.s.pick(&[1u8, 2, 3]))]);
                } else {
                    match self.s.below(3) {
                        0 if t == VT::I32 => {}
                        1 => b.extend([In::Op(base - 1), In::Op(0x45)]),
                        _ => b.extend([k(0), In::Op(base + 1)]),
                    }
                }
                b.push(In::BrIf(0));
                self.out.extend([k(n), In::LSet(lim), k(if up { 0 } else { n }), In::LSet(i)]);
                self.e(In::Loop(BT::Empty, b));
            }
            2 => {
                // loop through a conditional
                let mut b = inner;
                b.extend([In::LGet(i), k(1), In::Op(sub), In::LTee(i), In::Op(base - 1), In::Op(0x45)]);
                b.push(In::If(BT::Empty, vec![In::Br(1)], None));
                self.out.extend([k(n), In::LSet(i)]);
                self.e(In::Loop(BT::Empty, b));
            }
            _ => {
                // loop through a switch
                let mut b = inner;
                b.extend([In::LGet(i), k(1), In::Op(sub), In::LTee(i)]);
                if t == VT::I64 {
                    b.push(In::Op(0xa7));
                }
                let swap = self.s.bool();
                let (x, y) = if swap { (vec![1, 0], 0) } else { (vec![1], 0) };
                b.push(In::BrTable(x, y));
                self.out.extend([k(n), In::LSet(i)]);
                self.e(In::Block(BT::Empty, vec![In::Loop(BT::Empty, b)]));
            }
        }
    }
}

pub fn peep(s: &mut Src, w: Want) -> Form {
    if w.maze > 0 && s.chance(w.maze, 100) {
        return crate::maze::maze(s, w.simd);
    }
    let mut ts = if w.float { NUM.to_vec() } else { INT.to_vec() };
    if w.simd {
        ts.push(VT::V128);
    }
    let mut m = Module::default();
    // types 0..: (t t) -> t, then t -> t
    for t in &ts {
        m.types.push(ft(&[*t, *t], &[*t]));
    }
    let nm = if w.mem == 0 { 0 } else { s.range(1, w.max_mems.max(1)) };
    let same = s.chance(2, 3);
    let first = s.chance(1, 4);
    for i in 0..nm {
        let m64 = if same || i == 0 { first } else { s.bool() };
        m.mems.push(MemTy { m64, min: 1, max: None, page: None });
        let bytes: Vec<u8> = (0..96).map(|_| s.below(256) as u8).collect();
        m.datas.push(Data { active: Some((i as u32, vec![if m64 { In::I64(0) } else { In::I32(0) }])), bytes });
    }
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("gf", Kind::Glob, 0);
    let mut globs = vec![];
    for t in &ts {
        for _ in 0..2 {
            let v = value(s, *t);
            globs.push((*t, m.globals.len() as u32));
            m.globals.push((GlobTy { t: *t, m: true }, vec![konst(*t, v)]));
        }
    }
    let params: Vec<VT> = ts.iter().flat_map(|t| [*t, *t]).collect();
    let mut locals = vec![];
    // padding moves the other locals to or across index 255 of their width
    if s.chance(1, 12) {
        let n = *s.pick(&[248u64, 250, 251, 252, 253, 254, 256]);
        let t = *s.pick(&ts);
        locals.extend((0..n).map(|_| t));
        if s.bool() {
            locals.extend((0..n).map(|_| VT::I32));
        }
    }
    let np = params.len() as u32;
    let mut pool = vec![];
    for (k, t) in ts.iter().enumerate() {
        let mut p = vec![2 * k as u32, 2 * k as u32 + 1];
        for _ in 0..2 {
            p.push(np + locals.len() as u32);
            locals.push(*t);
        }
        // which two come first (are used most) varies
        let r = s.below(4) as usize;
        p.rotate_left(r);
        pool.push((*t, p));
    }
    let mut add = |t: VT| {
        locals.push(t);
        np + locals.len() as u32 - 1
    };
    let ptr = [vec![add(VT::I32), add(VT::I32)], vec![add(VT::I64), add(VT::I64)]];
    let cnt: Vec<(VT, u32, u32)> = [VT::I32, VT::I64, VT::I32, VT::I64].iter().map(|t| (*t, add(*t), add(*t))).collect();
    let marker = add(VT::I32);
    let mut offs = vec![8 * s.below(4), 4 * s.below(40), 255 + s.below(3)];
    if s.chance(1, 20) {
        offs.push(*s.pick(&[65535u64, 65528, 65536, 0xffff_ffff, 0x7fff_ffff]));
    }
    let id: Vec<(VT, u32)> = ts.iter().enumerate().map(|(i, t)| (*t, i as u32 + 1)).collect();
    let budget = 4 + s.below(24) as i32;
    let shape = s.below(8);
    let mut p = P { s, w, ts: ts.clone(), pool, ptr, m64: m.mems.iter().map(|x| x.m64).collect(), offs, cnt, globs, marker, id, out: vec![], budget };
    for w in 0..2 {
        for i in 0..2 {
            let l = p.ptr[w][i];
            let k = 8 * p.s.below(8);
            p.e(if w == 1 { In::I64(k) } else { In::I32(k as u32) });
            p.e(In::LSet(l));
        }
    }
    p.body(3, 24);
    // results: everything, one value, or nothing
    let mut rt: Vec<VT> = vec![];
    match shape {
        0 => {}
        1 | 2 => {
            let t = p.ty();
            rt.push(t);
            p.src(t, 1);
        }
        _ => {
            for (t, l) in p.pool.clone() {
                for l in l {
                    rt.push(t);
                    p.e(In::LGet(l));
                }
            }
            rt.push(VT::I32);
            p.e(In::LGet(marker));
        }
    }
    if shape < 3 {
        // the rest is visible through globals
        let mut pre = vec![];
        for (t, l) in p.pool.clone() {
            let gs: Vec<u32> = p.globs.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
            pre.extend([In::LGet(l[0]), In::GSet(gs[0]), In::LGet(l[1]), In::GSet(gs[1])]);
        }
        pre.extend([In::LGet(marker), In::GSet(0)]);
        p.out.extend(pre);
    }
    if p.s.chance(1, 4) {
        p.e(RETURN);
    }
    let mut body = p.out;
    if s.chance(1, 3) {
        akin(s, &mut body, &mut None);
    }
    let ty = m.ty(FT { p: params.clone(), r: rt });
    m.funcs.push(Func { ty, locals, body });
    for t in &ts {
        let ty = m.ty(FT { p: vec![*t], r: vec![*t] });
        m.funcs.push(Func { ty, locals: vec![], body: vec![In::LGet(0)] });
    }
    m.export("f0", Kind::Func, 0);
    Form { m, ops: vec![], params }
}
