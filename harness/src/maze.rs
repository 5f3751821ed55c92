//! Functions made of structured control: blocks, loops and conditionals with parameters and results, arms that end
//! in every possible way, branches that carry values past operands left below, code after the end of control.

use crate::forms::Form;
use crate::ir::*;
use crate::modgen::{konst, value};
use crate::tape::Src;

struct Lab {
    tys: Vec<VT>,
    lp: bool,
}

struct Z<'a> {
    s: &'a mut Src,
    m: Module,
    ts: Vec<VT>,
    pool: Vec<(VT, Vec<u32>)>,
    /// counters: type, counter, limit
    cnt: Vec<(VT, u32, u32)>,
    /// 0: the marker, then one of each type
    globs: Vec<(VT, u32)>,
    labels: Vec<Lab>,
    res: Vec<VT>,
    budget: i32,
}

impl Z<'_> {
    fn ty(&mut self) -> VT {
        *self.s.pick(&self.ts)
    }
    fn loc(&mut self, t: VT) -> u32 {
        let p = &self.pool.iter().find(|p| p.0 == t).unwrap().1;
        p[self.s.below(p.len() as u64) as usize]
    }
    fn push(&mut self, t: VT, o: &mut Vec<In>) {
        match self.s.below(6) {
            0 if !t.is_ref() => {
                let v = value(self.s, t);
                o.push(konst(t, v));
            }
            0 => o.push(In::RefNull(t)),
            1 => {
                let g: Vec<u32> = self.globs.iter().filter(|g| g.0 == t).map(|g| g.1).collect();
                let g = *self.s.pick(&g);
                o.push(In::GGet(g));
            }
            _ => {
                let l = self.loc(t);
                o.push(In::LGet(l));
            }
        }
    }
    fn pushes(&mut self, ts: &[VT], o: &mut Vec<In>) {
        for t in ts {
            self.push(*t, o);
        }
    }
    /// marker = marker * 31 + k, or with the value on the stack
    fn mark(&mut self, o: &mut Vec<In>) {
        let k = self.s.below(100);
        o.extend([In::GGet(1), In::I64(31), In::Op(0x7e), In::I64(k), In::Op(0x7c), In::GSet(1)]);
    }
    fn fold(&mut self, t: VT, o: &mut Vec<In>) {
        match t {
            VT::I32 => o.push(In::Op(0xad)),
            VT::I64 => {}
            VT::F32 => o.extend([In::Op(0xbc), In::Op(0xad)]),
            VT::F64 => o.push(In::Op(0xbd)),
            VT::V128 => o.push(In::SimdLane(0x1d, self.s.below(2) as u8)),
            _ => o.extend([REF_IS_NULL, In::Op(0xad)]),
        }
        o.extend([In::GGet(1), In::I64(31), In::Op(0x7e), In::Op(0x7c), In::GSet(1)]);
    }
    fn cond(&mut self, o: &mut Vec<In>) {
        match self.s.below(5) {
            0 => {
                let l = self.loc(VT::I32);
                o.push(In::LGet(l));
            }
            1 => {
                let l = self.loc(VT::I32);
                o.extend([In::LGet(l), In::I32(1), In::Op(0x71)]);
            }
            2 => {
                // a bit of the path so far
                let k = self.s.below(5);
                o.extend([In::GGet(1), In::I64(k), In::Op(0x88), In::Op(0xa7), In::I32(1), In::Op(0x71)]);
            }
            3 => {
                let t = if self.ts.contains(&VT::I64) && self.s.bool() { VT::I64 } else { VT::I32 };
                let (a, b) = (self.loc(t), self.loc(t));
                let base = if t == VT::I32 { 0x46 } else { 0x51 };
                let op = base + self.s.below(10) as u8;
                let r = if self.s.bool() { In::LGet(b) } else { konst(t, value(self.s, t)) };
                o.extend([In::LGet(a), r, In::Op(op)]);
            }
            _ => {
                let l = self.loc(VT::I32);
                o.extend([In::LGet(l), In::Op(0x45)]);
            }
        }
    }
    fn bt(&mut self, p: &[VT], r: &[VT]) -> BT {
        match (p, r) {
            ([], []) if self.s.chance(3, 4) => BT::Empty,
            ([], [t]) if self.s.bool() => BT::Val(*t),
            _ => BT::Ty(self.m.ty(FT { p: p.to_vec(), r: r.to_vec() })),
        }
    }
    fn some(&mut self, max: u64) -> Vec<VT> {
        (0..self.s.below(max + 1)).map(|_| self.ty()).collect()
    }
    /// Make the stack end in `want`; with values already there or more pushed.
    fn ready(&mut self, st: &mut Vec<VT>, want: &[VT], o: &mut Vec<In>) {
        if st.ends_with(want) && !self.s.chance(1, 4) {
            return;
        }
        // a part may be there already
        let k = (0..want.len()).rev().find(|k| st.ends_with(&want[..*k])).unwrap_or(0);
        for t in &want[k..] {
            self.push(*t, o);
            st.push(*t);
        }
    }
    fn label(&mut self) -> u32 {
        let n = self.labels.len() as u64;
        // mostly the nearer ones
        if self.s.bool() { self.s.below(n.min(2)) as u32 } else { self.s.below(n) as u32 }
    }
    fn tys(&self, l: u32) -> Vec<VT> {
        self.labels[self.labels.len() - 1 - l as usize].tys.clone()
    }

    /// The body of a frame that starts with `st` and ends with `want` (or does not end).
    fn seq(&mut self, mut st: Vec<VT>, want: &[VT], round: bool) -> Vec<In> {
        let mut o = vec![];
        let mut n = 1 + self.s.below(6);
        if round {
            // a loop's parameters are used first, then the exit is tested
            for _ in 0..self.s.below(3) {
                self.simple(&mut st, &mut o);
            }
            self.check(&mut st, &mut o);
            n = 1 + self.s.below(4);
        }
        let mut dead = false;
        for _ in 0..n {
            if self.budget <= 0 || dead {
                break;
            }
            self.budget -= 1;
            match self.s.below(16) {
                0..6 => self.simple(&mut st, &mut o),
                6 => self.mark(&mut o),
                7..12 => self.construct(&mut st, &mut o),
                12 | 13 => {
                    let l = self.label();
                    let t = self.tys(l);
                    self.ready(&mut st, &t, &mut o);
                    self.cond(&mut o);
                    o.push(In::BrIf(l));
                }
                14 => {
                    let t = self.ty();
                    self.push(t, &mut o);
                    st.push(t);
                }
                _ => dead = self.terminate(&mut st, &mut o),
            }
        }
        if !dead && self.s.chance(2, 5) {
            dead = self.terminate(&mut st, &mut o);
        }
        if dead {
            self.after(&mut o);
            return o;
        }
        // exactly the results
        let keep = st.iter().zip(want).take_while(|(a, b)| a == b).count();
        for t in st[keep..].iter().rev() {
            if self.s.bool() { o.push(DROP) } else { self.fold(*t, &mut o) }
        }
        self.pushes(&want[keep..], &mut o);
        if keep > 0 && keep == want.len() && self.s.chance(1, 3) {
            let l = self.loc(want[keep - 1]);
            o.push(In::LTee(l));
        }
        o
    }

    fn simple(&mut self, st: &mut Vec<VT>, o: &mut Vec<In>) {
        let Some(t) = st.last().copied() else {
            let t = self.ty();
            self.push(t, o);
            return st.push(t);
        };
        match self.s.below(8) {
            0 => {
                let t = self.ty();
                self.push(t, o);
                st.push(t);
            }
            1 | 2 => {
                let l = self.loc(t);
                o.push(In::LTee(l));
            }
            3 => {
                let l = self.loc(t);
                o.push(In::LSet(l));
                st.pop();
            }
            4 => {
                o.push(DROP);
                st.pop();
            }
            5 => {
                // a global of the same type
                let g: Vec<u32> = self.globs.iter().filter(|g| g.0 == t).map(|g| g.1).collect();
                let g = *self.s.pick(&g);
                o.push(In::GSet(g));
                st.pop();
            }
            6 if st.len() > 1 && st[st.len() - 2] == t => {
                self.cond(o);
                o.push(if t.is_ref() || self.s.chance(1, 4) { In::SelectT(t) } else { SELECT });
                st.pop();
            }
            _ => {
                self.fold(t, o);
                st.pop();
            }
        }
    }

    /// Leave a loop after a few rounds.
    fn check(&mut self, st: &mut Vec<VT>, o: &mut Vec<In>) {
        let i = self.s.below(self.cnt.len() as u64) as usize;
        let (t, c, lim) = self.cnt[i];
        let (add, base) = if t == VT::I32 { (0x6a, 0x46) } else { (0x7c, 0x51) };
        let one = if t == VT::I32 { In::I32(1) } else { In::I64(1) };
        let ge = base + 8 + self.s.below(2) as u8;
        // forward labels only
        let fw: Vec<u32> = (0..self.labels.len() as u32).filter(|l| !self.labels[self.labels.len() - 1 - *l as usize].lp).collect();
        let bare: Vec<u32> = fw.iter().copied().filter(|l| self.tys(*l).is_empty()).collect();
        let before = self.s.chance(1, 3);
        if before {
            o.extend([In::LGet(c), one.clone(), In::Op(add), In::LSet(c)]);
        }
        if !bare.is_empty() && self.s.chance(2, 3) {
            let l = *self.s.pick(&bare);
            o.extend([In::LGet(c), In::LGet(lim), In::Op(ge), In::BrIf(l)]);
        } else if self.s.bool() {
            let l = *self.s.pick(&fw);
            let t = self.tys(l);
            let n = st.len();
            self.ready(st, &t, o);
            o.extend([In::LGet(c), In::LGet(lim), In::Op(ge), In::BrIf(l)]);
            for _ in n..st.len() {
                o.push(DROP);
            }
            st.truncate(n);
        } else {
            let mut b = vec![];
            let r = self.res.clone();
            self.pushes(&r, &mut b);
            b.push(RETURN);
            o.extend([In::LGet(c), In::LGet(lim), In::Op(ge), In::If(BT::Empty, b, None)]);
        }
        if !before {
            o.extend([In::LGet(c), one, In::Op(add), In::LSet(c)]);
        }
    }

    fn construct(&mut self, st: &mut Vec<VT>, o: &mut Vec<In>) {
        if self.labels.len() > 7 {
            return self.mark(o);
        }
        if self.s.chance(1, 8) {
            return self.counted(o);
        }
        let np = self.s.usize(4).min(st.len());
        let p = st[st.len() - np..].to_vec();
        let r = match self.s.below(6) {
            0 => vec![],
            1 | 2 => p.clone(),
            3 => self.some(1),
            _ => self.some(4),
        };
        let kind = self.s.below(6);
        let lp = kind < 2;
        if kind >= 3 {
            self.cond(o);
        }
        let bt = self.bt(&p, &r);
        self.labels.push(Lab { tys: if lp { p.clone() } else { r.clone() }, lp });
        let b = self.seq(p.clone(), &r, lp);
        let i = if lp {
            In::Loop(bt, b)
        } else if kind == 2 {
            In::Block(bt, b)
        } else {
            let e = if p == r && self.s.bool() { None } else { Some(self.seq(p.clone(), &r, false)) };
            In::If(bt, b, e)
        };
        self.labels.pop();
        o.push(i);
        st.truncate(st.len() - np);
        st.extend_from_slice(&r);
    }

    /// A counted loop tested first or last, up or down, whose exit may lie further out, with code between.
    fn counted(&mut self, o: &mut Vec<In>) {
        let i = self.s.below(self.cnt.len() as u64) as usize;
        let (t, c, lim) = self.cnt[i];
        let wide = t == VT::I64;
        let (add, sub, base) = if wide { (0x7c, 0x7d, 0x51) } else { (0x6a, 0x6b, 0x46) };
        let k = |v: u64| if wide { In::I64(v) } else { In::I32(v as u32) };
        let down = self.s.chance(1, 3);
        let by_const = self.s.chance(1, 3);
        let rounds = 1 + self.s.below(5);
        let mut pre = vec![];
        if down {
            pre.extend([k(rounds), In::LSet(c)]);
        } else if self.s.bool() {
            pre.extend([k(0), In::LSet(c)]);
        }
        let other = if by_const { k(rounds) } else { In::LGet(lim) };
        let step = if down { vec![In::LGet(c), k(1), In::Op(sub), In::LSet(c)] } else { vec![In::LGet(c), k(1), In::Op(add), In::LSet(c)] };
        let mut work = vec![];
        for _ in 0..self.s.range(1, 2) {
            self.mark(&mut work);
        }
        // frames around the loop, with code after each
        let around = self.s.below(3) as u32;
        let out = self.s.below(around as u64 + 1) as u32;
        let eqz = if wide { 0x50 } else { 0x45 };
        let mut b = vec![];
        if self.s.chance(2, 3) {
            // while
            let mut t = if down { vec![In::LGet(c), In::Op(eqz)] } else { vec![In::LGet(c), other, In::Op(base + 8 + self.s.below(2) as u8)] };
            if !down && self.s.chance(1, 4) {
                // the operands in the other order, the answer inverted
                t = vec![t[1].clone(), t[0].clone(), In::Op(base + 4 + self.s.below(2) as u8), In::Op(0x45)];
            }
            let first = self.s.chance(1, 4);
            if first {
                b.extend(work.clone());
            }
            b.extend(t);
            b.push(In::BrIf(out + 1));
            b.extend(step);
            if !first {
                b.extend(work);
            }
            b.push(In::Br(0));
        } else {
            b.extend(work);
            b.extend(step);
            if down {
                b.push(In::LGet(c));
                if wide {
                    b.extend([In::I64(0), In::Op(0x52)]);
                }
            } else {
                b.extend([In::LGet(c), other, In::Op(base + 2 + self.s.below(2) as u8)]);
            }
            b.push(In::BrIf(0));
            if self.s.bool() {
                b.push(In::Br(out + 1));
            }
        }
        // one frame always, so that the exit has a place to go to
        let mut x = vec![In::Block(BT::Empty, vec![In::Loop(BT::Empty, b)])];
        for _ in 0..around {
            self.mark(&mut x);
            x = vec![In::Block(BT::Empty, x)];
        }
        o.extend(pre);
        o.extend(x);
        self.mark(o);
    }

    /// Control goes elsewhere for good.
    fn terminate(&mut self, st: &mut Vec<VT>, o: &mut Vec<In>) -> bool {
        match self.s.below(12) {
            0..5 => {
                let l = self.label();
                let t = self.tys(l);
                self.ready(st, &t, o);
                o.push(In::Br(l));
            }
            5..10 => {
                let l = self.label();
                let t = self.tys(l);
                let same: Vec<u32> = (0..self.labels.len() as u32).filter(|x| self.tys(*x) == t).collect();
                self.ready(st, &t, o);
                let wide = self.s.chance(1, 8);
                let n = if wide { self.s.range(100, 700) } else { *self.s.pick(&[0, 1, 2, 3, 4, 7]) };
                let v: Vec<u32> = (0..n).map(|_| *self.s.pick(&same)).collect();
                let d = *self.s.pick(&same);
                if wide {
                    // all over the table, and a little beyond it
                    if self.s.bool() {
                        o.push(In::I32(self.s.below(n + 3) as u32));
                    } else {
                        let k = self.s.u32() | 1;
                        o.extend([In::GGet(1), In::Op(0xa7), In::I32(k), In::Op(0x6c), In::I32(11), In::Op(0x76), In::I32(1023), In::Op(0x71)]);
                    }
                } else {
                    match self.s.below(3) {
                        0 => {
                            let x = self.loc(VT::I32);
                            o.push(In::LGet(x));
                        }
                        1 => {
                            let x = self.loc(VT::I32);
                            o.extend([In::LGet(x), In::I32(7), In::Op(0x71)]);
                        }
                        _ => o.extend([In::GGet(1), In::Op(0xa7), In::I32(3), In::Op(0x71)]),
                    }
                }
                o.push(In::BrTable(v, d));
            }
            10 => {
                let r = self.res.clone();
                self.ready(st, &r, o);
                o.push(RETURN);
            }
            _ => o.push(UNREACHABLE),
        }
        true
    }

    /// Code that cannot be reached; the stack is polymorphic afterwards.
    fn after(&mut self, o: &mut Vec<In>) {
        if self.s.chance(2, 3) {
            return;
        }
        for _ in 0..self.s.range(1, 3) {
            match self.s.below(8) {
                0 => o.push(DROP),
                1 => {
                    let t = self.ty();
                    let l = self.loc(t);
                    o.push(if self.s.bool() { In::LSet(l) } else { In::LTee(l) });
                    if matches!(o.last(), Some(In::LTee(_))) {
                        o.push(DROP);
                    }
                }
                2 => {
                    let l = self.label();
                    o.push(In::Br(l));
                }
                3 => {
                    let l = self.label();
                    let n = self.tys(l).len();
                    o.push(In::BrIf(l));
                    o.extend((0..n).map(|_| DROP));
                }
                4 => self.mark(o),
                5 if self.budget > 0 => {
                    self.budget -= 1;
                    let mut st = vec![];
                    self.construct(&mut st, o);
                    o.extend(st.iter().map(|_| DROP));
                }
                6 => {
                    let t = self.ty();
                    self.push(t, o);
                    o.push(DROP);
                }
                _ => {
                    let l = self.label();
                    let t = self.tys(l);
                    self.pushes(&t, o);
                    o.extend([In::I32(0), In::BrTable(vec![l, l], l)]);
                }
            }
        }
    }
}

pub fn maze(s: &mut Src, simd: bool) -> Form {
    let mut ts = vec![VT::I32, VT::I64];
    if s.chance(1, 3) {
        ts.push(*s.pick(&[VT::F32, VT::F64]));
    }
    if simd && s.chance(1, 2) {
        ts.push(VT::V128);
    }
    if s.chance(1, 5) {
        ts.push(VT::Extern);
    }
    let mut m = Module::default();
    m.globals.push((GlobTy { t: VT::I32, m: true }, vec![In::I32(0)]));
    m.export("gf", Kind::Glob, 0);
    m.globals.push((GlobTy { t: VT::I64, m: true }, vec![In::I64(1)]));
    m.export("path", Kind::Glob, 1);
    let mut globs = vec![];
    for t in &ts {
        globs.push((*t, m.globals.len() as u32));
        let i = if t.is_ref() { vec![In::RefNull(*t)] } else { vec![konst(*t, value(s, *t))] };
        m.globals.push((GlobTy { t: *t, m: true }, i));
    }
    let params: Vec<VT> = ts.iter().flat_map(|t| [*t, *t]).collect();
    let np = params.len() as u32;
    let mut locals = vec![];
    let mut pool = vec![];
    for (k, t) in ts.iter().enumerate() {
        let mut p = vec![2 * k as u32, 2 * k as u32 + 1];
        p.push(np + locals.len() as u32);
        locals.push(*t);
        pool.push((*t, p));
    }
    let mut cnt = vec![];
    for t in [VT::I32, VT::I64] {
        cnt.push((t, np + locals.len() as u32, np + locals.len() as u32 + 1));
        locals.extend([t, t]);
    }
    let mut z = Z { s, m, ts, pool, cnt: cnt.clone(), globs, labels: vec![], res: vec![], budget: 0 };
    z.budget = 6 + z.s.below(30) as i32;
    z.res = z.some(4);
    let res = z.res.clone();
    let mut body = vec![];
    for (t, _, lim) in cnt {
        let k = 1 + z.s.below(12);
        body.extend([if t == VT::I32 { In::I32(k as u32) } else { In::I64(k) }, In::LSet(lim)]);
    }
    z.labels.push(Lab { tys: res.clone(), lp: false });
    // two parts, so that a frame's end is followed by code that depends on it
    let mut st = vec![];
    for _ in 0..z.s.range(1, 4) {
        z.construct(&mut st, &mut body);
    }
    let rest = z.seq(st, &res, false);
    body.extend(rest);
    let Z { mut m, .. } = z;
    let ty = m.ty(FT { p: params.clone(), r: res });
    m.funcs.push(Func { ty, locals, body });
    m.export("f0", Kind::Func, 0);
    Form { m, ops: vec![], params }
}
