//! Makes a module big in one dimension or another without changing what it does: indices, counts, nesting, jump
//! distances and names beyond one byte, two bytes or one LEB byte.

use crate::ir::*;
use crate::tape::Src;

#[derive(Default, Clone, Copy)]
struct Shift {
    types: u32,
    funcs: (u32, u32),
    tabs: (u32, u32),
    mems: (u32, u32),
    globs: (u32, u32),
    elems: u32,
    datas: u32,
}

impl Shift {
    fn at(i: &mut u32, (from, by): (u32, u32)) {
        if *i >= from {
            *i += by;
        }
    }
    fn bt(&self, b: &mut BT) {
        if let BT::Ty(t) = b {
            *t += self.types;
        }
    }
    fn code(&self, c: &mut [In]) {
        for x in c {
            match x {
                In::Block(b, c) | In::Loop(b, c) => {
                    self.bt(b);
                    self.code(c);
                }
                In::If(b, c, e) => {
                    self.bt(b);
                    self.code(c);
                    if let Some(e) = e {
                        self.code(e);
                    }
                }
                In::Call(f) | In::RetCall(f) | In::RefFunc(f) => Self::at(f, self.funcs),
                In::CallInd { ty, tab } | In::RetCallInd { ty, tab } => {
                    *ty += self.types;
                    Self::at(tab, self.tabs);
                }
                In::GGet(g) | In::GSet(g) => Self::at(g, self.globs),
                In::TGet(t) | In::TSet(t) | In::TSize(t) | In::TGrow(t) | In::TFill(t) => Self::at(t, self.tabs),
                In::TCopy { d, s } => {
                    Self::at(d, self.tabs);
                    Self::at(s, self.tabs);
                }
                In::TInit { elem, tab } => {
                    *elem += self.elems;
                    Self::at(tab, self.tabs);
                }
                In::ElemDrop(e) => *e += self.elems,
                In::Mem(_, m) | In::SimdMem(_, m) | In::SimdMemLane(_, m, _) => Self::at(&mut m.mem, self.mems),
                In::MSize(m) | In::MGrow(m) | In::MFill(m) => Self::at(m, self.mems),
                In::MCopy { d, s } => {
                    Self::at(d, self.mems);
                    Self::at(s, self.mems);
                }
                In::MInit { data, mem } => {
                    *data += self.datas;
                    Self::at(mem, self.mems);
                }
                In::DataDrop(d) => *d += self.datas,
                _ => {}
            }
        }
    }
    fn module(&self, m: &mut Module) {
        for im in &mut m.imports {
            if let Desc::Func(t) = &mut im.desc {
                *t += self.types;
            }
        }
        for f in &mut m.funcs {
            f.ty += self.types;
            self.code(&mut f.body);
        }
        for (_, i) in &mut m.tables {
            if let Some(i) = i {
                self.code(i);
            }
        }
        for (_, i) in &mut m.globals {
            self.code(i);
        }
        for e in &mut m.exports {
            match e.kind {
                Kind::Func => Self::at(&mut e.idx, self.funcs),
                Kind::Tab => Self::at(&mut e.idx, self.tabs),
                Kind::Mem => Self::at(&mut e.idx, self.mems),
                Kind::Glob => Self::at(&mut e.idx, self.globs),
            }
        }
        if let Some(f) = &mut m.start {
            Self::at(f, self.funcs);
        }
        for e in &mut m.elems {
            if let ElemMode::Active { tab, off } = &mut e.mode {
                Self::at(tab, self.tabs);
                self.code(off);
            }
            match &mut e.items {
                ElemItems::Funcs(f) => f.iter_mut().for_each(|f| Self::at(f, self.funcs)),
                ElemItems::Exprs(_, x) => x.iter_mut().for_each(|x| self.code(x)),
            }
        }
        for d in &mut m.datas {
            if let Some((mem, off)) = &mut d.active {
                Self::at(mem, self.mems);
                self.code(off);
            }
        }
    }
}

/// Counts around the places where an encoding gets longer.
fn count(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => s.range(1, 6) as u32,
        1 | 2 => s.range(56, 70) as u32,
        3 | 4 => s.range(120, 132) as u32,
        5 => s.range(132, 300) as u32,
        _ => s.range(248, 262) as u32,
    }
}

/// Returns the new index of the global `gf`.
pub fn stretch(s: &mut Src, m: &mut Module, gf: Option<u32>, big: bool) -> Option<u32> {
    let what = 1 + s.below(1023);
    let has = |k: u32| what >> k & 1 == 1;
    let mut sh = Shift::default();
    let (nf, nt, nm, ng) = (m.n_imp(Kind::Func), m.n_imp(Kind::Tab), m.n_imp(Kind::Mem), m.n_imp(Kind::Glob));
    if has(0) {
        sh.types = count(s);
    }
    if has(1) {
        sh.funcs = (nf, count(s));
        if big && s.chance(1, 6) {
            sh.funcs.1 += 65_300;
        }
    }
    if has(2) {
        let room = 90u32.saturating_sub(m.all_tabs().len() as u32);
        sh.tabs = (nt, count(s).min(room));
    }
    if has(3) {
        let room = 90u32.saturating_sub(m.all_mems().len() as u32);
        sh.mems = (nm, count(s).min(room));
    }
    if has(4) {
        sh.globs = (ng, count(s));
        if big && s.chance(1, 6) {
            sh.globs.1 += 65_300;
        }
    }
    if has(5) {
        sh.elems = count(s);
    }
    if has(6) {
        sh.datas = count(s);
    }
    sh.module(m);
    // the newcomers
    m.types.splice(
        0..0,
        (0..sh.types).map(|i| FT {
            p: (0..i % 9).map(|k| [VT::I32, VT::I64, VT::F64][((i >> k) % 3) as usize]).collect(),
            r: if i % 2 == 0 { vec![] } else { vec![VT::I64] },
        }),
    );
    if sh.funcs.1 > 0 {
        let t = m.ty(FT { p: vec![], r: vec![VT::I32] });
        m.funcs.splice(0..0, (0..sh.funcs.1).map(|i| Func { ty: t, locals: vec![], body: vec![In::I32(i.wrapping_mul(0x9e37_79b9))] }));
    }
    m.tables.splice(
        0..0,
        (0..sh.tabs.1).map(|i| (TabTy { t64: false, el: if i % 3 == 0 { VT::Extern } else { VT::Func }, min: (i % 3) as u64, max: None }, None)),
    );
    m.mems.splice(0..0, (0..sh.mems.1).map(|i| MemTy { m64: i % 5 == 4, min: 0, max: if i % 2 == 0 { Some(1) } else { None }, page: None }));
    m.globals.splice(0..0, (0..sh.globs.1).map(|i| (GlobTy { t: VT::I32, m: i % 2 == 0 }, vec![In::I32(i)])));
    m.elems.splice(
        0..0,
        (0..sh.elems).map(|i| Elem {
            mode: if i % 4 == 3 { ElemMode::Declared } else { ElemMode::Passive },
            items: ElemItems::Exprs(VT::Extern, vec![vec![In::RefNull(VT::Extern)]; (i % 3) as usize]),
        }),
    );
    m.datas.splice(0..0, (0..sh.datas).map(|i| Data { active: None, bytes: vec![i as u8; (i % 5) as usize] }));
    let gf = gf.map(|g| if g >= ng { g + sh.globs.1 } else { g });
    // names longer than one length byte
    if has(7) && !m.exports.is_empty() {
        for _ in 0..s.range(1, 4) {
            let e = s.usize(m.exports.len());
            let e = m.exports[e].clone();
            let n = count(s) as usize;
            let name = format!("{}{}", e.name, ["x", "é", "\u{10348}"][s.usize(3)].repeat(n));
            if m.exports.iter().all(|x| x.name != name) {
                m.export(name, e.kind, e.idx);
            }
        }
    }
    let own = sh.funcs.1 as usize..m.funcs.len();
    if !own.is_empty() {
        let f = own.start + s.usize(own.len());
        let r = m.types[m.funcs[f].ty as usize].r.clone();
        // a body inside many blocks
        if has(8) {
            let bt = match r.len() {
                0 => BT::Empty,
                1 => BT::Val(r[0]),
                _ => BT::Ty(m.ty(FT { p: vec![], r })),
            };
            for _ in 0..count(s).min(200) {
                let b = std::mem::take(&mut m.funcs[f].body);
                m.funcs[f].body = vec![In::Block(bt.clone(), b)];
            }
        }
        // code that is jumped over
        if has(9) {
            let n = match s.below(if big { 4 } else { 3 }) {
                0 => s.range(60, 140),
                1 => s.range(250, 600),
                2 => s.range(16_000, 17_000),
                _ => s.range(32_700, 33_500),
            };
            far(&mut m.funcs[f].body, gf, n, s.below(3));
        }
    }
    for f in &mut m.funcs {
        tables(&mut f.body, &mut |ts, d| {
            if s.chance(1, 3) {
                let n = count(s) as usize * if big && s.chance(1, 8) { 300 } else { 1 };
                ts.resize(ts.len() + n, d);
            }
        });
    }
    gf
}

/// Puts `n` instruction pairs that never run into the body: in front, or inside its first blocks.
fn far(body: &mut Vec<In>, gf: Option<u32>, n: u64, depth: u64) {
    if depth > 0 {
        for x in body.iter_mut() {
            match x {
                In::Block(_, b) | In::Loop(_, b) | In::If(_, b, _) => return far(b, gf, n, depth - 1),
                _ => {}
            }
        }
    }
    let mut skipped = Vec::with_capacity(2 * n as usize);
    for i in 0..n {
        skipped.push(In::I32(i as u32));
        skipped.push(gf.map_or(In::BrIf(0), In::GSet));
    }
    body.splice(0..0, [In::I32(0), In::If(BT::Empty, skipped, None)]);
}

fn tables(c: &mut [In], f: &mut impl FnMut(&mut Vec<u32>, u32)) {
    for x in c {
        match x {
            In::Block(_, c) | In::Loop(_, c) => tables(c, f),
            In::If(_, c, e) => {
                tables(c, f);
                if let Some(e) = e {
                    tables(e, f);
                }
            }
            In::BrTable(ts, d) => {
                let d = *d;
                f(ts, d);
            }
            _ => {}
        }
    }
}
