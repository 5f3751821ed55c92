//! Binary encoder for `ir::Module`.

use crate::ir::*;

pub fn leb(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

pub fn sleb(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

fn name(o: &mut Vec<u8>, s: &str) {
    leb(o, s.len() as u64);
    o.extend_from_slice(s.as_bytes());
}

fn limits(o: &mut Vec<u8>, is64: bool, min: u64, max: Option<u64>, page: Option<u32>) {
    o.push(max.is_some() as u8 | (is64 as u8) << 2 | (page.is_some() as u8) << 3);
    leb(o, min);
    if let Some(m) = max {
        leb(o, m);
    }
    if let Some(p) = page {
        leb(o, p as u64);
    }
}

fn tabty(o: &mut Vec<u8>, t: &TabTy) {
    o.push(t.el.byte());
    limits(o, t.t64, t.min, t.max, None);
}

fn memty(o: &mut Vec<u8>, t: &MemTy) {
    limits(o, t.m64, t.min, t.max, t.page);
}

fn memarg(o: &mut Vec<u8>, m: &MA) {
    if m.mem != 0 {
        leb(o, (m.align | 0x40) as u64);
        leb(o, m.mem as u64);
    } else {
        leb(o, m.align as u64);
    }
    leb(o, m.off);
}

fn bt(o: &mut Vec<u8>, b: &BT) {
    match b {
        BT::Empty => o.push(0x40),
        BT::Val(t) => o.push(t.byte()),
        BT::Ty(i) => sleb(o, *i as i64),
    }
}

pub fn instrs(o: &mut Vec<u8>, b: &[In]) {
    for i in b {
        instr(o, i);
    }
}

fn fd(o: &mut Vec<u8>, op: u32) {
    o.push(0xfd);
    leb(o, op as u64);
}

fn fc(o: &mut Vec<u8>, op: u32) {
    o.push(0xfc);
    leb(o, op as u64);
}

pub fn instr(o: &mut Vec<u8>, i: &In) {
    match i {
        In::Op(x) => o.push(*x),
        In::Fc(x) => fc(o, *x),
        In::I32(v) => {
            o.push(0x41);
            sleb(o, *v as i32 as i64);
        }
        In::I64(v) => {
            o.push(0x42);
            sleb(o, *v as i64);
        }
        In::F32(v) => {
            o.push(0x43);
            o.extend_from_slice(&v.to_le_bytes());
        }
        In::F64(v) => {
            o.push(0x44);
            o.extend_from_slice(&v.to_le_bytes());
        }
        In::V128(v) => {
            fd(o, 0x0c);
            o.extend_from_slice(&v.to_le_bytes());
        }
        In::Block(t, b) => {
            o.push(0x02);
            bt(o, t);
            instrs(o, b);
            o.push(0x0b);
        }
        In::Loop(t, b) => {
            o.push(0x03);
            bt(o, t);
            instrs(o, b);
            o.push(0x0b);
        }
        In::If(t, b, e) => {
            o.push(0x04);
            bt(o, t);
            instrs(o, b);
            if let Some(e) = e {
                o.push(0x05);
                instrs(o, e);
            }
            o.push(0x0b);
        }
        In::Br(l) => {
            o.push(0x0c);
            leb(o, *l as u64);
        }
        In::BrIf(l) => {
            o.push(0x0d);
            leb(o, *l as u64);
        }
        In::BrTable(ls, d) => {
            o.push(0x0e);
            leb(o, ls.len() as u64);
            for l in ls {
                leb(o, *l as u64);
            }
            leb(o, *d as u64);
        }
        In::Call(f) => {
            o.push(0x10);
            leb(o, *f as u64);
        }
        In::CallInd { ty, tab } => {
            o.push(0x11);
            leb(o, *ty as u64);
            leb(o, *tab as u64);
        }
        In::RetCall(f) => {
            o.push(0x12);
            leb(o, *f as u64);
        }
        In::RetCallInd { ty, tab } => {
            o.push(0x13);
            leb(o, *ty as u64);
            leb(o, *tab as u64);
        }
        In::SelectT(t) => o.extend_from_slice(&[0x1c, 1, t.byte()]),
        In::LGet(x) => {
            o.push(0x20);
            leb(o, *x as u64);
        }
        In::LSet(x) => {
            o.push(0x21);
            leb(o, *x as u64);
        }
        In::LTee(x) => {
            o.push(0x22);
            leb(o, *x as u64);
        }
        In::GGet(x) => {
            o.push(0x23);
            leb(o, *x as u64);
        }
        In::GSet(x) => {
            o.push(0x24);
            leb(o, *x as u64);
        }
        In::TGet(x) => {
            o.push(0x25);
            leb(o, *x as u64);
        }
        In::TSet(x) => {
            o.push(0x26);
            leb(o, *x as u64);
        }
        In::TSize(x) => {
            fc(o, 16);
            leb(o, *x as u64);
        }
        In::TGrow(x) => {
            fc(o, 15);
            leb(o, *x as u64);
        }
        In::TFill(x) => {
            fc(o, 17);
            leb(o, *x as u64);
        }
        In::TCopy { d, s } => {
            fc(o, 14);
            leb(o, *d as u64);
            leb(o, *s as u64);
        }
        In::TInit { elem, tab } => {
            fc(o, 12);
            leb(o, *elem as u64);
            leb(o, *tab as u64);
        }
        In::ElemDrop(x) => {
            fc(o, 13);
            leb(o, *x as u64);
        }
        In::Mem(op, m) => {
            o.push(*op);
            memarg(o, m);
        }
        In::MSize(m) => {
            o.push(0x3f);
            leb(o, *m as u64);
        }
        In::MGrow(m) => {
            o.push(0x40);
            leb(o, *m as u64);
        }
        In::MFill(m) => {
            fc(o, 11);
            leb(o, *m as u64);
        }
        In::MCopy { d, s } => {
            fc(o, 10);
            leb(o, *d as u64);
            leb(o, *s as u64);
        }
        In::MInit { data, mem } => {
            fc(o, 8);
            leb(o, *data as u64);
            leb(o, *mem as u64);
        }
        In::DataDrop(x) => {
            fc(o, 9);
            leb(o, *x as u64);
        }
        In::RefNull(t) => o.extend_from_slice(&[0xd0, t.byte()]),
        In::RefFunc(f) => {
            o.push(0xd2);
            leb(o, *f as u64);
        }
        In::Simd(op) => fd(o, *op),
        In::SimdLane(op, l) => {
            fd(o, *op);
            o.push(*l);
        }
        In::SimdMem(op, m) => {
            fd(o, *op);
            memarg(o, m);
        }
        In::SimdMemLane(op, m, l) => {
            fd(o, *op);
            memarg(o, m);
            o.push(*l);
        }
        In::Shuffle(l) => {
            fd(o, 0x0d);
            o.extend_from_slice(l);
        }
    }
}

fn expr(o: &mut Vec<u8>, b: &[In]) {
    instrs(o, b);
    o.push(0x0b);
}

fn section(o: &mut Vec<u8>, id: u8, body: Vec<u8>) {
    o.push(id);
    leb(o, body.len() as u64);
    o.extend_from_slice(&body);
}

fn uses_data(b: &[In]) -> bool {
    b.iter().any(|i| match i {
        In::MInit { .. } | In::DataDrop(_) => true,
        In::Block(_, b) | In::Loop(_, b) => uses_data(b),
        In::If(_, b, e) => uses_data(b) || e.as_ref().is_some_and(|e| uses_data(e)),
        _ => false,
    })
}

pub fn func_body(f: &Func) -> Vec<u8> {
    let mut o = vec![];
    // run-length encode locals
    let mut runs: Vec<(u64, VT)> = vec![];
    for l in &f.locals {
        match runs.last_mut() {
            Some(r) if r.1 == *l => r.0 += 1,
            _ => runs.push((1, *l)),
        }
    }
    leb(&mut o, runs.len() as u64);
    for (n, t) in runs {
        leb(&mut o, n);
        o.push(t.byte());
    }
    expr(&mut o, &f.body);
    o
}

pub fn encode(m: &Module) -> Vec<u8> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    let customs = |o: &mut Vec<u8>, pos: u8| {
        for (_, n, b) in m.customs.iter().filter(|c| c.0 == pos) {
            let mut s = vec![];
            name(&mut s, n);
            s.extend_from_slice(b);
            section(o, 0, s);
        }
    };
    customs(&mut o, 0);
    if !m.types.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.types.len() as u64);
        for t in &m.types {
            s.push(0x60);
            leb(&mut s, t.p.len() as u64);
            s.extend(t.p.iter().map(|x| x.byte()));
            leb(&mut s, t.r.len() as u64);
            s.extend(t.r.iter().map(|x| x.byte()));
        }
        section(&mut o, 1, s);
    }
    customs(&mut o, 1);
    if !m.imports.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.imports.len() as u64);
        for i in &m.imports {
            name(&mut s, &i.module);
            name(&mut s, &i.name);
            match &i.desc {
                Desc::Func(t) => {
                    s.push(0);
                    leb(&mut s, *t as u64);
                }
                Desc::Tab(t) => {
                    s.push(1);
                    tabty(&mut s, t);
                }
                Desc::Mem(t) => {
                    s.push(2);
                    memty(&mut s, t);
                }
                Desc::Glob(g) => {
                    s.push(3);
                    s.push(g.t.byte());
                    s.push(g.m as u8);
                }
            }
        }
        section(&mut o, 2, s);
    }
    customs(&mut o, 2);
    if !m.funcs.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.funcs.len() as u64);
        for f in &m.funcs {
            leb(&mut s, f.ty as u64);
        }
        section(&mut o, 3, s);
    }
    customs(&mut o, 3);
    if !m.tables.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.tables.len() as u64);
        for (t, init) in &m.tables {
            if let Some(e) = init {
                s.extend_from_slice(&[0x40, 0]);
                tabty(&mut s, t);
                expr(&mut s, e);
            } else {
                tabty(&mut s, t);
            }
        }
        section(&mut o, 4, s);
    }
    customs(&mut o, 4);
    if !m.mems.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.mems.len() as u64);
        for t in &m.mems {
            memty(&mut s, t);
        }
        section(&mut o, 5, s);
    }
    customs(&mut o, 5);
    if !m.globals.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.globals.len() as u64);
        for (g, e) in &m.globals {
            s.push(g.t.byte());
            s.push(g.m as u8);
            expr(&mut s, e);
        }
        section(&mut o, 6, s);
    }
    customs(&mut o, 6);
    if !m.exports.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.exports.len() as u64);
        for e in &m.exports {
            name(&mut s, &e.name);
            s.push(e.kind as u8);
            leb(&mut s, e.idx as u64);
        }
        section(&mut o, 7, s);
    }
    customs(&mut o, 7);
    if let Some(f) = m.start {
        let mut s = vec![];
        leb(&mut s, f as u64);
        section(&mut o, 8, s);
    }
    customs(&mut o, 8);
    if !m.elems.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.elems.len() as u64);
        for e in &m.elems {
            let exprs = matches!(e.items, ElemItems::Exprs(..));
            let bit2 = if exprs { 4 } else { 0 };
            // the short forms (flags 0 and 4) only exist for table 0 and funcref
            match &e.mode {
                ElemMode::Active { tab, off } => {
                    let short = *tab == 0 && e.vt() == VT::Func;
                    leb(&mut s, bit2 | if short { 0 } else { 2 });
                    if !short {
                        leb(&mut s, *tab as u64);
                    }
                    expr(&mut s, off);
                    if !short {
                        s.push(if exprs { e.vt().byte() } else { 0 });
                    }
                }
                ElemMode::Passive => {
                    leb(&mut s, bit2 | 1);
                    s.push(if exprs { e.vt().byte() } else { 0 });
                }
                ElemMode::Declared => {
                    leb(&mut s, bit2 | 3);
                    s.push(if exprs { e.vt().byte() } else { 0 });
                }
            }
            match &e.items {
                ElemItems::Funcs(f) => {
                    leb(&mut s, f.len() as u64);
                    for x in f {
                        leb(&mut s, *x as u64);
                    }
                }
                ElemItems::Exprs(_, es) => {
                    leb(&mut s, es.len() as u64);
                    for x in es {
                        expr(&mut s, x);
                    }
                }
            }
        }
        section(&mut o, 9, s);
    }
    customs(&mut o, 9);
    if m.data_count || m.funcs.iter().any(|f| uses_data(&f.body)) {
        let mut s = vec![];
        leb(&mut s, m.datas.len() as u64);
        section(&mut o, 12, s);
    }
    customs(&mut o, 10);
    if !m.funcs.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.funcs.len() as u64);
        for f in &m.funcs {
            let b = func_body(f);
            leb(&mut s, b.len() as u64);
            s.extend_from_slice(&b);
        }
        section(&mut o, 10, s);
    }
    customs(&mut o, 11);
    if !m.datas.is_empty() {
        let mut s = vec![];
        leb(&mut s, m.datas.len() as u64);
        for d in &m.datas {
            match &d.active {
                Some((0, off)) => {
                    s.push(0);
                    expr(&mut s, off);
                }
                Some((mem, off)) => {
                    s.push(2);
                    leb(&mut s, *mem as u64);
                    expr(&mut s, off);
                }
                None => s.push(1),
            }
            leb(&mut s, d.bytes.len() as u64);
            s.extend_from_slice(&d.bytes);
        }
        section(&mut o, 11, s);
    }
    customs(&mut o, 12);
    o
}
