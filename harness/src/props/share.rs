//! P01: modules and engines are shared between stores and threads; stores are independent.

use super::variants::{any_prof, some_drive};
use crate::relay::{self, Mix};
use crate::runner::{Cx, Prop, R, Stop, discard, fail, guarded};
use crate::tape::Src;
use crate::tw::{Share, Variant};
use crate::world::{self, Plan};
use std::sync::{Arc, Barrier, Mutex};
use tinywasm::engine::FuelPolicy;
use tinywasm::types::{GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Engine, Global, Memory, Store, Table};

pub const P01: Prop = Prop {
    id: "P01",
    quick: 12_000,
    thorough: 1_500_000,
    rule: "at least two threads ran histories of at least 20 instructions on shared modules at the same time",
    assumptions: &["a difference counts only when the same history agrees with the reference model on one thread"],
    case: p01,
    probes: &[],
};

/// What a run says about itself; equal for equal histories.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    steps: u64,
    suspends: u64,
    completed: u64,
    trapped: u64,
}

fn one(s: &mut Src, share: &Arc<Share>, relayed: bool) -> (Seen, R, String, Vec<u8>) {
    let mut cx = Cx::default();
    let mut v = Variant::any(s);
    if s.bool() {
        v.drive = some_drive(s);
    }
    let timed = matches!(v.drive, crate::tw::Drive::Time | crate::tw::Drive::Mixed(_));
    v.share = Some(share.clone());
    let (w, r) = if relayed {
        let mix = Mix { tail: 2, spin: s.below(4), ..Mix::default() };
        relay::history("P01", mix, v, s, &mut cx, None)
    } else {
        let mut prof = any_prof(s);
        prof.trap = 60;
        prof.segs = prof.segs.max(2);
        let plan = Plan { prof, host_calls: s.chance(1, 3), host_funcs: 2, w_inst: 3, max_insts: 4, ..Plan::default() };
        world::history("P01", plan, v, s, &mut cx, None)
    };
    let seen = Seen {
        steps: w.ms.c.steps,
        // time slices end where they end
        suspends: if timed { 0 } else { w.tw.suspends },
        completed: w.completed,
        trapped: w.trapped,
    };
    (seen, r, w.sample(), w.loaded.iter().flat_map(|l| l.wasm.iter().copied()).collect())
}

fn p01(s: &mut Src, cx: &mut Cx) -> R {
    let weighted = s.bool();
    let policy = if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction };
    let share = Arc::new(Share { modules: Mutex::default(), engine: Engine::new(Variant::any(s).cfg.with_fuel_policy(policy)) });
    // one or two histories, each first run alone
    let mut tapes = vec![];
    let mut alone = vec![];
    let mut key = vec![];
    for _ in 0..s.range(1, 2) {
        let relayed = s.chance(1, 3);
        let start = s.used();
        let (seen, r, what, bytes) = one(s, &share, relayed);
        if let Err(Stop::Fail(_)) = r {
            return discard("the history differs from the model on one thread");
        }
        tapes.push((s.tape[start.min(s.tape.len())..s.used().min(s.tape.len())].to_vec(), relayed));
        alone.push((seen, what));
        key.extend(bytes);
    }
    let n = s.range(2, 4) as usize;
    let stores = s.range(1, 40) as usize;
    let gate = Arc::new(Barrier::new(n));
    let handles: Arc<Mutex<Vec<(usize, usize, Global, Memory, Table)>>> = Arc::default();
    let results: Vec<(usize, Result<(Seen, R), String>, Vec<String>)> = std::thread::scope(|sc| {
        let threads: Vec<_> = (0..n)
            .map(|t| {
                let (tape, relayed) = tapes[t % tapes.len()].clone();
                let (share, gate, handles) = (share.clone(), gate.clone(), handles.clone());
                let run = move || {
                    gate.wait();
                    let r = guarded(|| {
                        let (seen, r, ..) = one(&mut Src::replay(tape), &share, relayed);
                        (seen, r)
                    });
                    gate.wait();
                    let odd = guarded(|| distinct(t, stores, &share, &gate, &handles)).unwrap_or_else(|p| vec![p]);
                    (t, r, odd)
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, run).expect("spawn")
            })
            .collect();
        threads.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    for (t, r, odd) in results {
        let (seen, what) = &alone[t % alone.len()];
        match r {
            Err(p) => return fail("panic on a thread", format!("thread {t} of {n}: {p}\n{what}")),
            Ok((_, Err(Stop::Fail(f)))) => {
                return fail(format!("on several threads: {}", f.sig), format!("thread {t} of {n} (alone it behaves as specified): {}", f.detail));
            }
            Ok((s2, _)) if s2 != *seen => {
                return fail("not the same run again", format!("thread {t} of {n}: alone {seen:?}, together {s2:?}\n{what}"));
            }
            _ => {}
        }
        if let Some(o) = odd.first() {
            return fail("stores are not distinct", format!("thread {t} of {n}, {stores} stores each: {o}"));
        }
    }
    // the modules are what they were
    for (wasm, m) in share.modules.lock().unwrap().iter() {
        let Ok(fresh) = Variant::default().load(wasm) else {
            return fail("module unusable afterwards", crate::world::hex(wasm));
        };
        if fresh == fresh.clone() && *m != fresh {
            return fail("a shared module changed", crate::world::hex(wasm));
        }
    }
    cx.label_n("threads", n as u64);
    cx.label_n("stores made at the same time", (n * stores) as u64);
    cx.label_n("modules shared", share.modules.lock().unwrap().len() as u64);
    if alone.iter().all(|a| a.0.steps >= 20) {
        cx.nontrivial(&key);
    }
    cx.sample(|| format!("{n} threads; {}", alone[0].1));
    Ok(())
}

/// Make stores while the other threads do; every handle belongs to one store only.
fn distinct(t: usize, k: usize, share: &Share, gate: &Barrier, all: &Mutex<Vec<(usize, usize, Global, Memory, Table)>>) -> Vec<String> {
    let mut odd = vec![];
    let mut mine = vec![];
    for i in 0..k {
        let mut st = Store::new(share.engine.clone());
        let g = Global::new(&mut st, GlobalType::new(WasmType::I64, true), WasmValue::I64((t * 1000 + i) as i64));
        let m = Memory::new(&mut st, MemoryType::new(MemoryArch::I32, 1, Some(1), Some(1)));
        let e = Table::new(&mut st, TableType::new(WasmType::RefExtern, 1, None), WasmValue::RefExtern(tinywasm::types::ExternRef::null()));
        match (g, m, e) {
            (Ok(g), Ok(m), Ok(e)) => mine.push((st, g, m, e)),
            _ => odd.push("a store refused objects".to_string()),
        }
    }
    {
        let mut a = all.lock().unwrap();
        for (i, (_, g, m, e)) in mine.iter().enumerate() {
            a.push((t, i, g.clone(), m.clone(), e.clone()));
        }
    }
    gate.wait();
    let a = all.lock().unwrap().clone();
    for (i, x) in mine.iter().enumerate() {
        for (j, y) in mine.iter().enumerate() {
            if (x.0 == y.0) != (i == j) {
                odd.push(format!("comparison of stores {i} and {j} of thread {t}"));
            }
        }
    }
    for (j, (st, ..)) in mine.iter_mut().enumerate() {
        for (ht, i, g, m, e) in &a {
            let own = (*ht, *i) == (t, j);
            let right = WasmValue::I64((ht * 1000 + i) as i64);
            match g.get(st) {
                Ok(v) if own && v == right => {}
                Err(_) if !own => {}
                r => odd.push(format!("global {i} of thread {ht} read in store {j} of thread {t}: {}", r.is_ok())),
            }
            if m.read_vec(st, 0, 1).is_ok() != own || e.size(st).is_ok() != own {
                odd.push(format!("memory or table {i} of thread {ht} in store {j} of thread {t}"));
            }
        }
    }
    odd
}
