//! C02: what the command-line tool shows of a module.

use super::cli::{Tmp, echo, generated, run, ty_name, wat_str, wat_text};
use crate::ir::*;
use crate::modgen::{self, Prof};
use crate::runner::{Cx, Prop, R, discard, fail, guarded};
use crate::tape::Src;
use crate::tw::encode;
use std::fs;
use std::path::PathBuf;

pub const C02: Prop = Prop {
    id: "C02",
    quick: 8_000,
    thorough: 150_000,
    rule: "the tool inspected or dumped a module that has at least one import, export or function, or refused an input that is no module",
    assumptions: &[
        "the instructions of a function are those the library holds for the same bytes (what they mean is the business of the E properties)",
        "names are compared without the control characters, which the tool's output filter removes",
    ],
    case: c02,
    probes: &[],
};

/// Names as they show in the tool's output.
fn visible(n: &str) -> String {
    n.chars().filter(|c| !c.is_control()).collect()
}

fn types(v: &[VT]) -> String {
    v.iter().map(|t| ty_name(*t)).collect::<Vec<_>>().join(", ")
}

/// The description of an item, and (for memories without a declared maximum) the least maximum shown.
#[derive(Debug)]
enum Shown {
    Exact(String),
    Mem { head: String, least: u64, tail: String },
}

fn describe(m: &Module, kind: Kind, i: u32) -> Shown {
    let arch = |wide: bool| if wide { "i64" } else { "i32" };
    match kind {
        Kind::Func => {
            let t = m.func_ty(i);
            let r = if t.r.is_empty() { String::new() } else { format!(" -> ({})", types(&t.r)) };
            Shown::Exact(format!("func ({}){r}", types(&t.p)))
        }
        Kind::Tab => {
            let t = m.all_tabs()[i as usize];
            let max = t.max.map_or("unbounded".to_string(), |x| x.to_string());
            Shown::Exact(format!("table[{} {}] initial={} max={max}", arch(t.t64), ty_name(t.el), t.min))
        }
        Kind::Mem => {
            let t = m.mem_ty(i);
            let head = format!("memory[{}] initial={} max=", arch(t.m64), t.min);
            let tail = format!(" page_size={}", t.page_size());
            match t.max {
                Some(x) => Shown::Exact(format!("{head}{x}{tail}")),
                None => Shown::Mem { head, least: t.min, tail },
            }
        }
        Kind::Glob => {
            let t = m.all_globs()[i as usize];
            Shown::Exact(format!("global[{} {}]", if t.m { "mut" } else { "const" }, ty_name(t.t)))
        }
    }
}

fn fits(line: &str, prefix: &str, want: &Shown) -> bool {
    let Some(rest) = line.strip_prefix(prefix) else { return false };
    match want {
        Shown::Exact(t) => rest == t,
        Shown::Mem { head, least, tail } => rest
            .strip_prefix(head.as_str())
            .and_then(|x| x.strip_suffix(tail.as_str()))
            .is_some_and(|x| x == "unbounded" || x.parse::<u64>().is_ok_and(|x| x >= *least)),
    }
}

fn pick_name(s: &mut Src) -> String {
    let n = super::names::name(s);
    // a few that could be taken for something else in the output
    match s.below(12) {
        0 => "(none)".into(),
        1 => "Exports".into(),
        2 => "a.b: func ()".into(),
        _ => n,
    }
}

/// Imports and exports of every kind, in any order.
fn reflect(s: &mut Src) -> Module {
    let mut m = if s.chance(1, 4) { Module::default() } else { generated(s) };
    let wild = m.funcs.is_empty() && m.mems.is_empty() && m.tables.is_empty() && m.globals.is_empty();
    let p = Prof { refs: 2, ..Prof::default() };
    // imports shift the index spaces, so they only go to modules without code
    if wild {
        for _ in 0..s.below(7) {
            let desc = match s.below(4) {
                0 => {
                    let t = modgen::func_type(s, &p);
                    Desc::Func(m.ty(t))
                }
                1 => Desc::Tab(table(s)),
                2 => Desc::Mem(memory(s)),
                _ => Desc::Glob(GlobTy { t: modgen::vt(s, &p), m: s.bool() }),
            };
            m.imports.push(Import { module: pick_name(s), name: pick_name(s), desc });
        }
        for _ in 0..s.below(4) {
            let t = modgen::func_type(s, &p);
            let body = vec![UNREACHABLE];
            let ty = m.ty(t);
            m.funcs.push(Func { ty, locals: vec![], body });
        }
        for _ in 0..s.below(3) {
            let mut t = table(s);
            t.min = t.min.min(1000);
            m.tables.push((t, None));
        }
        for _ in 0..s.below(3) {
            m.mems.push(memory(s));
        }
        for _ in 0..s.below(3) {
            let t = modgen::vt(s, &p);
            let v = crate::model::default_of(t);
            m.globals.push((GlobTy { t, m: s.bool() }, vec![modgen::konst(t, v)]));
        }
    }
    let mut items: Vec<(Kind, u32)> = vec![];
    items.extend((0..m.n_funcs()).map(|i| (Kind::Func, i)));
    items.extend((0..m.all_tabs().len() as u32).map(|i| (Kind::Tab, i)));
    items.extend((0..m.all_mems().len() as u32).map(|i| (Kind::Mem, i)));
    items.extend((0..m.all_globs().len() as u32).map(|i| (Kind::Glob, i)));
    for _ in 0..s.below(8) {
        if items.is_empty() {
            break;
        }
        let (k, i) = *s.pick(&items);
        let n = pick_name(s);
        if m.exports.iter().all(|e| e.name != n) {
            let at = s.usize(m.exports.len() + 1);
            m.exports.insert(at, Export { name: n, kind: k, idx: i });
        }
    }
    m
}

fn table(s: &mut Src) -> TabTy {
    let min = *s.pick(&[0, 1, 3, 1000, 9_999_999]);
    let max = *s.pick(&[None, Some(min), Some(min + 1), Some(10_000_000)]);
    TabTy { t64: s.chance(1, 3), el: *s.pick(&[VT::Func, VT::Extern]), min, max }
}

fn memory(s: &mut Src) -> MemTy {
    let m64 = s.chance(1, 3);
    let page = *s.pick(&[None, None, None, Some(16), Some(0)]);
    let top: u64 = match (m64, page) {
        (_, Some(0)) => 0xffff_ffff,
        (false, _) => 65536,
        (true, _) => 1 << 40,
    };
    let min = (*s.pick(&[0, 1, 2, 17, 65535, 65536])).min(top);
    let max = *s.pick(&[None, Some(min), Some((min + 1).min(top)), Some(top)]);
    MemTy { m64, min, max, page }
}

fn c02(s: &mut Src, cx: &mut Cx) -> R {
    let scratch = std::env::var_os("TWV_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    let dir = scratch.join(format!("twv-show-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch directory");
    let tmp = Tmp(dir);
    let dir = &tmp.0;
    let echoing = s.chance(1, 4);
    let m = if echoing { echo(s) } else { reflect(s) };
    let whole = encode(&m);
    let mut wasm = whole.clone();
    if s.chance(1, 12) {
        let k = s.usize(wasm.len());
        match s.below(4) {
            0 => wasm.truncate(k),
            1 => wasm.truncate(s.below(9) as usize),
            _ => wasm[k] ^= 1 << s.below(8),
        }
    }
    let intact = wasm == whole;
    let lib = match guarded(|| tinywasm::parse_bytes(&wasm).ok()) {
        Ok(l) => l,
        Err(_) => return discard("the library panicked"),
    };
    if intact && lib.is_none() {
        return discard("the library rejects the module");
    }
    let (ext, mut bytes, form): (&str, Vec<u8>, &str) = match s.below(4) {
        0 => (*s.pick(&["wasm", "bin", "twasm", ""]), wasm.clone(), "binary"),
        1 => match (wat_text(&m).filter(|_| echoing && intact), intact) {
            (Some(t), true) => ("wat", t.into_bytes(), "text"),
            _ => ("wat", format!("(module binary \"{}\")", wat_str(&wasm)).into_bytes(), "quoted text"),
        },
        2 => match lib.as_ref().map(|l| l.serialize_twasm()) {
            Some(Ok(b)) => (*s.pick(&["twasm", "wasm", "wat", ""]), b, "archive"),
            _ => ("wasm", wasm.clone(), "binary"),
        },
        _ => ("wasm", wasm.clone(), "binary"),
    };
    let mut damaged = lib.is_none();
    if form == "archive" && s.chance(1, 8) {
        let k = s.usize(bytes.len());
        bytes.truncate(k);
        damaged = true;
    }
    let stdin = s.chance(1, 4);
    let path = match (stdin, ext) {
        (true, _) => "-".to_string(),
        (_, "") => "input".to_string(),
        (_, e) => format!("in.{e}"),
    };
    let missing = !stdin && s.chance(1, 30);
    if !stdin && !missing {
        fs::write(dir.join(&path), &bytes).expect("write");
    }
    let sin = stdin.then_some(&bytes[..]);
    let sub = if s.bool() { "inspect" } else { "dump" };
    let r = run(dir, &[sub.to_string(), path.clone()], sin);
    let shown = format!("tinywasm {sub} {path} ({form}, {} bytes); module {}", bytes.len(), crate::world::hex(&wasm));
    let bad = |sig: &str, what: String| -> R { fail(sig, format!("{what}\n{shown}")) };
    if let Some(sg) = r.signal {
        return bad("ended by a signal", format!("signal {sg}, stderr {}", r.err));
    }
    if r.code == Some(101) || r.err.contains("panicked at") {
        return bad("tool panicked", r.err);
    }
    if damaged || missing {
        if r.code == Some(0) {
            return bad("shows what is no module", format!("printed {:?}", String::from_utf8_lossy(&r.out)));
        }
        if !r.out.is_empty() || r.err.trim().is_empty() {
            return bad("no report of an error", format!("printed {:?}, stderr {:?}", String::from_utf8_lossy(&r.out), r.err));
        }
        cx.label("refused");
        cx.nontrivial(shown.as_bytes());
        cx.sample(|| shown.clone());
        return Ok(());
    }
    if r.code != Some(0) {
        return bad("fails on a module", format!("status {:?}: {}", r.code, r.err));
    }
    if !intact {
        return discard("a damaged binary that is a module");
    }
    let Ok(text) = std::str::from_utf8(&r.out) else { return bad("output is no text", format!("{:?}", r.out)) };
    let lib = lib.unwrap();
    let lines: Vec<String> = text.split('\n').map(visible).collect();
    let lines: Vec<&str> = lines.iter().map(String::as_str).collect();
    if sub == "inspect" {
        let mut want: Vec<(String, Option<Shown>)> = vec![("Imports".into(), None)];
        let mut n = [0u32; 4];
        for im in &m.imports {
            let k = kind_of(&im.desc);
            let d = describe(&m, k, n[k as usize]);
            n[k as usize] += 1;
            want.push((format!("  {}.{}: ", visible(&im.module), visible(&im.name)), Some(d)));
        }
        if m.imports.is_empty() {
            want.push(("  (none)".into(), None));
        }
        want.push((String::new(), None));
        want.push(("Exports".into(), None));
        for e in &m.exports {
            want.push((format!("  {}: ", visible(&e.name)), Some(describe(&m, e.kind, e.idx))));
        }
        if m.exports.is_empty() {
            want.push(("  (none)".into(), None));
        }
        want.push((String::new(), None));
        for (i, (prefix, d)) in want.iter().enumerate() {
            let got = lines.get(i).copied();
            let ok = match (got, d) {
                (None, _) => false,
                (Some(g), None) => g == prefix,
                (Some(g), Some(d)) => fits(g, prefix, d),
            };
            if !ok {
                return bad("inspect", format!("line {i} is {got:?}, expected {prefix:?} {d:?}\n{text}"));
            }
        }
        if lines.len() != want.len() {
            return bad("inspect", format!("{} lines, expected {}\n{text}", lines.len(), want.len()));
        }
        if !m.imports.is_empty() {
            cx.label("with imports");
        }
        if !m.exports.is_empty() {
            cx.label("with exports");
        }
    } else {
        let ni = m.n_imp(Kind::Func);
        let mut want: Vec<String> = vec![];
        if lib.funcs.len() != m.funcs.len() {
            return bad("number of functions", format!("the library has {}, the module {}", lib.funcs.len(), m.funcs.len()));
        }
        for (i, f) in lib.funcs.iter().enumerate() {
            let names: Vec<&str> = m.exports.iter().filter(|e| e.kind == Kind::Func && e.idx == ni + i as u32).map(|e| e.name.as_str()).collect();
            want.push(if names.is_empty() { format!("func[{i}]") } else { format!("func[{i}] exports={names:?}") });
            for (k, ins) in f.instructions.iter().enumerate() {
                want.push(format!("  {k:04}: {ins:?}"));
            }
            want.push(String::new());
        }
        want.push(String::new());
        if want.len() == 1 {
            // no function
            want = vec![String::new()];
        }
        let clean = |t: &str| -> String { t.split_whitespace().collect::<Vec<_>>().join(" ") };
        for (i, w) in want.iter().enumerate() {
            let got = lines.get(i).copied();
            // printable escapes of odd names are the standard library's
            if got.is_none_or(|g| clean(g) != clean(w)) {
                return bad("dump", format!("line {i} is {got:?}, expected {w:?}\n{text}"));
            }
        }
        if lines.len() != want.len() {
            return bad("dump", format!("{} lines, expected {}\n{text}", lines.len(), want.len()));
        }
        cx.label("dumped");
    }
    cx.label(&format!("{form}{}", if stdin { " from standard input" } else { "" }));
    if m.imports.len() + m.exports.len() + m.funcs.len() > 0 {
        cx.nontrivial(shown.as_bytes());
        cx.sample(|| shown.clone());
    }
    Ok(())
}
