//! V01: host values, references and type descriptions keep what they are given.

use crate::runner::{Cx, Prop, R, fail, guarded};
use crate::tape::Src;
use tinywasm::types::{ExternRef, ExternVal, ExternalKind, FuncRef, FuncType, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};

pub const V01: Prop = Prop {
    id: "V01",
    quick: 400_000,
    thorough: 60_000_000,
    rule: "two values of generated types were built, converted back and compared, and a type description was built and read back",
    assumptions: &["loose equality of vectors reads both as four 32-bit or as two 64-bit floats"],
    case: v01,
    probes: &[],
};

const TYS: [WasmType; 7] = [WasmType::I32, WasmType::I64, WasmType::F32, WasmType::F64, WasmType::V128, WasmType::RefFunc, WasmType::RefExtern];

/// A type and sixteen bytes of which the type uses the first ones.
type Raw = (usize, [u8; 16]);

fn lane32(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => 0,
        1 => 0x8000_0000,
        2 => 0x7fc0_0000,
        3 => (s.u32() & 0x807f_ffff) | 0x7f80_0000,
        4 => s.below(4) as u32,
        _ => s.u32(),
    }
}
fn lane64(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => 0,
        1 => 1 << 63,
        2 => 0x7ff8_0000_0000_0000,
        3 => (s.u64() & 0x800f_ffff_ffff_ffff) | 0x7ff0_0000_0000_0000,
        4 => s.below(4),
        _ => s.u64(),
    }
}
fn raw(s: &mut Src) -> Raw {
    let t = s.usize(7);
    let mut b = [0u8; 16];
    if t == 4 && s.bool() || t == 1 || t == 3 {
        b[..8].copy_from_slice(&lane64(s).to_le_bytes());
        b[8..].copy_from_slice(&lane64(s).to_le_bytes());
    } else {
        for i in 0..4 {
            b[4 * i..4 * i + 4].copy_from_slice(&lane32(s).to_le_bytes());
        }
    }
    if t >= 5 && s.chance(1, 4) {
        b[..4].copy_from_slice(&u32::MAX.to_le_bytes());
    }
    let n = width(t);
    b[n..].fill(0);
    (t, b)
}
fn width(t: usize) -> usize {
    [4, 8, 4, 8, 16, 4, 4][t]
}
fn w32(b: &[u8; 16], i: usize) -> u32 {
    u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap())
}
fn w64(b: &[u8; 16], i: usize) -> u64 {
    u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap())
}

fn build(r: &Raw) -> WasmValue {
    let b = &r.1;
    match r.0 {
        0 => WasmValue::from(w32(b, 0) as i32),
        1 => WasmValue::from(w64(b, 0) as i64),
        2 => WasmValue::from(f32::from_bits(w32(b, 0))),
        3 => WasmValue::from(f64::from_bits(w64(b, 0))),
        4 => WasmValue::from(*b),
        5 => WasmValue::from(FuncRef::new((w32(b, 0) != u32::MAX).then_some(w32(b, 0)))),
        _ => WasmValue::from(ExternRef::new((w32(b, 0) != u32::MAX).then_some(w32(b, 0)))),
    }
}

/// What the accessors say, then what the conversions say: bytes for the kind that answered, None for the others.
fn read(v: WasmValue) -> [[Option<[u8; 16]>; 7]; 2] {
    fn pad(b: &[u8]) -> [u8; 16] {
        let mut o = [0; 16];
        o[..b.len()].copy_from_slice(b);
        o
    }
    let f = |r: FuncRef| pad(&r.addr().unwrap_or(u32::MAX).to_le_bytes());
    let e = |r: ExternRef| pad(&r.addr().unwrap_or(u32::MAX).to_le_bytes());
    [
        [
            v.as_i32().map(|x| pad(&x.to_le_bytes())),
            v.as_i64().map(|x| pad(&x.to_le_bytes())),
            v.as_f32().map(|x| pad(&x.to_bits().to_le_bytes())),
            v.as_f64().map(|x| pad(&x.to_bits().to_le_bytes())),
            v.as_v128(),
            v.as_ref_func().map(f),
            v.as_ref_extern().map(e),
        ],
        [
            i32::try_from(v).ok().map(|x| pad(&x.to_le_bytes())),
            i64::try_from(v).ok().map(|x| pad(&x.to_le_bytes())),
            f32::try_from(v).ok().map(|x| pad(&x.to_bits().to_le_bytes())),
            f64::try_from(v).ok().map(|x| pad(&x.to_bits().to_le_bytes())),
            <[u8; 16]>::try_from(v).ok(),
            FuncRef::try_from(v).ok().map(f),
            ExternRef::try_from(v).ok().map(e),
        ],
    ]
}

/// Loose equality, from its description: same type and same bits, except that NaNs equal each other.
fn loose(a: &Raw, b: &Raw) -> bool {
    if a.0 != b.0 {
        return false;
    }
    let f32s = |n: usize| {
        (0..n).all(|i| {
            let (x, y) = (w32(&a.1, i), w32(&b.1, i));
            x == y || f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan()
        })
    };
    let f64s = |n: usize| {
        (0..n).all(|i| {
            let (x, y) = (w64(&a.1, i), w64(&b.1, i));
            x == y || f64::from_bits(x).is_nan() && f64::from_bits(y).is_nan()
        })
    };
    match a.0 {
        2 => f32s(1),
        3 => f64s(1),
        4 => f32s(4) || f64s(2),
        _ => a.1 == b.1,
    }
}

fn v01(s: &mut Src, cx: &mut Cx) -> R {
    let a = raw(s);
    // the other: unrelated, the same, or nearly so
    let mut b = match s.below(6) {
        0 => raw(s),
        1 => (s.usize(7), a.1),
        _ => a,
    };
    b.1[width(b.0)..].fill(0);
    let n = width(b.0);
    match s.below(6) {
        0 => {
            let i = s.usize(n);
            b.1[i] ^= 1 << s.below(8);
        }
        1 => {
            // another NaN in some lane
            if n >= 8 && s.bool() {
                let i = 8 * s.usize(n / 8);
                b.1[i..i + 8].copy_from_slice(&(0x7ff0_0000_0000_0001 | s.u64()).to_le_bytes());
            } else {
                let i = 4 * s.usize(n / 4);
                b.1[i..i + 4].copy_from_slice(&(0x7f80_0001 | s.u32()).to_le_bytes());
            }
        }
        _ => {}
    }
    let shown = format!("{:?} {:02x?} and {:?} {:02x?}", TYS[a.0], a.1, TYS[b.0], b.1);
    match guarded(|| values(&a, &b)) {
        Err(p) => return fail("panic", format!("{p}: {shown}")),
        Ok(Some(e)) => return fail(e.clone(), format!("{e}: {shown}")),
        Ok(None) => {}
    }
    let mut key = shown.clone();
    let (what, r) = types(s);
    match r {
        Err(p) => return fail("panic", format!("{p}: {what}")),
        Ok(Some(e)) => return fail(e.clone(), format!("{e}: {what}")),
        Ok(None) => {}
    }
    key += &what;
    cx.label(["i32", "i64", "f32", "f64", "v128", "funcref", "externref"][a.0]);
    cx.nontrivial(key.as_bytes());
    cx.sample(|| format!("{shown}; {what}"));
    Ok(())
}

fn values(a: &Raw, b: &Raw) -> Option<String> {
    for r in [a, b] {
        let v = build(r);
        if WasmType::from(&v) != TYS[r.0] || WasmType::from(v) != TYS[r.0] {
            return Some("type of a value".into());
        }
        for (how, got) in ["accessor", "conversion"].iter().zip(read(v)) {
            for (i, g) in got.iter().enumerate() {
                if *g != (i == r.0).then_some(r.1) {
                    return Some(format!("{how} to {:?}", TYS[i]));
                }
            }
        }
        let null = r.0 >= 5 && w32(&r.1, 0) == u32::MAX;
        if v.as_ref_func().is_some_and(|f| f.is_null() != null) || v.as_ref_extern().is_some_and(|f| f.is_null() != null) {
            return Some("null".into());
        }
        let d = TYS[r.0].default_value();
        let mut zero = (r.0, [0u8; 16]);
        if r.0 >= 5 {
            zero.1[..4].fill(255);
        }
        if read(d) != read(build(&zero)) || read(WasmValue::default_for(TYS[r.0])) != read(d) {
            return Some("default value".into());
        }
        if TYS[r.0].is_simd() != (r.0 == 4) {
            return Some("is_simd".into());
        }
    }
    let (x, y) = (build(a), build(b));
    let want = loose(a, b);
    if x.eq_loose(&y) != want || y.eq_loose(&x) != want {
        return Some("loose equality".into());
    }
    if !x.eq_loose(&x) {
        return Some("loose equality with itself".into());
    }
    None
}

fn types(s: &mut Src) -> (String, Result<Option<String>, String>) {
    let num = |s: &mut Src| match s.below(4) {
        0 => s.below(4),
        1 => 1 << s.below(49),
        2 => u64::MAX - s.below(3),
        _ => s.below(70000),
    };
    let opt = |s: &mut Src| if s.bool() { Some(num(s)) } else { None };
    let arch = |s: &mut Src| if s.bool() { MemoryArch::I64 } else { MemoryArch::I32 };
    let bad = |c: bool, w: &str| if c { None } else { Some(w.to_string()) };
    match s.below(4) {
        0 => {
            let list = |s: &mut Src| -> Vec<WasmType> {
                let n = if s.chance(1, 8) { s.below(300) } else { s.below(6) };
                (0..n).map(|_| TYS[s.usize(7)]).collect()
            };
            let (p, r, q) = (list(s), list(s), list(s));
            let what = format!("function type {p:?} -> {r:?}");
            let c = guarded(|| {
                let t = FuncType::new(&p, &r);
                let u = FuncType::new(&p, &q);
                let moved = FuncType::new(&[], &[p.clone(), r.clone()].concat());
                bad(t.params() == p && t.results() == r, "function type")
                    .or(bad((t == u) == (r == q), "equality of function types"))
                    .or(bad((t == moved) == p.is_empty(), "parameters are not results"))
            });
            (what, c)
        }
        1 => {
            let (ar, min, max, page) = (arch(s), num(s), opt(s), if s.bool() { Some(1u64 << s.below(17)) } else { None });
            let step = s.bool();
            let what = format!("memory type {ar:?} {min} {max:?} {page:?}, in steps {step}");
            let c = guarded(|| {
                let t = if step {
                    MemoryType::default().with_page_size(page).with_page_count_max(max).with_page_count_initial(min).with_arch(ar)
                } else {
                    MemoryType::new(ar, min, max, page)
                };
                let ps = page.unwrap_or(65536);
                bad(t.arch() == ar && t.page_count_initial() == min && t.page_size() == ps, "memory type")
                    .or(bad(t.declared_page_count_max() == max && max.is_none_or(|m| t.page_count_max() == m), "memory maximum"))
                    .or(bad(t.initial_size() == min.saturating_mul(ps), "initial size of a memory"))
                    .or(bad(t.max_size() == t.page_count_max().saturating_mul(ps), "maximum size of a memory"))
                    .or(bad(t == MemoryType::new(ar, min, max, page), "equality of memory types"))
            });
            (what, c)
        }
        2 => {
            let (el, min, max, ar) = (TYS[5 + s.usize(2)], num(s), opt(s), arch(s));
            let what = format!("table type {el:?} {min} {max:?} {ar:?}");
            let c = guarded(|| {
                let t = if ar == MemoryArch::I64 { TableType::new64(el, min, max) } else { TableType::new(el, min, max) };
                bad(t.arch() == ar && t.element_type == el && t.size_initial == min && t.size_max == max, "table type")
            });
            (what, c)
        }
        _ => {
            let (t, m, k, a, step) = (TYS[s.usize(7)], s.bool(), s.usize(4), s.u32(), s.bool());
            let what = format!("global type {t:?} {m}, in steps {step}; external value {k} {a}");
            let c = guarded(|| {
                let g = if step { GlobalType::default().with_mutable(m).with_ty(t) } else { GlobalType::new(t, m) };
                let kinds = [ExternalKind::Func, ExternalKind::Table, ExternalKind::Memory, ExternalKind::Global];
                let v = ExternVal::new(kinds[k], a);
                let addr = match v {
                    ExternVal::Func(x) if k == 0 => Some(x),
                    ExternVal::Table(x) if k == 1 => Some(x),
                    ExternVal::Memory(x) if k == 2 => Some(x),
                    ExternVal::Global(x) if k == 3 => Some(x),
                    _ => None,
                };
                bad(g.ty == t && g.mutable == m, "global type").or(bad(v.kind() == kinds[k] && addr == Some(a), "external value"))
            });
            (what, c)
        }
    }
}
