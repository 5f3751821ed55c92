//! Every entry point of the host handles, in and out of range, against the model's plain arrays.

use crate::ir::*;
use crate::modgen::value;
use crate::num::Er;
use crate::runner::{Cx, R, Stop, guarded, panic_sig};
use crate::tape::Src;
use crate::tw::{show, show_w, wt};
use crate::val::*;
use crate::world::World;
use std::ffi::CString;
use std::io::{Read, Seek, SeekFrom, Write};
use tinywasm::types::{ExternRef, FuncRef, WasmValue};

/// An offset and a length around the interesting places of an object of `len` units.
pub fn span(s: &mut Src, len: u64, max_n: u64) -> (u64, u64) {
    let n = match s.below(8) {
        0 => 0,
        1 => s.below(max_n + 1),
        _ => s.below(max_n.min(24) + 1),
    };
    let o = match s.below(16) {
        0 => len,
        1 => len.saturating_sub(n),
        2 => len.saturating_sub(n) + 1 + s.below(4),
        3 => len + s.below(70000),
        4 => *s.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 7, i64::MAX as u64, 1 << 32, (1 << 32) - 1]),
        5 | 6 => s.below(64),
        7 | 8 => {
            // around multiples of small powers of two (chunk borders)
            let k = 1u64 << s.range(3, 16);
            (s.below(len / k + 1) * k).wrapping_sub(s.below(8))
        }
        _ => {
            if len >= n {
                s.below(len - n + 1)
            } else {
                s.below(len + 1)
            }
        }
    };
    match s.below(40) {
        0 => (o, *s.pick(&[u64::MAX, u64::MAX - 3, 1 << 40, i64::MAX as u64])),
        _ => (o, n),
    }
}

fn fits(o: u64, n: u64, len: u64) -> bool {
    o as u128 + n as u128 <= len as u128
}

impl World {
    pub fn mem_api(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.mems.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let m = self.tw.h.borrow().mems[a].unwrap();
        let len = self.ms.mems[a].len();
        let (o, n) = span(s, len, 9000);
        let ok = fits(o, n, len);
        let (oz, nz) = (o as usize, n as usize);
        let small = n <= 1 << 20;
        macro_rules! guard {
            ($e:expr) => {
                match guarded(|| $e) {
                    Ok(r) => r,
                    Err(p) => return self.bad(panic_sig(&p), format!("panic: {p}")),
                }
            };
        }
        macro_rules! note {
            ($($t:tt)*) => {{ let t = format!($($t)*); self.note(format!("memory {a} ({len} bytes): {t}")); }};
        }
        let op = s.below(16);
        self.host_ops += 1;
        cx.label_n(
            ["host reads", "host writes", "host fills", "host copies", "host grows", "host strings", "host cursors"][match op {
                0..=2 => 0,
                3..=5 => 1,
                6 => 2,
                7 | 8 => 3,
                9 => 4,
                10..=12 => 5,
                _ => 6,
            }],
            1,
        );
        match op {
            0 if small => {
                note!("read({o}, {n} bytes)");
                let mut b = vec![0xa5u8; nz];
                let r = guard!(m.read(&self.tw.store, oz, &mut b));
                let avail = len.saturating_sub(o).min(n);
                match r {
                    Ok(k) if k as u64 <= avail && (k > 0 || avail == 0) => {
                        if let Ok(e) = self.ms.mems[a].read_exact(o, k as u64)
                            && k > 0
                            && e[..] != b[..k]
                        {
                            return self.bad("memory read", format!("expected {e:?}, got {:?}", &b[..k]));
                        }
                    }
                    r => return self.bad("memory read count", format!("{avail} bytes are available, got {r:?}")),
                }
            }
            1 if small => {
                note!("read_exact({o}, {n} bytes)");
                let mut b = vec![0xa5u8; nz];
                let r = guard!(m.read_exact(&self.tw.store, oz, &mut b));
                if r.is_ok() != ok {
                    return self.bad("memory read_exact", format!("in range: {ok}, got {r:?}"));
                }
                if ok
                    && let Ok(e) = self.ms.mems[a].read_exact(o, n)
                    && e != b
                {
                    return self.bad("memory read_exact", format!("expected {e:?}, got {b:?}"));
                }
            }
            0..=2 => {
                note!("read_vec({o}, {n})");
                match guard!(m.read_vec(&self.tw.store, oz, nz)) {
                    Ok(b) if ok => {
                        if let Ok(e) = self.ms.mems[a].read_exact(o, n)
                            && e != b
                        {
                            return self.bad("memory read_vec", format!("expected {e:?}, got {b:?}"));
                        }
                    }
                    Err(_) if !ok => {}
                    r => return self.bad("memory read_vec", format!("in range: {ok}, got {r:?}")),
                }
            }
            3 if small => {
                let x = s.u32() as u8;
                let b: Vec<u8> = (0..n).map(|i| x.wrapping_add((i as u8).wrapping_mul(31))).collect();
                note!("write({o}, {n} bytes from {x:#x})");
                let r = guard!(m.write(&mut self.tw.store, oz, &b));
                let avail = len.saturating_sub(o).min(n);
                match r {
                    Ok(k) if k as u64 <= avail && (k > 0 || avail == 0) => {
                        if k > 0 {
                            self.ms.mems[a].write(o, &b[..k])?;
                        }
                    }
                    r => return self.bad("memory write count", format!("{avail} bytes are available, got {r:?}")),
                }
            }
            3..=5 if small => {
                let x = s.u32() as u8;
                let b: Vec<u8> = (0..n).map(|i| x.wrapping_add((i as u8).wrapping_mul(31))).collect();
                note!("copy_from_slice({o}, {n} bytes from {x:#x})");
                let r = guard!(m.copy_from_slice(&mut self.tw.store, oz, &b));
                if r.is_ok() != ok {
                    return self.bad("memory copy_from_slice", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.mems[a].write(o, &b)?;
                }
            }
            3..=6 => {
                let x = s.u32() as u8;
                note!("fill({o}, {n}, {x:#x})");
                let r = guard!(m.fill(&mut self.tw.store, oz, nz, x));
                if r.is_ok() != ok {
                    return self.bad("memory fill", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.mems[a].write(o, &vec![x; nz])?;
                }
            }
            7 | 8 => {
                let (mut src, _) = span(s, len, 10);
                if s.chance(1, 3) {
                    src = o.wrapping_add(s.below(17)).wrapping_sub(8);
                }
                let ok = ok && fits(src, n, len);
                note!("copy_within(src {src}, dst {o}, {n})");
                let b = if ok {
                    match self.ms.mems[a].read_exact(src, n) {
                        Ok(b) => b,
                        Err(e) => return Err(e),
                    }
                } else {
                    vec![]
                };
                let r = guard!(m.copy_within(&mut self.tw.store, src as usize, oz, nz));
                if r.is_ok() != ok {
                    return self.bad("memory copy_within", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.mems[a].write(o, &b)?;
                }
            }
            9 => {
                let (pages, max) = (self.ms.mems[a].pages, self.ms.mems[a].max_pages());
                let d: i64 = match s.below(6) {
                    0 => -(s.below(5) as i64) - 1,
                    1 => *s.pick(&[i64::MIN, i64::MAX, -1, i64::MAX - 1]),
                    2 if max - pages < 1 << 40 => (max - pages + 1 + s.below(3)) as i64,
                    3 if max - pages < 6 => (max - pages) as i64,
                    _ => s.below(4) as i64,
                };
                note!("grow({d})");
                let e = if d < 0 {
                    None
                } else {
                    match self.ms.mem_grow(a, d as u64) {
                        Ok(x) => x.map(|x| x as i64),
                        Err(Er::Stop(s)) => return Err(s),
                        Err(Er::Trap(_)) => unreachable!(),
                    }
                };
                let r = guard!(m.grow(&mut self.tw.store, d));
                // failing to grow may be reported either way
                let same = match (&e, &r) {
                    (Some(_), Ok(g)) => *g == e,
                    (None, Ok(g)) => g.is_none(),
                    (None, Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return self.bad("memory grow", format!("expected {e:?}, got {r:?}"));
                }
            }
            10 => {
                // C strings
                let t = text(s, true);
                let by = CString::new(t.clone()).unwrap();
                let ok = fits(o, t.len() as u64 + 1, len);
                let viac = s.bool();
                note!("{}({o}, {t:?})", if viac { "write_cstring" } else { "write_cstring_bytes" });
                let r = if viac {
                    guard!(m.write_cstring(&mut self.tw.store, oz, &by))
                } else {
                    guard!(m.write_cstring_bytes(&mut self.tw.store, oz, &t))
                };
                if r.is_ok() != ok {
                    return self.bad("memory write_cstring", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.mems[a].write(o, by.as_bytes_with_nul())?;
                    let k = by.as_bytes_with_nul().len();
                    match guard!(m.read_cstring(&self.tw.store, oz, k)) {
                        Ok(x) if x == by => {}
                        r => return self.bad("memory read_cstring", format!("wrote {by:?}, read {r:?}")),
                    }
                    // the buffer may be longer than the string
                    let more = s.below(20).min(len - o - k as u64) as usize;
                    match guard!(m.read_cstring_until_null(&self.tw.store, oz, k + more)) {
                        Ok(x) if x == by => {}
                        r => return self.bad("memory read_cstring_until_null", format!("wrote {by:?}, read {r:?}")),
                    }
                    match guard!(m.read_string(&self.tw.store, oz, k - 1)) {
                        Ok(x) if x == t => {}
                        r => return self.bad("memory read_string", format!("wrote {t:?}, read {r:?}")),
                    }
                }
            }
            11 => {
                // UTF-16
                let t = text(s, false);
                let by: Vec<u8> = t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
                let ok = fits(o, by.len() as u64, len);
                note!("UTF-16 {t:?} at {o}");
                let r = guard!(m.copy_from_slice(&mut self.tw.store, oz, &by));
                if r.is_ok() != ok {
                    return self.bad("memory copy_from_slice", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.mems[a].write(o, &by)?;
                    match guard!(m.read_js_string(&self.tw.store, oz, by.len())) {
                        Ok(x) if x == t => {}
                        r => return self.bad("memory read_js_string", format!("wrote {t:?}, read {r:?}")),
                    }
                }
            }
            12 => {
                // strings over whatever is there
                let n = s.below(24);
                let ok = fits(o, n, len);
                let b = if ok {
                    match self.ms.mems[a].read_exact(o, n) {
                        Ok(b) => Some(b),
                        Err(_) => return Ok(()),
                    }
                } else {
                    None
                };
                let nz = n as usize;
                match s.below(4) {
                    0 => {
                        note!("read_string({o}, {n})");
                        let e = b.and_then(|b| String::from_utf8(b).ok());
                        let r = guard!(m.read_string(&self.tw.store, oz, nz)).ok();
                        if e != r {
                            return self.bad("memory read_string", format!("expected {e:?}, got {r:?}"));
                        }
                    }
                    1 => {
                        note!("read_cstring({o}, {n})");
                        let e = b.and_then(|b| CString::from_vec_with_nul(b).ok());
                        let r = guard!(m.read_cstring(&self.tw.store, oz, nz)).ok();
                        if e != r {
                            return self.bad("memory read_cstring", format!("expected {e:?}, got {r:?}"));
                        }
                    }
                    2 => {
                        note!("read_cstring_until_null({o}, {n})");
                        let e = b.and_then(|b| b.iter().position(|x| *x == 0).map(|i| CString::new(&b[..i]).unwrap()));
                        let r = guard!(m.read_cstring_until_null(&self.tw.store, oz, nz)).ok();
                        if e != r {
                            return self.bad("memory read_cstring_until_null", format!("expected {e:?}, got {r:?}"));
                        }
                    }
                    _ => {
                        let n = n & !1;
                        note!("read_js_string({o}, {n})");
                        let b = if fits(o, n, len) { self.ms.mems[a].read_exact(o, n).ok() } else { None };
                        let e = b.and_then(|b| String::from_utf16(&b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>()).ok());
                        let r = guard!(m.read_js_string(&self.tw.store, oz, n as usize)).ok();
                        if e != r {
                            return self.bad("memory read_js_string", format!("expected {e:?}, got {r:?}"));
                        }
                    }
                }
            }
            #[cfg(feature = "full")]
            _ => return self.cursor(s, a),
            #[cfg(not(feature = "full"))]
            _ => {}
        }
        let want = self.ms.mems[a].ty;
        match guard!(m.ty(&self.tw.store)) {
            Ok(t)
                if t.arch() == crate::tw::memty(&want).arch()
                    && t.page_size() == want.page_size()
                    && t.page_count_max() == crate::tw::memty(&want).page_count_max() => {}
            r => return self.bad("memory type", format!("declared {want:?}, got {r:?}")),
        }
        self.check("after a host memory access")
    }

    #[cfg(feature = "full")]
    fn cursor(&mut self, s: &mut Src, a: usize) -> R {
        let m = self.tw.h.borrow().mems[a].unwrap();
        let len = self.ms.mems[a].len();
        let start = if s.bool() { None } else { Some(span(s, len, 10).0) };
        let n = s.range(1, 6);
        enum C {
            Read(Vec<u8>),
            ReadExact(Vec<u8>),
            Write(Vec<u8>),
            Seek(SeekFrom),
            Set(u64),
        }
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(match s.below(6) {
                0 => C::Read(vec![0; span(s, len, 5000).1.min(5000) as usize]),
                1 => C::ReadExact(vec![0; s.below(40) as usize]),
                2 | 3 => {
                    let x = s.u32() as u8;
                    C::Write((0..span(s, len, 5000).1.min(5000)).map(|i| x.wrapping_add(i as u8)).collect())
                }
                4 => C::Seek(match s.below(4) {
                    0 => SeekFrom::Start(span(s, len, 10).0),
                    1 => SeekFrom::Current(s.below(50) as i64 - 25),
                    2 => SeekFrom::End(s.below(50) as i64 - 40),
                    _ => *s.pick(&[
                        SeekFrom::Current(i64::MIN),
                        SeekFrom::End(i64::MAX),
                        SeekFrom::End(i64::MIN),
                        SeekFrom::Current(i64::MAX),
                        SeekFrom::Start(u64::MAX),
                    ]),
                }),
                _ => C::Set(span(s, len, 10).0),
            });
        }
        let names: Vec<String> = ops
            .iter()
            .map(|o| match o {
                C::Read(b) => format!("read {}", b.len()),
                C::ReadExact(b) => format!("read_exact {}", b.len()),
                C::Write(b) => format!("write {} bytes from {:?}", b.len(), b.first()),
                C::Seek(p) => format!("seek {p:?}"),
                C::Set(p) => format!("set_position {p}"),
            })
            .collect();
        self.note(format!("memory {a} ({len} bytes): cursor at {start:?}: {names:?}"));
        let mut pos = start.unwrap_or(0);
        let model = &mut self.ms.mems[a];
        let store = &mut self.tw.store;
        let r = guarded(|| -> Result<(), Result<String, Stop>> {
            let mut c = match start {
                None => m.cursor(store),
                Some(p) => m.cursor_at(store, p),
            }
            .map_err(|e| Ok(format!("cursor: {e:?}")))?;
            for (o, name) in ops.into_iter().zip(&names) {
                let bad = |t: String| Err(Ok(format!("{name} at {pos}: {t}")));
                match o {
                    C::Read(mut b) => {
                        let n = b.len() as u64;
                        let avail = len.saturating_sub(pos).min(n);
                        match c.read(&mut b) {
                            Ok(k) if k as u64 <= avail && (k > 0 || avail == 0) => {
                                if let Ok(e) = model.read_exact(pos, k as u64)
                                    && k > 0
                                    && e[..] != b[..k]
                                {
                                    return bad(format!("expected {e:?}, got {:?}", &b[..k]));
                                }
                                pos += k as u64;
                            }
                            r => return bad(format!("{avail} bytes available, got {r:?}")),
                        }
                    }
                    C::ReadExact(mut b) => {
                        let n = b.len() as u64;
                        let ok = fits(pos, n, len);
                        match c.read_exact(&mut b) {
                            Ok(()) if ok || n == 0 => {
                                if n > 0
                                    && let Ok(e) = model.read_exact(pos, n)
                                    && e != b
                                {
                                    return bad(format!("expected {e:?}, got {b:?}"));
                                }
                                pos += n;
                            }
                            // how far the cursor moved is not specified
                            Err(_) if !ok => return Ok(()),
                            r => return bad(format!("in range: {ok}, got {r:?}")),
                        }
                    }
                    C::Write(b) => {
                        let avail = len.saturating_sub(pos).min(b.len() as u64);
                        match c.write(&b) {
                            Ok(k) if k as u64 <= avail && (k > 0 || avail == 0) => {
                                if k > 0 {
                                    model.write(pos, &b[..k]).map_err(Err)?;
                                }
                                pos += k as u64;
                            }
                            r => return bad(format!("{avail} bytes available, got {r:?}")),
                        }
                        c.flush().map_err(|e| Ok(format!("flush: {e}")))?;
                    }
                    C::Seek(p) => {
                        let t = match p {
                            SeekFrom::Start(x) => x as i128,
                            SeekFrom::End(x) => len as i128 + x as i128,
                            SeekFrom::Current(x) => pos as i128 + x as i128,
                        };
                        match (u64::try_from(t), c.seek(p)) {
                            (Ok(x), Ok(y)) if x == y => pos = x,
                            (Err(_), Err(_)) => {}
                            (e, r) => return bad(format!("expected {e:?}, got {r:?}")),
                        }
                    }
                    C::Set(p) => {
                        c.set_position(p);
                        pos = p;
                    }
                }
                if c.position() != pos {
                    return Err(Ok(format!("after {name}: expected position {pos}, got {}", c.position())));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => self.check("after a cursor access"),
            Ok(Err(Ok(t))) => self.bad("memory cursor", t),
            Ok(Err(Err(e))) => Err(e),
            Err(p) => self.bad(panic_sig(&p), format!("panic: {p}")),
        }
    }

    /// A value of some type other than `t`.
    fn other_value(&self, s: &mut Src, t: VT) -> WasmValue {
        let c: Vec<VT> = ALLT.iter().copied().filter(|x| *x != t).collect();
        let u = *s.pick(&c);
        match u {
            VT::Func => WasmValue::RefFunc(FuncRef::null()),
            VT::Extern => WasmValue::RefExtern(if s.bool() { ExternRef::null() } else { ExternRef::new(Some(3)) }),
            u => {
                let v = value(s, u);
                self.tw.h.borrow().to_wv(u, v)
            }
        }
    }

    pub fn tab_api(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.tabs.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let t = self.tw.h.borrow().tabs[a].unwrap();
        let (len, ty) = (self.ms.tabs[a].el.len() as u64, self.ms.tabs[a].ty);
        let el = ty.el;
        macro_rules! guard {
            ($e:expr) => {
                match guarded(|| $e) {
                    Ok(r) => r,
                    Err(p) => return self.bad(panic_sig(&p), format!("panic: {p}")),
                }
            };
        }
        macro_rules! note {
            ($($t:tt)*) => {{ let t = format!($($t)*); self.note(format!("table {a} ({len} entries): {t}")); }};
        }
        let (o, n) = span(s, len, 12);
        let ok = fits(o, n, len);
        self.host_ops += 1;
        cx.label_n("host table operations", 1);
        match s.below(8) {
            0 => {
                let i = o as u32;
                note!("get({i})");
                let r = guard!(t.get(&self.tw.store, i));
                let good = match (&r, self.ms.tabs[a].el.get(i as usize)) {
                    (Ok(v), Some(e)) => self.tw.h.borrow().agree(el, *e, v),
                    (Err(_), None) => true,
                    _ => false,
                };
                if !good {
                    return self.bad("table get", format!("got {r:?}"));
                }
            }
            1 | 2 => {
                let i = o as u32;
                let wrong = s.chance(1, 4);
                let (v, wv) = if wrong {
                    (Val::default(), self.other_value(s, el))
                } else {
                    let v = self.arg(s, el);
                    (v, self.tw.h.borrow().to_wv(el, v))
                };
                let ok = (i as u64) < len && !wrong;
                note!("set({i}, {})", show_w(&wv));
                let r = guard!(t.set(&mut self.tw.store, i, wv));
                if r.is_ok() != ok {
                    return self.bad("table set", format!("acceptable: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.tabs[a].el[i as usize] = v;
                }
            }
            3 => {
                note!("load({o}, {n})");
                match guard!(t.load(&self.tw.store, o as usize, n as usize).map(|x| x.collect::<Vec<_>>())) {
                    Ok(v) if ok => {
                        let good = {
                            let h = self.tw.h.borrow();
                            v.len() as u64 == n && v.iter().enumerate().all(|(i, v)| h.agree(el, self.ms.tabs[a].el[o as usize + i], v))
                        };
                        if !good {
                            return self.bad("table load", format!("got {:?}", v.iter().map(show_w).collect::<Vec<_>>()));
                        }
                    }
                    Err(_) if !ok => {}
                    r => return self.bad("table load", format!("in range: {ok}, got {:?}", r.map(|v| v.len()))),
                }
            }
            4 => {
                let src = if s.bool() { o.wrapping_add(s.below(7)).wrapping_sub(3) } else { span(s, len, 5).0 };
                let ok = ok && fits(src, n, len);
                note!("copy_within(src {src}, dst {o}, {n})");
                let r = guard!(t.copy_within(&mut self.tw.store, src as usize, o as usize, n as usize));
                if r.is_ok() != ok {
                    return self.bad("table copy_within", format!("in range: {ok}, got {r:?}"));
                }
                if ok {
                    self.ms.tabs[a].el.copy_within(src as usize..(src + n) as usize, o as usize);
                }
            }
            5 | 6 => {
                let max = ty.max.unwrap_or(10_000_000).min(10_000_000);
                let d: i32 = match s.below(7) {
                    0 => *s.pick(&[-1, i32::MIN, -2]),
                    1 => i32::MAX,
                    2 if max - len < i32::MAX as u64 - 4 => (max - len + 1 + s.below(3)) as i32,
                    3 if max - len < 6 => (max - len) as i32,
                    _ => s.below(4) as i32,
                };
                let wrong = s.chance(1, 5);
                let (v, wv) = if wrong {
                    (Val::default(), self.other_value(s, el))
                } else {
                    let v = self.arg(s, el);
                    (v, self.tw.h.borrow().to_wv(el, v))
                };
                let ok = d >= 0 && len + d as u64 <= max && !wrong;
                note!("grow({d}, {})", show_w(&wv));
                let r = guard!(t.grow(&mut self.tw.store, d, wv));
                match r {
                    Ok(x) if ok && x as u64 == len => {
                        for _ in 0..d {
                            self.ms.tabs[a].el.push(v);
                        }
                    }
                    Err(_) if !ok => {}
                    r => return self.bad("table grow", format!("acceptable: {ok}, got {r:?}")),
                }
            }
            _ => {
                note!("ty, size");
                let (r, k) = (guard!(t.ty(&self.tw.store)), guard!(t.size(&self.tw.store)));
                match (r, k) {
                    (Ok(r), Ok(k)) if r.element_type == wt(el) && r.size_max == ty.max && k as u64 == len => {}
                    (r, k) => return self.bad("table type", format!("declared {ty:?}, got {r:?}, size {k:?}")),
                }
            }
        }
        self.check("after a host table access")
    }

    pub fn glob_api(&mut self, s: &mut Src, cx: &mut Cx) -> R {
        let c: Vec<usize> = {
            let h = self.tw.h.borrow();
            h.globs.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect()
        };
        if c.is_empty() {
            return Ok(());
        }
        let a = *s.pick(&c);
        let g = self.tw.h.borrow().globs[a].unwrap();
        let ty = self.ms.globs[a].ty;
        self.host_ops += 1;
        cx.label_n("host global operations", 1);
        macro_rules! guard {
            ($e:expr) => {
                match guarded(|| $e) {
                    Ok(r) => r,
                    Err(p) => return self.bad(panic_sig(&p), format!("panic: {p}")),
                }
            };
        }
        match s.below(4) {
            0 => {
                self.note(format!("global {a}: ty and get"));
                match guard!(g.ty(&self.tw.store)) {
                    Ok(t) if t.ty == wt(ty.t) && t.mutable == ty.m => {}
                    r => return self.bad("global type", format!("declared {ty:?}, got {r:?}")),
                }
            }
            1 => {
                let wv = self.other_value(s, ty.t);
                self.note(format!("set global {a} ({ty:?}) to a value of another type, {}", show_w(&wv)));
                if let Ok(r) = guard!(g.set(&mut self.tw.store, wv)) {
                    return self.bad("global set accepts another type", format!("{r:?}"));
                }
            }
            _ => {
                let v = self.arg(s, ty.t);
                let wv = self.tw.h.borrow().to_wv(ty.t, v);
                self.note(format!("set global {a} ({ty:?}) = {}", show(ty.t, v)));
                let r = guard!(g.set(&mut self.tw.store, wv));
                if r.is_ok() != ty.m {
                    return self.bad("global set", format!("mutable: {}, got {r:?}", ty.m));
                }
                if ty.m {
                    self.ms.globs[a].v = v;
                }
            }
        }
        self.check("after a host global access")
    }
}

/// Text with characters from one to four UTF-8 bytes.
pub fn text(s: &mut Src, no_nul: bool) -> String {
    let n = s.below(12);
    (0..n)
        .map(|_| match s.below(8) {
            0 => *s.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}']),
            1 => char::from_u32(0x10000 + s.below(0x100000) as u32).unwrap_or('x'),
            2 => char::from_u32(0x80 + s.below(0x700) as u32).unwrap_or('y'),
            3 if !no_nul => '\0',
            _ => (b' ' + s.below(94) as u8) as char,
        })
        .collect()
}
