//! Unusual import and export names.

use crate::ir::*;
use crate::tape::Src;

pub fn name(s: &mut Src) -> String {
    match s.below(8) {
        0 => String::new(),
        1 => "a".into(),
        2 => crate::hostops::text(s, false),
        3 => "memory".into(),
        4 => "_start".into(),
        5 => (0..s.range(100, 400)).map(|_| 'x').collect(),
        _ => (0..s.range(1, 8)).map(|_| (b'a' + s.below(4) as u8) as char).collect(),
    }
}

/// Further exports of existing items under unusual names.
pub fn odd_names(s: &mut Src, m: &mut Module) {
    for _ in 0..s.below(5) {
        let n = name(s);
        if m.exports.iter().any(|e| e.name == n) {
            continue;
        }
        let mut c: Vec<(Kind, u32)> = vec![];
        c.extend((0..m.n_funcs()).map(|i| (Kind::Func, i)));
        c.extend((0..m.all_tabs().len() as u32).map(|i| (Kind::Tab, i)));
        c.extend((0..m.all_mems().len() as u32).map(|i| (Kind::Mem, i)));
        c.extend((0..m.all_globs().len() as u32).map(|i| (Kind::Glob, i)));
        if !c.is_empty() {
            let (k, i) = *s.pick(&c);
            let at = s.usize(m.exports.len() + 1);
            m.exports.insert(at, Export { name: n, kind: k, idx: i });
        }
    }
}
