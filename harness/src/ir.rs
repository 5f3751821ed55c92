//! Module representation shared by the generators, the encoder and the reference model.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum VT {
    I32,
    I64,
    F32,
    F64,
    V128,
    Func,
    Extern,
}

pub const NUM: [VT; 4] = [VT::I32, VT::I64, VT::F32, VT::F64];
pub const NUMV: [VT; 5] = [VT::I32, VT::I64, VT::F32, VT::F64, VT::V128];
pub const ALLT: [VT; 7] = [VT::I32, VT::I64, VT::F32, VT::F64, VT::V128, VT::Func, VT::Extern];

impl VT {
    pub fn is_ref(self) -> bool {
        matches!(self, VT::Func | VT::Extern)
    }
    pub fn byte(self) -> u8 {
        match self {
            VT::I32 => 0x7f,
            VT::I64 => 0x7e,
            VT::F32 => 0x7d,
            VT::F64 => 0x7c,
            VT::V128 => 0x7b,
            VT::Func => 0x70,
            VT::Extern => 0x6f,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct FT {
    pub p: Vec<VT>,
    pub r: Vec<VT>,
}

pub fn ft(p: &[VT], r: &[VT]) -> FT {
    FT { p: p.to_vec(), r: r.to_vec() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MemTy {
    pub m64: bool,
    pub min: u64,
    pub max: Option<u64>,
    /// log2 of the page size when a custom one is declared
    pub page: Option<u32>,
}

impl MemTy {
    pub fn page_size(&self) -> u64 {
        1 << self.page.unwrap_or(16)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TabTy {
    pub t64: bool,
    pub el: VT,
    pub min: u64,
    pub max: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GlobTy {
    pub t: VT,
    pub m: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Desc {
    Func(u32),
    Tab(TabTy),
    Mem(MemTy),
    Glob(GlobTy),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Func,
    Tab,
    Mem,
    Glob,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct MA {
    pub align: u32,
    pub off: u64,
    pub mem: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub enum BT {
    Empty,
    Val(VT),
    Ty(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum In {
    /// plain one-byte opcode without immediates (numeric, drop, select, nop, unreachable, return, ref.is_null)
    Op(u8),
    /// 0xFC opcode without immediates
    Fc(u32),
    I32(u32),
    I64(u64),
    F32(u32),
    F64(u64),
    V128(u128),
    Block(BT, Vec<In>),
    Loop(BT, Vec<In>),
    If(BT, Vec<In>, Option<Vec<In>>),
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Call(u32),
    CallInd {
        ty: u32,
        tab: u32,
    },
    RetCall(u32),
    RetCallInd {
        ty: u32,
        tab: u32,
    },
    SelectT(VT),
    LGet(u32),
    LSet(u32),
    LTee(u32),
    GGet(u32),
    GSet(u32),
    TGet(u32),
    TSet(u32),
    TSize(u32),
    TGrow(u32),
    TFill(u32),
    TCopy {
        d: u32,
        s: u32,
    },
    TInit {
        elem: u32,
        tab: u32,
    },
    ElemDrop(u32),
    /// scalar load or store, opcode 0x28..=0x3e
    Mem(u8, MA),
    MSize(u32),
    MGrow(u32),
    MFill(u32),
    MCopy {
        d: u32,
        s: u32,
    },
    MInit {
        data: u32,
        mem: u32,
    },
    DataDrop(u32),
    RefNull(VT),
    RefFunc(u32),
    Simd(u32),
    SimdLane(u32, u8),
    SimdMem(u32, MA),
    SimdMemLane(u32, MA, u8),
    Shuffle([u8; 16]),
}

pub const UNREACHABLE: In = In::Op(0x00);
pub const NOP: In = In::Op(0x01);
pub const RETURN: In = In::Op(0x0f);
pub const DROP: In = In::Op(0x1a);
pub const SELECT: In = In::Op(0x1b);
pub const REF_IS_NULL: In = In::Op(0xd1);

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Func {
    pub ty: u32,
    pub locals: Vec<VT>,
    pub body: Vec<In>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum ElemMode {
    Passive,
    Active { tab: u32, off: Vec<In> },
    Declared,
}

#[derive(Clone, PartialEq, Debug)]
pub enum ElemItems {
    Funcs(Vec<u32>),
    Exprs(VT, Vec<Vec<In>>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Elem {
    pub mode: ElemMode,
    pub items: ElemItems,
}

impl Elem {
    pub fn vt(&self) -> VT {
        match &self.items {
            ElemItems::Funcs(_) => VT::Func,
            ElemItems::Exprs(t, _) => *t,
        }
    }
    pub fn len(&self) -> usize {
        match &self.items {
            ElemItems::Funcs(f) => f.len(),
            ElemItems::Exprs(_, e) => e.len(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Data {
    /// None: passive
    pub active: Option<(u32, Vec<In>)>,
    pub bytes: Vec<u8>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Import {
    pub module: String,
    pub name: String,
    pub desc: Desc,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Export {
    pub name: String,
    pub kind: Kind,
    pub idx: u32,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<(TabTy, Option<Vec<In>>)>,
    pub mems: Vec<MemTy>,
    pub globals: Vec<(GlobTy, Vec<In>)>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
    /// custom sections: (position 0..=12, name, bytes)
    pub customs: Vec<(u8, String, Vec<u8>)>,
    /// emit a data count section even if no instruction needs it
    pub data_count: bool,
}

impl Module {
    pub fn ty(&mut self, t: FT) -> u32 {
        if let Some(i) = self.types.iter().position(|x| *x == t) {
            return i as u32;
        }
        self.types.push(t);
        self.types.len() as u32 - 1
    }
    pub fn n_imp(&self, k: Kind) -> u32 {
        self.imports.iter().filter(|i| kind_of(&i.desc) == k).count() as u32
    }
    pub fn func_ty_idx(&self, f: u32) -> u32 {
        let mut i = 0;
        for im in &self.imports {
            if let Desc::Func(t) = im.desc {
                if i == f {
                    return t;
                }
                i += 1;
            }
        }
        self.funcs[(f - i) as usize].ty
    }
    pub fn func_ty(&self, f: u32) -> &FT {
        &self.types[self.func_ty_idx(f) as usize]
    }
    pub fn n_funcs(&self) -> u32 {
        self.n_imp(Kind::Func) + self.funcs.len() as u32
    }
    pub fn mem_ty(&self, m: u32) -> MemTy {
        let mut v: Vec<MemTy> = self.imports.iter().filter_map(|i| if let Desc::Mem(t) = i.desc { Some(t) } else { None }).collect();
        v.extend(self.mems.iter());
        v[m as usize]
    }
    pub fn all_mems(&self) -> Vec<MemTy> {
        let mut v: Vec<MemTy> = self.imports.iter().filter_map(|i| if let Desc::Mem(t) = i.desc { Some(t) } else { None }).collect();
        v.extend(self.mems.iter());
        v
    }
    pub fn all_tabs(&self) -> Vec<TabTy> {
        let mut v: Vec<TabTy> = self.imports.iter().filter_map(|i| if let Desc::Tab(t) = i.desc { Some(t) } else { None }).collect();
        v.extend(self.tables.iter().map(|t| t.0));
        v
    }
    pub fn all_globs(&self) -> Vec<GlobTy> {
        let mut v: Vec<GlobTy> = self.imports.iter().filter_map(|i| if let Desc::Glob(t) = i.desc { Some(t) } else { None }).collect();
        v.extend(self.globals.iter().map(|t| t.0));
        v
    }
    pub fn export(&mut self, name: impl Into<String>, kind: Kind, idx: u32) {
        self.exports.push(Export { name: name.into(), kind, idx });
    }
}

pub fn kind_of(d: &Desc) -> Kind {
    match d {
        Desc::Func(_) => Kind::Func,
        Desc::Tab(_) => Kind::Tab,
        Desc::Mem(_) => Kind::Mem,
        Desc::Glob(_) => Kind::Glob,
    }
}
