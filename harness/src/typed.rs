//! Typed host functions and typed handles: a table of Rust signatures, each with its own conversion from and
//! to plain values (independent of tinywasm's conversion traits).

use crate::ir::*;
use crate::model::HostBeh;
use crate::tw::{Drive, Handles, run_host};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;
use tinywasm::types::{ExternRef, FuncRef, WasmValue};
use tinywasm::{Error, ExecProgress, FuncContext, Function, FunctionTyped, HostFunction, ModuleInstance, Store, WasmTupleChain};

type Vals<'a> = std::slice::Iter<'a, WasmValue>;

/// A Rust shape of a parameter or result list.
pub trait Pack: Sized + 'static {
    fn tys(o: &mut Vec<VT>);
    fn put(self, o: &mut Vec<WasmValue>);
    fn take(i: &mut Vals) -> Self;
}
macro_rules! scalar {
    ($($t:ty, $v:ident, $w:ident;)*) => {$(
        impl Pack for $t {
            fn tys(o: &mut Vec<VT>) {
                o.push(VT::$v);
            }
            fn put(self, o: &mut Vec<WasmValue>) {
                o.push(WasmValue::$w(self));
            }
            fn take(i: &mut Vals) -> Self {
                match i.next() {
                    Some(WasmValue::$w(x)) => *x,
                    v => panic!("typed value: expected {}, got {v:?}", stringify!($w)),
                }
            }
        }
    )*};
}
scalar! {
    i32, I32, I32;
    i64, I64, I64;
    f32, F32, F32;
    f64, F64, F64;
    FuncRef, Func, RefFunc;
    ExternRef, Extern, RefExtern;
}
macro_rules! tuple {
    ($($t:ident)*) => {
        #[allow(non_snake_case, unused)]
        impl<$($t: Pack),*> Pack for ($($t,)*) {
            fn tys(o: &mut Vec<VT>) {
                $($t::tys(o);)*
            }
            fn put(self, o: &mut Vec<WasmValue>) {
                let ($($t,)*) = self;
                $($t.put(o);)*
            }
            fn take(i: &mut Vals) -> Self {
                ($($t::take(i),)*)
            }
        }
    };
}
tuple!();
tuple!(A);
tuple!(A B);
tuple!(A B C);
tuple!(A B C D);
tuple!(A B C D E);
tuple!(A B C D E F);
tuple!(A B C D E F G);
tuple!(A B C D E F G H);
tuple!(A B C D E F G H I);
tuple!(A B C D E F G H I J);
tuple!(A B C D E F G H I J K);
tuple!(A B C D E F G H I J K L);
impl<A: Pack, B: Pack> Pack for WasmTupleChain<A, B> {
    fn tys(o: &mut Vec<VT>) {
        A::tys(o);
        B::tys(o);
    }
    fn put(self, o: &mut Vec<WasmValue>) {
        let (a, b) = self.into_inner();
        a.put(o);
        b.put(o);
    }
    fn take(i: &mut Vals) -> Self {
        let a = A::take(i);
        WasmTupleChain::new(a, B::take(i))
    }
}

fn list<P: Pack>(v: P) -> Vec<WasmValue> {
    let mut o = vec![];
    v.put(&mut o);
    o
}

/// A typed handle behind a list-of-values interface.
pub trait TypedCall {
    fn drive(&self, store: &mut Store, args: &[WasmValue], d: &Drive, limit: u64, n: &mut (u64, u64)) -> Result<Vec<WasmValue>, Error>;
    fn nested(&self, ctx: &mut FuncContext<'_>, args: &[WasmValue]) -> Result<Vec<WasmValue>, Error>;
}

#[cfg(feature = "full")]
macro_rules! slice {
    ($x:expr, $d:expr) => {
        $x.resume_with_time_budget($d)
    };
}
#[cfg(not(feature = "full"))]
macro_rules! slice {
    ($x:expr, $d:expr) => {
        $x.resume_with_fuel(crate::compat::fuel($d))
    };
}

macro_rules! pairs {
    ($($p:ty => $r:ty;)*) => {
        $(const _: () = {
            impl TypedCall for FunctionTyped<$p, $r> {
                fn drive(&self, store: &mut Store, args: &[WasmValue], d: &Drive, limit: u64, n: &mut (u64, u64)) -> Result<Vec<WasmValue>, Error> {
                    let a = <$p as Pack>::take(&mut args.iter());
                    if *d == Drive::Call {
                        return Ok(list(self.call(store, a)?));
                    }
                    let mut x = self.call_resumable(store, a)?;
                    loop {
                        let i = n.0 as usize;
                        n.0 += 1;
                        let p = match d {
                            Drive::Fuel(s) => x.resume_with_fuel(s[i % s.len()]),
                            Drive::Mixed(s) if i % 2 == 0 => x.resume_with_fuel(s[i % s.len()]),
                            _ => slice!(x, crate::tw::time_slice(i)),
                        };
                        let again = || (x.resume_with_fuel(1 << 20).is_err(), slice!(x, std::time::Duration::from_millis(50)).is_err());
                        match crate::tw::ended(p, again)? {
                            ExecProgress::Completed(v) => return Ok(list(v)),
                            ExecProgress::Suspended => n.1 += 1,
                        }
                        if n.0 > limit {
                            return Err(Error::Other("twv: too many resumes".into()));
                        }
                    }
                }
                fn nested(&self, ctx: &mut FuncContext<'_>, args: &[WasmValue]) -> Result<Vec<WasmValue>, Error> {
                    Ok(list(ctx.call(self, <$p as Pack>::take(&mut args.iter()))?))
                }
            }
        };)*
        fn make() -> Vec<Pair> {
            let mut v = vec![];
            $({
                let (mut p, mut r) = (vec![], vec![]);
                <$p as Pack>::tys(&mut p);
                <$r as Pack>::tys(&mut r);
                v.push(Pair {
                    ty: FT { p, r },
                    host: |store, h, t, beh| {
                        HostFunction::from(store, move |mut ctx: FuncContext<'_>, a: $p| {
                            let r = run_host(&mut ctx, &list(a), &h, &t, &beh)?;
                            Ok(<$r as Pack>::take(&mut r.iter()))
                        })
                    },
                    #[cfg(feature = "dbg")]
                    get_idx: |i, store, k| i.func_typed_by_index::<$p, $r>(store, k).map(|f| Rc::new(f) as Rc<dyn TypedCall>),
                    get: |i, store, name| i.func::<$p, $r>(store, name).map(|f| Rc::new(f) as Rc<dyn TypedCall>),
                });
            })*
            v
        }
    };
}

type MakeHost = fn(&mut Store, Rc<RefCell<Handles>>, FT, HostBeh) -> Function;
type GetTyped = fn(&ModuleInstance, &Store, &str) -> Result<Rc<dyn TypedCall>, Error>;

pub struct Pair {
    pub ty: FT,
    pub host: MakeHost,
    pub get: GetTyped,
    #[cfg(feature = "dbg")]
    pub get_idx: fn(&ModuleInstance, &Store, u32) -> Result<Rc<dyn TypedCall>, Error>,
}

pub fn table() -> &'static [Pair] {
    static T: OnceLock<Vec<Pair>> = OnceLock::new();
    T.get_or_init(make)
}
pub fn find(t: &FT) -> Option<&'static Pair> {
    table().iter().find(|p| p.ty == *t)
}

pairs! {
    i32 => i32;
    i64 => i64;
    f32 => f32;
    f64 => f64;
    FuncRef => FuncRef;
    ExternRef => ExternRef;
    () => ();
    () => i32;
    i32 => ();
    i64 => i32;
    (i32, i64) => (i64, i32);
    (f32,) => (f64, ExternRef, i32, i32, FuncRef);
    (i32, f32) => (FuncRef, i32, FuncRef, i64, i32, i32, f64, f64, i32, i64);
    (i32, FuncRef, f64) => (i32, FuncRef);
    (i32, i64, ExternRef, ExternRef) => (FuncRef, i32, FuncRef, FuncRef, f64, i32, i64);
    (i32, FuncRef, i64, f32, f64) => (i64, FuncRef, i32, FuncRef, f32, FuncRef, ExternRef, i64, i32, FuncRef, FuncRef, ExternRef);
    (i64, f32, i32, FuncRef, ExternRef, i32) => (FuncRef, i32, FuncRef, i64);
    (f64, ExternRef, FuncRef, f64, f32, f64, FuncRef) => (f64, f32, f32, i64, i64, ExternRef, i64, i32, FuncRef);
    (f32, FuncRef, f64, f32, ExternRef, f64, f32, FuncRef) => i32;
    (f64, i64, f32, i64, f64, f64, i32, ExternRef, i32) => (FuncRef, FuncRef, f32, f32, ExternRef, f32);
    (FuncRef, f64, FuncRef, f64, i32, i32, f32, f64, ExternRef, ExternRef) => (i32, i32, ExternRef, ExternRef, f32, ExternRef, FuncRef, ExternRef, f64, f32, ExternRef);
    (f64, ExternRef, f32, i32, f64, f32, i64, FuncRef, i32, f64, i32) => (i64, f32, i64);
    (ExternRef, i64, f64, f64, f64, i32, i64, f64, f64, FuncRef, f32, i64) => (f64, FuncRef, f32, ExternRef, f64, f32, ExternRef, f64);
    (i64, i64, i32, i64, i64, i64, ExternRef) => i64;
    FuncRef => (f32, i32);
    (i64, f64, FuncRef, f32, FuncRef, FuncRef, f32, i64) => (ExternRef, FuncRef, FuncRef);
    (ExternRef, ExternRef) => (ExternRef, i32, f64, ExternRef);
    (FuncRef, f64, f64, f64, f64, i32, f64, ExternRef, f64) => (i32, i64, i32, i64, f64);
    (i64, i32, f32) => (FuncRef, i32, i32, i32, FuncRef, i64);
    (FuncRef, i32, f32, FuncRef, i32, i32, i64, FuncRef, f64, i64) => (ExternRef, f32, f32, FuncRef, f32, f64, i32);
    (i32, f64, f64, f64) => (f64, f32, i32, i64, i32, ExternRef, f32, ExternRef);
    (f32, f64, ExternRef, i64, FuncRef, i32, i64, FuncRef, f32, i64, ExternRef) => (FuncRef, i32, FuncRef, f32, ExternRef, i32, ExternRef, f32, FuncRef);
    (f32, i64, f32, i64, FuncRef) => (FuncRef, FuncRef, f32, ExternRef, i64, FuncRef, i64, i64, f64, ExternRef);
    (i64, i64, FuncRef, f64, f32, ExternRef, i32, i32, f32, f64, f32, i64) => (ExternRef, FuncRef, f32, f64, ExternRef, f32, f32, i32, i64, i32, i64);
    (f64, i64, f32, i64, f64, FuncRef) => (FuncRef, i32, f64, ExternRef, f32, ExternRef, i32, ExternRef, i32, f64, ExternRef, i64);
    WasmTupleChain<i64, ExternRef> => (ExternRef, i32, ExternRef);
    WasmTupleChain<(i64,), (i32, i64, FuncRef, f64)> => (FuncRef,);
    WasmTupleChain<(i64, i32), WasmTupleChain<(i64, f32, FuncRef, i64), (FuncRef, f32, f32, FuncRef, f64)>> => WasmTupleChain<(), ()>;
    WasmTupleChain<(i64, i64), WasmTupleChain<(FuncRef, ExternRef, i32, FuncRef, i32, f32, ExternRef), (FuncRef, FuncRef, FuncRef, f64)>> => WasmTupleChain<(), ()>;
    WasmTupleChain<(i32, i32, FuncRef, f64), (FuncRef, i32, i32, f64, f32, FuncRef, FuncRef, FuncRef, FuncRef, i64)> => (f64, FuncRef, i64);
    WasmTupleChain<(f32, FuncRef, i64, f64, i64, f64, i32, f64, f64, f32, i32, ExternRef), (i64, f64, i32, i64, ExternRef)> => WasmTupleChain<(), ()>;
    WasmTupleChain<(ExternRef, f32, i64, f32, i64, f64, i64, ExternRef, i32, f64, f64, i64), (ExternRef, i64, i64, ExternRef, f64, FuncRef, f64, f32)> => (ExternRef, f32);
    () => WasmTupleChain<(f64,), f64>;
    WasmTupleChain<(), (i64, i32, i32, f32)> => WasmTupleChain<(f32,), (f64, ExternRef, f32)>;
    WasmTupleChain<(f64, ExternRef, f32, i32), ()> => WasmTupleChain<f64, WasmTupleChain<(f32, ExternRef), WasmTupleChain<(FuncRef, i64, f32, f64), (FuncRef, ExternRef, i64, f32, f32)>>>;
    (i32, ExternRef) => WasmTupleChain<(FuncRef, i64, FuncRef, f64, i64, f64, i32, ExternRef), (ExternRef, f64, ExternRef, f64, FuncRef)>;
    WasmTupleChain<(ExternRef, i64), i64> => WasmTupleChain<(f64, f32, i32, i64), (i32, i32, ExternRef, ExternRef, f32, f64, i64, i32, i32, ExternRef, f64, FuncRef)>;
    (ExternRef, f32) => WasmTupleChain<(f64, i64, i64, f32, f64, i32, f32, f32, f32, FuncRef, f32, i64), (i32, f32, i64, f32, i64, i32, f32)>;
    WasmTupleChain<f32, WasmTupleChain<(ExternRef, i64, i32, ExternRef, FuncRef), WasmTupleChain<(ExternRef, ExternRef, FuncRef, i64, FuncRef, FuncRef), (FuncRef,)>>> => WasmTupleChain<(i32, i32, i32, i64, ExternRef, f32, i32), (f64, f64, FuncRef, i32, ExternRef, i32, ExternRef, FuncRef)>;
    WasmTupleChain<WasmTupleChain<(FuncRef, f32, ExternRef, f32, ExternRef, ExternRef, ExternRef, FuncRef, i32, f64, i64, ExternRef), (i32, i64, i32, f32, f64, i64, f64, FuncRef, i32)>, (FuncRef, i64, i32, ExternRef, i64)> => ();
    WasmTupleChain<(f64, f32, i64), WasmTupleChain<(f64, i64, i32, i64, FuncRef, FuncRef, f64, i64, i64, i32, i32, i64), (i64, i64, i64, f32, f32, i64, FuncRef, ExternRef, ExternRef, i64, i64, ExternRef)>> => (i64, f64);
    WasmTupleChain<WasmTupleChain<(f32,), (i32, f32, f64, i64, i64, f32, i32, f32, f32, FuncRef, FuncRef, i32)>, WasmTupleChain<(FuncRef, ExternRef), (ExternRef, f32, i32, f32, f32, f32, f64, ExternRef, f32, i64, f64, f64)>> => i32;
    i32 => WasmTupleChain<WasmTupleChain<(ExternRef, i64, i32, f32, i32, ExternRef, f32), (f64, i32, FuncRef, f64, f32, f64, FuncRef, i32)>, (f64, i32, ExternRef)>;
    (i64, FuncRef) => WasmTupleChain<(i64,), WasmTupleChain<(i32, i64, f64, f32, FuncRef, f32, FuncRef, f32, f64, i32, FuncRef, ExternRef), (f32, f32, i32, f64, i32, i64)>>;
    () => WasmTupleChain<WasmTupleChain<(f32, FuncRef, FuncRef, f32, i64, f32, f32, ExternRef, FuncRef, i32, f32, ExternRef), WasmTupleChain<(f32, f32, i64, i32, ExternRef, i64, ExternRef, ExternRef, f32, f64, i64, ExternRef), i64>>, WasmTupleChain<f32, (i32, i32, FuncRef, FuncRef, f64, i32, i64, ExternRef, FuncRef, f32, f32)>>;
    WasmTupleChain<WasmTupleChain<i64, i32>, f64> => WasmTupleChain<WasmTupleChain<(), i32>, WasmTupleChain<f64, ()>>;
    (f32, i32, f64, i32) => ();
    (ExternRef,) => (i32, f32);
    (ExternRef, i64) => (ExternRef,);
    (f64, f64, i32, f64) => (i32, FuncRef);
    (i32, FuncRef) => f32;
    (FuncRef, FuncRef, i64) => ();
    (i32, f64, f32, ExternRef) => ();
    (ExternRef, f64) => (ExternRef, FuncRef);
}
