//! The library's wrapper types behind one object-safe interface, and the recipes to build them.

use crate::heap::tracked;
use crate::mem::{sh, Ev, Mem, MEMS};
use crate::world::{self, w};
use closure_ffi::{
    bare_closure::*,
    cc,
    jit_alloc::{GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess},
    traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk, ToBoxedDyn},
};
use std::{ops::Deref, rc::Rc, sync::Arc};

pub type B = unsafe extern "C" fn(u64, u64) -> u64;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Once,
    Mut,
    Fn,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    Small,
    Big,
    Byte,
    Plain,
    Wide,
    Zst,
    ZstDrop,
    /// a thunk whose compiled prologue cannot be relocated
    Refused,
}
impl Class {
    pub fn zero_sized(self) -> bool {
        matches!(self, Class::Zst | Class::ZstDrop)
    }
    pub fn counted(self) -> bool {
        !matches!(self, Class::Plain | Class::Wide | Class::Zst)
    }
}
/// type-erased storage: Any, Send, Sync, Send + Sync
pub const FORMS: [&str; 4] = ["Any", "Send", "Sync", "SendSync"];
pub fn upcasts(form: u8) -> &'static [u8] {
    match form {
        0 => &[0],
        1 => &[0, 1],
        2 => &[0, 2],
        _ => &[0, 1, 2, 3],
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Handle {
    Direct,
    Ref,
    Rc,
    Arc,
    Box,
    Custom,
    Global,
}
impl Handle {
    pub fn tracked(self) -> bool {
        !matches!(self, Handle::Ref | Handle::Global)
    }
    pub fn sendable(self) -> bool {
        self != Handle::Rc
    }
}

pub trait Wrapper {
    fn ptr(&self) -> *const ();
    fn rebox(self: Box<Self>) -> Box<dyn Wrapper>;
    fn untyped(self: Box<Self>) -> Box<dyn Wrapper>;
    fn upcast_to(self: Box<Self>, to: u8) -> Box<dyn Wrapper>;
    fn into_form(self: Box<Self>, to: u8) -> Box<dyn Wrapper>;
    fn leak_it(self: Box<Self>) -> *const ();
    fn retyped(self: Box<Self>) -> Box<dyn Wrapper>;
}

pub trait Form: 'static {
    fn up_once<A: JitAlloc + 'static>(x: BareFnOnceAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn up_mut<A: JitAlloc + 'static>(x: BareFnMutAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn up_fn<A: JitAlloc + 'static>(x: BareFnAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn uup_once<A: JitAlloc + 'static>(x: UntypedBareFnOnce<Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn uup_mut<A: JitAlloc + 'static>(x: UntypedBareFnMut<Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn uup_fn<A: JitAlloc + 'static>(x: UntypedBareFn<Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn into_once<A: JitAlloc + 'static>(x: BareFnOnceAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn into_mut<A: JitAlloc + 'static>(x: BareFnMutAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
    fn into_fn<A: JitAlloc + 'static>(x: BareFnAny<B, Self, A>, to: u8) -> Box<dyn Wrapper>;
}
macro_rules! form {
    ($s:ty, $($n:literal $t:ty),*) => {
        impl Form for $s {
            form!(@ up_once BareFnOnceAny<B,> upcast $($n $t),*);
            form!(@ up_mut BareFnMutAny<B,> upcast $($n $t),*);
            form!(@ up_fn BareFnAny<B,> upcast $($n $t),*);
            form!(@ uup_once UntypedBareFnOnce<> upcast $($n $t),*);
            form!(@ uup_mut UntypedBareFnMut<> upcast $($n $t),*);
            form!(@ uup_fn UntypedBareFn<> upcast $($n $t),*);
            form!(# into_once BareFnOnceAny UntypedBareFnOnce $($n $t),*);
            form!(# into_mut BareFnMutAny UntypedBareFnMut $($n $t),*);
            form!(# into_fn BareFnAny UntypedBareFn $($n $t),*);
        }
    };
    (@ $name:ident $ty:ident<$($b:ty,)?> $m:ident $($n:literal $t:ty),*) => {
        fn $name<A: JitAlloc + 'static>(x: $ty<$($b,)? Self, A>, to: u8) -> Box<dyn Wrapper> {
            match to {
                $($n => { let y = tracked(|| x.$m::<$t>()); Box::new(y) })*
                _ => crate::report::engine("impossible upcast"),
            }
        }
    };
    (# $name:ident $from:ident $into:ident $($n:literal $t:ty),*) => {
        fn $name<A: JitAlloc + 'static>(x: $from<B, Self, A>, to: u8) -> Box<dyn Wrapper> {
            match to {
                $($n => { let y: $into<$t, A> = tracked(|| x.into()); Box::new(y) })*
                _ => crate::report::engine("impossible conversion"),
            }
        }
    };
}
form!(dyn Any, 0 dyn Any);
form!(dyn Send, 0 dyn Any, 1 dyn Send);
form!(dyn Sync, 0 dyn Any, 2 dyn Sync);
form!(dyn Send + Sync, 0 dyn Any, 1 dyn Send, 2 dyn Sync, 3 dyn Send + Sync);

macro_rules! wrappers {
    ($typed:ident, $untyped:ident, $up:ident, $uup:ident, $into:ident, $x:ident => $tp:expr, $up_:expr) => {
        impl<S: Form + ?Sized, A: JitAlloc + 'static> Wrapper for $typed<B, S, A> {
            fn ptr(&self) -> *const () {
                let $x = self;
                $tp
            }
            fn rebox(self: Box<Self>) -> Box<dyn Wrapper> {
                Box::new(*self)
            }
            fn untyped(self: Box<Self>) -> Box<dyn Wrapper> {
                let y = tracked(|| (*self).into_untyped());
                Box::new(y)
            }
            fn upcast_to(self: Box<Self>, to: u8) -> Box<dyn Wrapper> {
                S::$up(*self, to)
            }
            fn into_form(self: Box<Self>, to: u8) -> Box<dyn Wrapper> {
                S::$into(*self, to)
            }
            fn leak_it(self: Box<Self>) -> *const () {
                let x = *self;
                tracked(|| x.leak()) as *const ()
            }
            fn retyped(self: Box<Self>) -> Box<dyn Wrapper> {
                crate::report::engine("already typed")
            }
        }
        impl<S: Form + ?Sized, A: JitAlloc + 'static> Wrapper for $untyped<S, A> {
            fn ptr(&self) -> *const () {
                let $x = self;
                $up_
            }
            fn rebox(self: Box<Self>) -> Box<dyn Wrapper> {
                Box::new(*self)
            }
            fn untyped(self: Box<Self>) -> Box<dyn Wrapper> {
                crate::report::engine("already untyped")
            }
            fn upcast_to(self: Box<Self>, to: u8) -> Box<dyn Wrapper> {
                S::$uup(*self, to)
            }
            fn into_form(self: Box<Self>, _to: u8) -> Box<dyn Wrapper> {
                crate::report::engine("already untyped")
            }
            fn leak_it(self: Box<Self>) -> *const () {
                let x = *self;
                tracked(|| x.leak())
            }
            // documented: the two types may be transmuted into each other
            fn retyped(self: Box<Self>) -> Box<dyn Wrapper> {
                let x = core::mem::ManuallyDrop::new(*self);
                let y: $typed<B, S, A> = unsafe { core::mem::transmute_copy(&x) };
                Box::new(y)
            }
        }
    };
}
wrappers!(BareFnOnceAny, UntypedBareFnOnce, up_once, uup_once, into_once, _x => core::ptr::null(), core::ptr::null());
wrappers!(BareFnMutAny, UntypedBareFnMut, up_mut, uup_mut, into_mut, x => x.bare() as *const (), x.bare());
wrappers!(BareFnAny, UntypedBareFn, up_fn, uup_fn, into_fn, x => x.bare() as *const (), x.bare());

// ---------------------------------------------------------------- allocator handles

/// An allocator handle whose destruction is observed.
pub struct Direct {
    pub mem: &'static Mem,
    pub id: u32,
}
impl JitAlloc for Direct {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        self.mem.alloc(size)
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        self.mem.release(rx)
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
        self.mem.protect_jit_memory(p, n, a)
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        self.mem.flush_instruction_cache(p, n)
    }
}
impl Drop for Direct {
    fn drop(&mut self) {
        sh().log.push(Ev::HandleDrop { handle: self.id as usize });
        w().handle_drops[self.id as usize] += 1;
    }
}
pub struct Ad(pub Direct);
impl Deref for Ad {
    type Target = Direct;
    fn deref(&self) -> &Direct {
        &self.0
    }
}

pub trait Handles: JitAlloc + Sized + 'static {
    const HANDLE: Handle;
    fn make(mem: usize, id: u32) -> Self;
}
fn direct(mem: usize, id: u32) -> Direct {
    Direct { mem: &MEMS[mem], id }
}
macro_rules! handles { ($($t:ty, $h:ident, $e:expr);*) => { $(
    impl Handles for $t {
        const HANDLE: Handle = Handle::$h;
        fn make(mem: usize, id: u32) -> Self { let f: fn(usize, u32) -> Self = $e; f(mem, id) }
    } )* } }
handles!(
    Direct, Direct, direct;
    &'static Mem, Ref, |m, _| &MEMS[m];
    Rc<Direct>, Rc, |m, i| Rc::new(direct(m, i));
    Arc<Direct>, Arc, |m, i| Arc::new(direct(m, i));
    Box<Direct>, Box, |m, i| Box::new(direct(m, i));
    Ad, Custom, |m, i| Ad(direct(m, i));
    GlobalJitAlloc, Global, |_, _| GlobalJitAlloc
);
struct G;
impl Deref for G {
    type Target = Mem;
    fn deref(&self) -> &Mem {
        &MEMS[0]
    }
}
static GLOBAL: G = G;
#[cfg(not(feature = "block"))]
closure_ffi::global_jit_alloc!(GLOBAL);
#[cfg(feature = "block")]
closure_ffi::global_jit_alloc!(unsafe { &GLOBAL });

// ---------------------------------------------------------------- constructors

pub const CTORS: [&str; 6] = ["try_with_cc_in", "with_cc_in", "new_in", "new_c_in", "try_with_thunk_in", "with_thunk_in"];
pub const GCTORS: [&str; 4] = ["new", "with_cc", "new_c", "with_thunk"];
pub fn ctor_name(c: u8) -> &'static str {
    if c < 6 { CTORS[c as usize] } else { GCTORS[c as usize - 6] }
}
pub fn fallible(c: u8) -> bool {
    c == 0 || c == 4
}

macro_rules! ctors {
    ($name:ident, $gname:ident, $ty:ident, $tr:ident) => {
        fn $name<F, S: ?Sized, A: JitAlloc>(c: u8, f: F, a: A) -> Result<$ty<B, S, A>, JitAllocError>
        where
            F: ToBoxedDyn<S>,
            (cc::C, F): $tr<B> + ToBoxedDyn<S>,
        {
            tracked(|| match c {
                0 => $ty::try_with_cc_in(cc::C, f, a),
                1 => Ok($ty::with_cc_in(cc::C, f, a)),
                2 => Ok($ty::new_in(f, a)),
                3 => Ok($ty::new_c_in(f, a)),
                4 => $ty::try_with_thunk_in((cc::C, f), a),
                5 => Ok($ty::with_thunk_in((cc::C, f), a)),
                _ => crate::report::engine("constructor"),
            })
        }
        fn $gname<F, S: ?Sized>(c: u8, f: F) -> Result<$ty<B, S, GlobalJitAlloc>, JitAllocError>
        where
            F: ToBoxedDyn<S>,
            (cc::C, F): $tr<B> + ToBoxedDyn<S>,
        {
            tracked(|| match c {
                6 => Ok($ty::new(f)),
                7 => Ok($ty::with_cc(cc::C, f)),
                8 => Ok($ty::new_c(f)),
                9 => Ok($ty::with_thunk((cc::C, f))),
                _ => crate::report::engine("constructor"),
            })
        }
    };
}
ctors!(ctor_once, gctor_once, BareFnOnceAny, FnOnceThunk);
ctors!(ctor_mut, gctor_mut, BareFnMutAny, FnMutThunk);
ctors!(ctor_fn, gctor_fn, BareFnAny, FnThunk);

// ---------------------------------------------------------------- closures

macro_rules! closure {
    (Once Small $id:expr) => {{ let c = world::Small::new($id); move |a: u64, b: u64| -> u64 { let c = c; c.hit(a, b) } }};
    (Once Big $id:expr) => {{ let c = world::Big::new($id); move |a: u64, b: u64| -> u64 { let c = c; c.hit(a, b) } }};
    (Once Byte $id:expr) => {{ let c = world::Byte::new($id); move |a: u64, b: u64| -> u64 { let c = c; c.hit(a, b) } }};
    (Once Plain $id:expr) => {{ let c = world::Plain::new($id); move |a: u64, b: u64| -> u64 { let c = c; c.hit(a, b) } }};
    (Once Wide $id:expr) => {{ let c = world::Wide::new($id); move |a: u64, b: u64| -> u64 { let c = c; c.hit(a, b) } }};
    (Once Zst $id:expr) => {{ let _ = $id; move |a: u64, b: u64| -> u64 { world::zst_hit::<0>(a, b) } }};
    (Once ZstDrop $id:expr) => {{ let _ = $id; let z = world::Z::<1>; move |a: u64, b: u64| -> u64 { let z = z; z.hit(a, b) } }};
    (Mut Small $id:expr) => {{ let mut c = world::Small::new($id); move |a: u64, b: u64| -> u64 { c.hit_mut(a, b) } }};
    (Mut Big $id:expr) => {{ let mut c = world::Big::new($id); move |a: u64, b: u64| -> u64 { c.hit_mut(a, b) } }};
    (Mut Byte $id:expr) => {{ let mut c = world::Byte::new($id); move |a: u64, b: u64| -> u64 { let c = &mut c; c.hit(a, b) } }};
    (Mut Plain $id:expr) => {{ let mut c = world::Plain::new($id); move |a: u64, b: u64| -> u64 { let c = &mut c; c.hit(a, b) } }};
    (Mut Wide $id:expr) => {{ let mut c = world::Wide::new($id); move |a: u64, b: u64| -> u64 { let c = &mut c; c.hit(a, b) } }};
    (Mut Zst $id:expr) => {{ let _ = $id; move |a: u64, b: u64| -> u64 { world::zst_hit::<2>(a, b) } }};
    (Mut ZstDrop $id:expr) => {{ let _ = $id; let mut z = world::Z::<3>; move |a: u64, b: u64| -> u64 { let z = &mut z; z.hit(a, b) } }};
    (Fn Small $id:expr) => {{ let c = world::Small::new($id); move |a: u64, b: u64| -> u64 { c.hit(a, b) } }};
    (Fn Big $id:expr) => {{ let c = world::Big::new($id); move |a: u64, b: u64| -> u64 { c.hit(a, b) } }};
    (Fn Byte $id:expr) => {{ let c = world::Byte::new($id); move |a: u64, b: u64| -> u64 { let c = &c; c.hit(a, b) } }};
    (Fn Plain $id:expr) => {{ let c = world::Plain::new($id); move |a: u64, b: u64| -> u64 { let c = &c; c.hit(a, b) } }};
    (Fn Wide $id:expr) => {{ let c = world::Wide::new($id); move |a: u64, b: u64| -> u64 { let c = &c; c.hit(a, b) } }};
    (Fn Zst $id:expr) => {{ let _ = $id; move |a: u64, b: u64| -> u64 { world::zst_hit::<4>(a, b) } }};
    (Fn ZstDrop $id:expr) => {{ let _ = $id; let z = world::Z::<5>; move |a: u64, b: u64| -> u64 { let z = &z; z.hit(a, b) } }};
}
pub fn zst_index(kind: Kind, class: Class) -> usize {
    (match kind {
        Kind::Once => 0,
        Kind::Mut => 2,
        Kind::Fn => 4,
    }) + (class == Class::ZstDrop) as usize
}

/// A thunk type whose template has no place to put the closure pointer.
pub struct RefusedThunk(#[allow(dead_code)] world::Small);
mod refused {
    use closure_ffi::arch::consts::CLOSURE_ADDR_MAGIC;
    #[repr(C, align(16))]
    pub struct T<M>([[u8; 4]; 8], M, [u8; 64]);
    #[cfg(target_arch = "x86_64")]
    const NOP: [u8; 4] = [0x90; 4];
    // here the patched code is found by position, so make it a function that returns before it
    #[cfg(target_arch = "x86")]
    const NOP: [u8; 4] = [0x90, 0x90, 0x90, 0xC3];
    #[cfg(target_arch = "aarch64")]
    const NOP: [u8; 4] = [0x1f, 0x20, 0x03, 0xd5];
    #[cfg(all(target_arch = "arm", not(mc_thumb)))]
    const NOP: [u8; 4] = [0x00, 0xf0, 0x20, 0xe3];
    #[cfg(all(target_arch = "arm", mc_thumb))]
    const NOP: [u8; 4] = [0x00, 0xbf, 0x00, 0xbf];
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    pub static TEMPLATE: T<[u64; 2]> = T([NOP; 8], CLOSURE_ADDR_MAGIC, [0xC3; 64]);
    #[cfg(any(target_arch = "arm", target_arch = "aarch64"))]
    pub static TEMPLATE: T<usize> = T([NOP; 8], CLOSURE_ADDR_MAGIC, [0; 64]);
}
unsafe impl FnOnceThunk<B> for RefusedThunk {
    const THUNK_TEMPLATE_ONCE: *const u8 = &raw const refused::TEMPLATE as *const u8;
    unsafe fn call_once<'a, 'b, 'c>(self, _: <B as FnPtr>::Args<'a, 'b, 'c>) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
        0
    }
}
unsafe impl FnMutThunk<B> for RefusedThunk {
    const THUNK_TEMPLATE_MUT: *const u8 = &raw const refused::TEMPLATE as *const u8;
    unsafe fn call_mut<'a, 'b, 'c>(&mut self, _: <B as FnPtr>::Args<'a, 'b, 'c>) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
        0
    }
}
unsafe impl FnThunk<B> for RefusedThunk {
    const THUNK_TEMPLATE: *const u8 = &raw const refused::TEMPLATE as *const u8;
    unsafe fn call<'a, 'b, 'c>(&self, _: <B as FnPtr>::Args<'a, 'b, 'c>) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
        0
    }
}

pub type Maker = fn(u8, usize, u32) -> Result<Box<dyn Wrapper>, JitAllocError>;
#[derive(Clone, Copy)]
pub struct Row {
    pub kind: Kind,
    pub class: Class,
    pub form: u8,
    pub handle: Handle,
    pub make: Maker,
}

macro_rules! row {
    ($v:ident, $k:ident, $ctor:ident, $gctor:ident, $c:ident, $fi:literal $s:ty, Global $h:ty) => {
        $v.push(Row {
            kind: Kind::$k, class: Class::$c, form: $fi, handle: Handle::Global,
            make: |c, mem, id| {
                let _ = mem;
                let f = closure!($k $c id);
                let x = if c < 6 { $ctor::<_, $s, GlobalJitAlloc>(c, f, GlobalJitAlloc)? } else { $gctor::<_, $s>(c, f)? };
                Ok(Box::new(x))
            },
        });
    };
    ($v:ident, $k:ident, $ctor:ident, $gctor:ident, $c:ident, $fi:literal $s:ty, $hn:ident $h:ty) => {
        $v.push(Row {
            kind: Kind::$k, class: Class::$c, form: $fi, handle: <$h as Handles>::HANDLE,
            make: |c, mem, id| {
                let f = closure!($k $c id);
                let a = <$h as Handles>::make(mem, id);
                Ok(Box::new($ctor::<_, $s, $h>(c, f, a)?))
            },
        });
    };
}
macro_rules! refused_row {
    ($v:ident, $k:ident, $ty:ident) => {
        $v.push(Row {
            kind: Kind::$k, class: Class::Refused, form: 0, handle: Handle::Direct,
            make: |c, mem, id| {
                let t = RefusedThunk(world::Small::new(id));
                let a = direct(mem, id);
                let x: $ty<B, dyn Any, Direct> = tracked(|| match c {
                    4 => $ty::try_with_thunk_in(t, a),
                    _ => Ok($ty::with_thunk_in(t, a)),
                })?;
                Ok(Box::new(x))
            },
        });
    };
}
macro_rules! rows_forms {
    ($v:ident, $k:ident, $ctor:ident, $gctor:ident, $c:ident, $($h:tt)*) => {
        row!($v, $k, $ctor, $gctor, $c, 0 dyn Any, $($h)*);
        row!($v, $k, $ctor, $gctor, $c, 1 dyn Send, $($h)*);
        row!($v, $k, $ctor, $gctor, $c, 2 dyn Sync, $($h)*);
        row!($v, $k, $ctor, $gctor, $c, 3 dyn Send + Sync, $($h)*);
    };
}
macro_rules! rows_kind {
    ($v:ident, $k:ident, $ctor:ident, $gctor:ident) => {
        rows_forms!($v, $k, $ctor, $gctor, Small, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Big, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Byte, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Plain, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Wide, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Zst, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, ZstDrop, Direct Direct);
        rows_forms!($v, $k, $ctor, $gctor, Small, Global GlobalJitAlloc);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Global GlobalJitAlloc);
        row!($v, $k, $ctor, $gctor, Small, 0 dyn Any, Ref &'static Mem);
        row!($v, $k, $ctor, $gctor, Small, 3 dyn Send + Sync, Ref &'static Mem);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Ref &'static Mem);
        row!($v, $k, $ctor, $gctor, Small, 0 dyn Any, Rc Rc<Direct>);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Rc Rc<Direct>);
        row!($v, $k, $ctor, $gctor, Small, 0 dyn Any, Arc Arc<Direct>);
        row!($v, $k, $ctor, $gctor, Small, 3 dyn Send + Sync, Arc Arc<Direct>);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Arc Arc<Direct>);
        row!($v, $k, $ctor, $gctor, Small, 0 dyn Any, Box Box<Direct>);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Box Box<Direct>);
        row!($v, $k, $ctor, $gctor, Small, 0 dyn Any, Custom Ad);
        row!($v, $k, $ctor, $gctor, Small, 3 dyn Send + Sync, Custom Ad);
        row!($v, $k, $ctor, $gctor, ZstDrop, 0 dyn Any, Custom Ad);
    };
}
pub fn all_rows() -> Vec<Row> {
    let mut v = vec![];
    rows_kind!(v, Once, ctor_once, gctor_once);
    rows_kind!(v, Mut, ctor_mut, gctor_mut);
    rows_kind!(v, Fn, ctor_fn, gctor_fn);
    if cfg!(feature = "safe") {
        refused_row!(v, Once, BareFnOnceAny);
        refused_row!(v, Mut, BareFnMutAny);
        refused_row!(v, Fn, BareFnAny);
    }
    v
}

#[derive(Clone, Copy)]
pub struct Recipe {
    pub row: Row,
    pub mem: usize,
    pub ctor: u8,
}
impl Recipe {
    pub fn name(&self) -> String {
        format!(
            "{:?}/{:?}/{}/{:?}@{}/{}",
            self.row.kind,
            self.row.class,
            FORMS[self.row.form as usize],
            self.row.handle,
            self.mem,
            ctor_name(self.ctor)
        )
    }
}
pub fn recipe(rows: &[Row], kind: Kind, class: Class, form: u8, handle: Handle, mem: usize, ctor: u8) -> Recipe {
    let row = *rows
        .iter()
        .find(|r| r.kind == kind && r.class == class && r.form == form && r.handle == handle)
        .unwrap_or_else(|| crate::report::engine("no such recipe"));
    Recipe { row, mem: if handle == Handle::Global { 0 } else { mem }, ctor }
}
