//! Function-pointer introspection and the thunk API: every route to the closure agrees with it.
#![allow(improper_ctypes_definitions, clippy::all, unused_variables, static_mut_refs, dead_code)]

mod rt;
#[macro_use]
mod sig;
use std::any::TypeId;

use closure_ffi::{
    cc, thunk_factory as tf,
    traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk, ToBoxedDyn},
    BareFnAny, BareFnMutAny, BareFnOnceAny,
};
use rt::*;
use sig::*;

type S = &'static Slab;

/// Number of calls the closure has counted.
static mut COUNT: u64 = 0;

/// A closure's own counter; the last value is visible in `COUNT`.
pub struct Counter {
    cap: Cap,
    n: std::cell::Cell<u64>,
}
impl Counter {
    fn new(id: u64) -> Self {
        Counter { cap: Cap::new(id), n: std::cell::Cell::new(0) }
    }
    #[inline(never)]
    fn enter(&self) {
        self.cap.enter();
        self.n.set(self.n.get() + 1);
        unsafe { COUNT = self.n.get() }
    }
}
/// Same with atomics, for closures that have to be Send and Sync.
pub struct SyncCounter {
    cap: Cap,
    n: std::sync::atomic::AtomicU64,
}
impl SyncCounter {
    fn new(id: u64) -> Self {
        SyncCounter { cap: Cap::new(id), n: Default::default() }
    }
    #[inline(never)]
    fn enter(&self) {
        self.cap.enter();
        let n = self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
        unsafe { COUNT = n }
    }
}
#[inline(never)]
fn enter_zst(id: u64) {
    enter(id);
    unsafe { COUNT += 1 }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Shared,
    Mut,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Value,
    Fn,
    FnMut,
    FnOnce,
}
fn sequences(alphabet: &[Route], depth: usize) -> Vec<Vec<Route>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..depth {
        last = last
            .iter()
            .flat_map(|s| {
                alphabet.iter().map(move |r| {
                    let mut s = s.clone();
                    s.push(*r);
                    s
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// One signature as the drivers need it.
struct Ty<'a, A, R> {
    s: &'a Sig,
    args: fn(u64) -> A,
    put: fn(R),
}
struct Run {
    id: u64,
    want: u64,
    seed: u64,
}

impl X {
    /// One step of a history: the closure observes the arguments and counts, the result arrives.
    fn step(&mut self, s: &Sig, r: &mut Run, f: &mut dyn FnMut(u64)) {
        r.seed += 1;
        let want = observe(s, s.native, r.seed);
        self.st.calls += 1;
        unsafe {
            CALLS = 0;
            ID = u64::MAX;
            RET_SEED = mix(r.seed ^ 0x5555);
        }
        f(r.seed);
        r.want += 1;
        let bytes = take_tape();
        let (calls, id, count) = unsafe { (CALLS, ID, COUNT) };
        if calls != 1 {
            viol(&format!("one call ran {calls} closures"));
        }
        if id != r.id {
            viol("the route does not reach its own closure, or its captures are damaged");
        }
        if bytes != want.bytes {
            viol("arguments or result differ");
        }
        if count != r.want {
            viol(&format!("the closure has counted {count} calls instead of {}", r.want));
        }
    }
    fn begin(&mut self, label: &str, what: &str, seq: &[Route], end: End, id: u64) -> Run {
        set_case(format!("{label} {what} {seq:?} {end:?}"));
        self.state(case());
        self.st.histories += 1;
        unsafe { COUNT = 0 };
        Run { id, want: 0, seed: 10 }
    }
    fn once<B, A, R, T>(&mut self, ty: &Ty<A, R>, what: &str, id: u64, mk: &dyn Fn() -> T)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        T: FnOnceThunk<B> + ToBoxedDyn<dyn Any> + 'static,
    {
        for end in [End::Value, End::FnOnce] {
            let mut r = self.begin(ty.s.label, what, &[], end, id);
            self.end_once::<B, A, R, T>(ty, &mut r, end, mk());
        }
    }
    fn end_once<B, A, R, T>(&mut self, ty: &Ty<A, R>, r: &mut Run, end: End, t: T)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        T: FnOnceThunk<B> + ToBoxedDyn<dyn Any> + 'static,
    {
        if end == End::Value {
            let mut t = Some(t);
            self.step(ty.s, r, &mut |s| (ty.put)(unsafe { t.take().unwrap().call_once((ty.args)(s)) }));
        }
        else {
            self.st.constructions += 1;
            let f = BareFnOnceAny::<B, dyn Any, S>::with_thunk_in(t, &SLAB).leak();
            self.step(ty.s, r, &mut |s| unsafe { drop((ty.s.call)(f.to_ptr(), s)) });
            reset_blocks();
        }
    }
    fn mutable<B, A, R, T>(&mut self, ty: &Ty<A, R>, what: &str, id: u64, mk: &dyn Fn() -> T)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        T: FnMutThunk<B> + ToBoxedDyn<dyn Any> + 'static,
    {
        for end in [End::Value, End::FnOnce, End::FnMut] {
            for seq in sequences(&[Route::Mut], 2) {
                let mut r = self.begin(ty.s.label, what, &seq, end, id);
                let mut t = mk();
                for _ in &seq {
                    self.step(ty.s, &mut r, &mut |s| (ty.put)(unsafe { t.call_mut((ty.args)(s)) }));
                }
                if end == End::FnMut {
                    self.end_mut::<B, A, R, T>(ty, &mut r, t);
                }
                else {
                    self.end_once::<B, A, R, T>(ty, &mut r, end, t);
                }
            }
        }
    }
    fn end_mut<B, A, R, T>(&mut self, ty: &Ty<A, R>, r: &mut Run, t: T)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        T: FnMutThunk<B> + ToBoxedDyn<dyn Any> + 'static,
    {
        self.st.constructions += 1;
        let w = BareFnMutAny::<B, dyn Any, S>::with_thunk_in(t, &SLAB);
        for packed in [false, true, false] {
            self.step(ty.s, r, &mut |s| unsafe {
                if packed {
                    (ty.put)(w.bare().call((ty.args)(s)))
                }
                else {
                    drop((ty.s.call)(w.bare().to_ptr(), s))
                }
            });
        }
    }
    fn shared<B, A, R, T>(&mut self, ty: &Ty<A, R>, what: &str, id: u64, mk: &dyn Fn() -> T)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        T: FnThunk<B> + ToBoxedDyn<dyn Any> + 'static,
    {
        for end in [End::Value, End::FnOnce, End::FnMut, End::Fn] {
            for seq in sequences(&[Route::Shared, Route::Mut], 2) {
                let mut r = self.begin(ty.s.label, what, &seq, end, id);
                let mut t = mk();
                for c in &seq {
                    self.step(ty.s, &mut r, &mut |s| {
                        (ty.put)(unsafe {
                            match c {
                                Route::Shared => t.call((ty.args)(s)),
                                Route::Mut => t.call_mut((ty.args)(s)),
                            }
                        })
                    });
                }
                match end {
                    End::FnMut => self.end_mut::<B, A, R, T>(ty, &mut r, t),
                    End::Fn => {
                        self.st.constructions += 1;
                        let w = BareFnAny::<B, dyn Any, S>::with_thunk_in(t, &SLAB);
                        for packed in [false, true, false] {
                            self.step(ty.s, &mut r, &mut |s| unsafe {
                                if packed {
                                    (ty.put)(w.bare().call((ty.args)(s)))
                                }
                                else {
                                    drop((ty.s.call)(w.bare().to_ptr(), s))
                                }
                            });
                        }
                    }
                    _ => self.end_once::<B, A, R, T>(ty, &mut r, end, t),
                }
            }
        }
    }
    /// Packed calls, conversions and associated types of the function-pointer type itself.
    fn pointer<B, A, R, C>(&mut self, ty: &Ty<A, R>, native: B)
    where
        B: for<'a, 'b, 'c> FnPtr<Args<'a, 'b, 'c> = A, Ret<'a, 'b, 'c> = R> + 'static,
        A: 'static,
        R: 'static,
        C: 'static,
    {
        let s = ty.s;
        set_case(format!("{} function pointer", s.label));
        self.state(case());
        for seed in 0..ROUNDS {
            let want = observe(s, s.native, seed);
            self.st.calls += 1;
            unsafe {
                CALLS = 0;
                ID = u64::MAX;
                RET_SEED = mix(seed ^ 0x5555);
                (ty.put)(native.call((ty.args)(seed)));
                if CALLS != 1 || ID != NATIVE || want.bytes != take_tape() {
                    viol("a packed call differs from a direct one");
                }
            }
        }
        let p = native.to_ptr();
        if p != s.native {
            viol("the untyped pointer is not the address of the function");
        }
        if unsafe { B::from_ptr(p) }.to_ptr() != p {
            viol("converting to an untyped pointer and back is not the identity");
        }
        for k in 0..64 {
            let q = (1usize << (k % usize::BITS)) as *const ();
            if unsafe { B::from_ptr(q) }.to_ptr() != q {
                viol("converting from an untyped pointer and back is not the identity");
            }
        }
        let f = unsafe { B::from_ptr(p) };
        if unsafe { std::mem::transmute_copy::<B, *const ()>(&f) } != p || std::mem::size_of::<B>() != std::mem::size_of::<*const ()>() {
            viol("the function pointer made from an untyped pointer is a different one");
        }
        let id = fn_type_id::<B::CC>();
        if std::any::type_name::<B::CC>() != std::any::type_name::<C>() || id != 0 {
            viol("the function pointer names another calling convention");
        }
    }
}
fn fn_type_id<T>() -> usize {
    std::mem::size_of::<T>()
}

macro_rules! case {
    ($x:ident, $label:literal, $cc:ident, $abi:literal, [$($a:ident : $t:ty = $i:literal),*], $r:ty, $factories:literal) => {{
        type B = unsafe extern $abi fn($($t),*) -> $r;
        type A = ($($t,)*);
        let s = sig!($label, $abi, [$($a: $t = $i),*], $r);
        if !$x.sig(&s) { return }
        let ty: Ty<A, $r> = Ty { s: &s, args: |s| ($(arg::<$t>(s, $i),)*), put: |r| r.put() };
        $x.pointer::<B, A, $r, cc::$cc>(&ty, unsafe { std::mem::transmute::<*const (), B>(s.native) });
        const Z: u64 = 1 << 40;
        fn packed(id: u64) -> impl Fn(A) -> $r + 'static {
            let c = Counter::new(id);
            move |($($a,)*): A| { c.enter(); $($a.put();)* ret() }
        }
        fn packed_sync(id: u64) -> impl Fn(A) -> $r + Send + Sync + 'static {
            let c = SyncCounter::new(id);
            move |($($a,)*): A| { c.enter(); $($a.put();)* ret() }
        }
        fn spread(id: u64) -> impl Fn($($t),*) -> $r + 'static {
            let c = Counter::new(id);
            move |$($a: $t),*| { c.enter(); $($a.put();)* ret() }
        }
        let zst = |($($a,)*): A| -> $r { enter_zst(Z); $($a.put();)* ret() };
        let id = $x.id();
        $x.shared::<B, A, $r, _>(&ty, "tuple", id, &|| (cc::$cc, spread(id)));
        $x.mutable::<B, A, $r, _>(&ty, "tuple", id, &|| (cc::$cc, spread(id)));
        $x.once::<B, A, $r, _>(&ty, "make_once_thunk", id, &|| B::make_once_thunk(packed(id)));
        $x.mutable::<B, A, $r, _>(&ty, "make_mut_thunk", id, &|| B::make_mut_thunk(packed(id)));
        $x.shared::<B, A, $r, _>(&ty, "make_thunk", id, &|| B::make_thunk(packed(id)));
        $x.once::<B, A, $r, _>(&ty, "make_once_thunk zero-sized", Z, &|| B::make_once_thunk(zst));
        $x.mutable::<B, A, $r, _>(&ty, "make_mut_thunk zero-sized", Z, &|| B::make_mut_thunk(zst));
        $x.shared::<B, A, $r, _>(&ty, "make_thunk zero-sized", Z, &|| B::make_thunk(zst));
        if $factories {
            factories!($x, ty, B, A, $r, "", id, packed_sync(id));
            factories!($x, ty, B, A, $r, " zero-sized", Z, zst);
        }
        reset_blocks();
    }};
}
macro_rules! factories {
    ($x:ident, $ty:ident, $B:ty, $A:ty, $r:ty, $class:literal, $id:expr, $f:expr) => {{
        $x.once::<$B, $A, $r, _>(&$ty, concat!("make_once", $class), $id, &|| tf::make_once::<$B, _>($f));
        $x.once::<$B, $A, $r, _>(&$ty, concat!("make_once_send", $class), $id, &|| tf::make_once_send::<$B, _>($f));
        $x.once::<$B, $A, $r, _>(&$ty, concat!("make_once_sync", $class), $id, &|| tf::make_once_sync::<$B, _>($f));
        $x.once::<$B, $A, $r, _>(&$ty, concat!("make_once_send_sync", $class), $id, &|| tf::make_once_send_sync::<$B, _>($f));
        $x.mutable::<$B, $A, $r, _>(&$ty, concat!("make_mut", $class), $id, &|| tf::make_mut::<$B, _>($f));
        $x.mutable::<$B, $A, $r, _>(&$ty, concat!("make_mut_send", $class), $id, &|| tf::make_mut_send::<$B, _>($f));
        $x.mutable::<$B, $A, $r, _>(&$ty, concat!("make_mut_sync", $class), $id, &|| tf::make_mut_sync::<$B, _>($f));
        $x.mutable::<$B, $A, $r, _>(&$ty, concat!("make_mut_send_sync", $class), $id, &|| tf::make_mut_send_sync::<$B, _>($f));
        $x.shared::<$B, $A, $r, _>(&$ty, concat!("make", $class), $id, &|| tf::make::<$B, _>($f));
        $x.shared::<$B, $A, $r, _>(&$ty, concat!("make_send", $class), $id, &|| tf::make_send::<$B, _>($f));
        $x.shared::<$B, $A, $r, _>(&$ty, concat!("make_sync", $class), $id, &|| tf::make_sync::<$B, _>($f));
        $x.shared::<$B, $A, $r, _>(&$ty, concat!("make_send_sync", $class), $id, &|| tf::make_send_sync::<$B, _>($f));
    }};
}

include!(concat!(env!("OUT_DIR"), "/thunk.rs"));

fn main() {
    let x = X::start();
    for f in CASES {
        f(x);
    }
    x.finish()
}
