//! Call fidelity: every signature of the generated table, called through bare functions of every
//! wrapper kind, observed by the closure and compared with a plain function of the same type.
#![allow(improper_ctypes_definitions, clippy::all, unused_variables, static_mut_refs)]

mod rt;
#[macro_use]
mod sig;
#[allow(unused_imports)]
use closure_ffi::{
    cc,
    traits::{Any, FnPtr},
    BareFnAny, BareFnMutAny, BareFnOnceAny,
};
use rt::*;
use sig::*;

impl X {
    pub fn check(&mut self, s: &Sig, what: &str, id: u64, rounds: u64, f: *const ()) {
        set_case(format!("{} {}", s.label, what));
        self.state(case());
        self.st.constructions += 1;
        for seed in 0..rounds {
            let want = observe(s, s.native, seed);
            let seen = observe(s, f, seed);
            self.st.calls += 1;
            if seen.calls != 1 {
                viol(&format!("one call of the bare function ran {} closures", seen.calls));
            }
            if seen.id != id {
                viol("the bare function does not reach its own closure, or its captures are damaged");
            }
            if seen.bytes != want.bytes {
                viol(&format!(
                    "arguments or result differ: expected {:02x?}, got {:02x?}",
                    &want.bytes[..want.bytes.len().min(200)],
                    &seen.bytes[..seen.bytes.len().min(200)]
                ));
            }
            if seen.delta != want.delta {
                viol("the bare function does not leave the stack pointer as its convention demands");
            }
        }
    }
}

type S = &'static Slab;

/// Every kind and both closure classes of one signature.
macro_rules! case {
    ($x:ident, $label:literal, $cc:ident, $abi:literal, [$($a:ident : $t:ty = $i:literal),*], $r:ty) => {{
        type B = unsafe extern $abi fn($($t),*) -> $r;
        let s = sig!($label, $abi, [$($a: $t = $i),*], $r);
        if !$x.sig(&s) { return }
        const Z: u64 = 1 << 40;
        fn cap(id: u64) -> impl Fn($($t),*) -> $r + 'static {
            let c = Cap::new(id);
            move |$($a: $t),*| -> $r { c.enter(); $($a.put();)* ret() }
        }
        let zst = |$($a: $t),*| -> $r { enter(Z); $($a.put();)* ret() };
        set_case($label.to_string());

        let id = $x.id();
        if let Some(w) = $x.built("Fn capturing", || BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(id), &SLAB)) {
            $x.check(&s, "Fn capturing", id, ROUNDS, w.bare() as *const ());
        }
        let id = $x.id();
        if let Some(w) = $x.built("FnMut capturing", || BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(id), &SLAB)) {
            $x.check(&s, "FnMut capturing", id, ROUNDS, w.bare() as *const ());
        }
        let id = $x.id();
        if let Some(w) = $x.built("FnOnce capturing", || BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(id), &SLAB)) {
            $x.check(&s, "FnOnce capturing", id, 1, w.leak() as *const ());
        }
        if let Some(w) = $x.built("Fn zero-sized", || BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
            $x.check(&s, "Fn zero-sized", Z, ROUNDS, w.bare() as *const ());
        }
        if let Some(w) = $x.built("FnMut zero-sized", || BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
            $x.check(&s, "FnMut zero-sized", Z, ROUNDS, w.bare() as *const ());
        }
        if let Some(w) = $x.built("FnOnce zero-sized", || BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
            $x.check(&s, "FnOnce zero-sized", Z, 1, w.leak() as *const ());
        }
        reset_blocks();
    }};
}

/// One constructor, each way of getting at the bare function.
macro_rules! ways {
    ($x:ident, $s:ident, once, $id:ident, $what:expr, $w:expr) => {{
        if let Some(w) = $x.built($what, || $w) {
            $x.check(&$s, concat!($what, " leak"), $id, 1, w.leak() as *const ());
            let w = $w;
            $x.check(&$s, concat!($what, " untyped leak"), $id, 1, w.into_untyped().leak());
        }
    }};
    ($x:ident, $s:ident, many, $id:ident, $what:expr, $w:expr) => {{
        if let Some(w) = $x.built($what, || $w) {
            $x.check(&$s, concat!($what, " bare"), $id, ROUNDS, w.bare() as *const ());
            $x.check(&$s, concat!($what, " leak"), $id, ROUNDS, w.leak() as *const ());
            let w = $w.into_untyped();
            $x.check(&$s, concat!($what, " untyped bare"), $id, ROUNDS, w.bare());
            $x.check(&$s, concat!($what, " untyped leak"), $id, ROUNDS, w.leak());
        }
    }};
}
macro_rules! ctors {
    ($x:ident, $s:ident, $B:ty, $cc:ident, $W:ident, $many:ident, $class:literal, $id:ident, $f:expr, [$($short:ident, $short_in:ident)?]) => {{
        type G = $W<$B, dyn Any>;
        type A = $W<$B, dyn Any, S>;
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " new"), G::new($f));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " with_cc"), G::with_cc(cc::$cc, $f));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " with_thunk"), G::with_thunk((cc::$cc, $f)));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " new_in"), A::new_in($f, &SLAB));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " with_cc_in"), A::with_cc_in(cc::$cc, $f, &SLAB));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " try_with_cc_in"), A::try_with_cc_in(cc::$cc, $f, &SLAB).unwrap());
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " with_thunk_in"), A::with_thunk_in((cc::$cc, $f), &SLAB));
        ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " try_with_thunk_in"), A::try_with_thunk_in((cc::$cc, $f), &SLAB).unwrap());
        $(
            ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " ", stringify!($short)), G::$short($f));
            ways!($x, $s, $many, $id, concat!(stringify!($W), " ", $class, " ", stringify!($short_in)), A::$short_in($f, &SLAB));
        )?
        reset_blocks();
    }};
}
macro_rules! routes {
    ($x:ident, $label:literal, $cc:ident, $abi:literal, [$($a:ident : $t:ty = $i:literal),*], $r:ty, $short:tt) => {{
        type B = unsafe extern $abi fn($($t),*) -> $r;
        let s = sig!($label, $abi, [$($a: $t = $i),*], $r);
        if !$x.sig(&s) { return }
        const Z: u64 = 1 << 40;
        fn cap(id: u64) -> impl Fn($($t),*) -> $r + 'static {
            let c = Cap::new(id);
            move |$($a: $t),*| -> $r { c.enter(); $($a.put();)* ret() }
        }
        let zst = |$($a: $t),*| -> $r { enter(Z); $($a.put();)* ret() };
        set_case($label.to_string());
        let id = $x.id();
        let z = Z;
        ctors!($x, s, B, $cc, BareFnAny, many, "capturing", id, cap(id), $short);
        ctors!($x, s, B, $cc, BareFnAny, many, "zero-sized", z, zst, $short);
        ctors!($x, s, B, $cc, BareFnMutAny, many, "capturing", id, cap(id), $short);
        ctors!($x, s, B, $cc, BareFnMutAny, many, "zero-sized", z, zst, $short);
        ctors!($x, s, B, $cc, BareFnOnceAny, once, "capturing", id, cap(id), $short);
        ctors!($x, s, B, $cc, BareFnOnceAny, once, "zero-sized", z, zst, $short);
    }};
}

include!(concat!(env!("OUT_DIR"), "/call.rs"));

fn main() {
    let x = X::start();
    for f in CASES {
        f(x);
    }
    x.finish()
}
