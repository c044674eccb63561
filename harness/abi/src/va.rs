//! C-variadic bare functions: fixed arguments, the variadic list and the result.
#![feature(c_variadic)]
#![allow(improper_ctypes_definitions, clippy::all, unused_variables, unused_mut, static_mut_refs, dead_code)]

mod rt;
#[macro_use]
mod sig;
use core::ffi::VaList;

use closure_ffi::{
    cc, thunk_factory as tf,
    traits::{Any, FnPtr},
    BareFnAny, BareFnMutAny, BareFnOnceAny,
};
use rt::*;
use sig::{NATIVE, ROUNDS};

type S = &'static Slab;

/// Types of the variable arguments of the call being made.
static mut TYPES: &str = "";

#[inline(never)]
fn read(va: &mut VaList<'_>) {
    unsafe {
        for t in TYPES.bytes() {
            put(&[t]);
            match t {
                b'i' => va.next_arg::<i32>().put(),
                b'l' => va.next_arg::<i64>().put(),
                b'd' => va.next_arg::<f64>().put(),
                b'p' => va.next_arg::<*const u8>().put(),
                _ => engine("unknown type letter"),
            }
        }
    }
}
/// Reads all variable arguments, first through a copy of the list.
#[inline(never)]
fn read_all(mut va: VaList<'_>) {
    read(&mut va.clone());
    read(&mut va);
}

type Call = unsafe fn(*const (), u64) -> usize;
struct Case {
    label: &'static str,
    native: *const (),
    /// Type string, call site and expected observation.
    sites: &'static [(&'static str, Call, unsafe fn(u64))],
    ret: unsafe fn(),
}

struct Seen {
    calls: u32,
    id: u64,
    bytes: Vec<u8>,
    delta: usize,
}
fn observe(site: &(&'static str, Call, unsafe fn(u64)), f: *const (), seed: u64) -> Seen {
    unsafe {
        CALLS = 0;
        ID = u64::MAX;
        TYPES = site.0;
        RET_SEED = mix(seed ^ 0x5555);
        let delta = (site.1)(f, seed);
        Seen { calls: CALLS, id: ID, bytes: take_tape(), delta }
    }
}

impl X {
    fn native(&mut self, c: &Case) -> bool {
        if !self.mine(c.label) {
            return false;
        }
        set_case(format!("{} plain function", c.label));
        self.st.signatures += 1;
        for site in c.sites {
            let seen = observe(site, c.native, 1);
            unsafe {
                RET_SEED = mix(1 ^ 0x5555);
                (site.2)(1);
                (c.ret)();
            }
            if seen.calls != 1 || seen.id != NATIVE || seen.bytes != take_tape() {
                self.st.excluded += 1;
                return false;
            }
        }
        true
    }
    fn many(&mut self, c: &Case, what: &str, id: u64, f: *const ()) {
        for site in c.sites {
            self.one(c, what, id, site, ROUNDS, f);
        }
    }
    fn one(&mut self, c: &Case, what: &str, id: u64, site: &(&'static str, Call, unsafe fn(u64)), rounds: u64, f: *const ()) {
        set_case(format!("{} ...{:?} {what}", c.label, site.0));
        self.state(case());
        for seed in 0..rounds {
            let seen = observe(site, f, seed);
            let want = observe(site, c.native, seed);
            self.st.calls += 1;
            if seen.calls != 1 {
                viol(&format!("one call ran {} closures", seen.calls));
            }
            if seen.id != id {
                viol("the closure's captures are not its own");
            }
            if seen.bytes != want.bytes {
                viol("fixed arguments, variable arguments or result differ");
            }
            if seen.delta != want.delta {
                viol("the call changes the stack pointer");
            }
        }
    }
}

macro_rules! site {
    ($types:literal, [$($t:ty = $i:literal),*], [$($v:ty = $l:literal),*], $r:ty) => {{
        #[inline(never)]
        unsafe fn call(f: *const (), s: u64) -> usize {
            let f: unsafe extern "C" fn($($t,)* ...) -> $r = std::mem::transmute(f);
            let before = sp();
            let r = f($(arg::<$t>(s, $i),)* $(arg::<$v>(s, $l)),*);
            let delta = sp().wrapping_sub(before);
            r.put();
            delta
        }
        unsafe fn expect(s: u64) {
            $(arg::<$t>(s, $i).put();)*
            for _ in 0..2 {
                let mut _t = $types.bytes();
                $(put(&[_t.next().unwrap()]); arg::<$v>(s, $l).put();)*
            }
        }
        ($types, call as Call, expect as unsafe fn(u64))
    }};
}

macro_rules! all {
    ($x:ident, $c:ident, $id:expr, $class:literal, $f:expr, $pf:expr, $B:ty) => {{
        let id = $id;
        macro_rules! w {
            (many, $what:literal, $w:expr) => {
                if let Some(w) = $x.built_va(concat!($what, $class), || $w) {
                    $x.many(&$c, concat!($what, $class), id, w.bare() as *const ());
                }
            };
            (once, $what:literal, $w:expr) => {
                for site in $c.sites {
                    if let Some(w) = $x.built_va(concat!($what, $class), || $w) {
                        $x.one(&$c, concat!($what, $class), id, site, 1, w.leak() as *const ());
                        reset_blocks();
                    }
                }
            };
        }
        w!(many, "Fn", BareFnAny::<$B, dyn Any, S>::with_cc_in(cc::Variadic, $f, &SLAB));
        w!(many, "FnMut", BareFnMutAny::<$B, dyn Any, S>::with_cc_in(cc::Variadic, $f, &SLAB));
        w!(once, "FnOnce", BareFnOnceAny::<$B, dyn Any, S>::with_cc_in(cc::Variadic, $f, &SLAB));
        w!(many, "new_variadic Fn", BareFnAny::<$B, dyn Any>::new_variadic($f));
        w!(many, "new_variadic FnMut", BareFnMutAny::<$B, dyn Any>::new_variadic($f));
        w!(once, "new_variadic FnOnce", BareFnOnceAny::<$B, dyn Any>::new_variadic($f));
        w!(many, "new_variadic_in Fn", BareFnAny::<$B, dyn Any, S>::new_variadic_in($f, &SLAB));
        w!(many, "new_variadic_in FnMut", BareFnMutAny::<$B, dyn Any, S>::new_variadic_in($f, &SLAB));
        w!(once, "new_variadic_in FnOnce", BareFnOnceAny::<$B, dyn Any, S>::new_variadic_in($f, &SLAB));
        w!(many, "make_thunk Fn", BareFnAny::<$B, dyn Any, S>::with_thunk_in(<$B>::make_thunk($pf), &SLAB));
        w!(many, "make_mut_thunk FnMut", BareFnMutAny::<$B, dyn Any, S>::with_thunk_in(<$B>::make_mut_thunk($pf), &SLAB));
        w!(once, "make_once_thunk FnOnce", BareFnOnceAny::<$B, dyn Any, S>::with_thunk_in(<$B>::make_once_thunk($pf), &SLAB));
        w!(many, "make Fn", BareFnAny::<$B, dyn Any, S>::with_thunk_in(tf::make_send_sync::<$B, _>($pf), &SLAB));
        w!(many, "make_mut FnMut", BareFnMutAny::<$B, dyn Any, S>::with_thunk_in(tf::make_mut_send::<$B, _>($pf), &SLAB));
        w!(once, "make_once FnOnce", BareFnOnceAny::<$B, dyn Any, S>::with_thunk_in(tf::make_once_sync::<$B, _>($pf), &SLAB));
        reset_blocks();
    }};
}
impl X {
    fn built_va<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.st.constructions += 1;
        self.built(what, f)
    }
}

macro_rules! case {
    ($x:ident, $label:literal, [$($a:ident : $t:ty = $i:literal),*], $r:ty, $sites:expr) => {{
        type B = unsafe extern "C" fn($($t,)* ...) -> $r;
        unsafe extern "C" fn native($($a: $t,)* va: ...) -> $r {
            enter(NATIVE);
            $($a.put();)*
            read_all(va);
            ret()
        }
        unsafe fn result() { ret::<$r>().put() }
        let c = Case { label: $label, native: native as B as *const (), sites: $sites, ret: result };
        if !$x.native(&c) { return }
        const Z: u64 = 1 << 40;
        fn hr<F: for<'va> Fn($($t,)* VaList<'va>) -> $r>(f: F) -> F { f }
        fn hrp<F: for<'va> Fn(($($t,)* VaList<'va>,)) -> $r>(f: F) -> F { f }
        fn cap(id: u64) -> impl for<'va> Fn($($t,)* VaList<'va>) -> $r + 'static {
            let c = Cap::new(id);
            hr(move |$($a: $t,)* va: VaList<'_>| { c.enter(); $($a.put();)* read_all(va); ret() })
        }
        fn packed(id: u64) -> impl for<'va> Fn(($($t,)* VaList<'va>,)) -> $r + Send + Sync + 'static {
            let c = Cap::new(id);
            hrp(move |($($a,)* va,): ($($t,)* VaList<'_>,)| { c.enter(); $($a.put();)* read_all(va); ret() })
        }
        let zst = hr(|$($a: $t,)* va: VaList<'_>| { enter(Z); $($a.put();)* read_all(va); ret() });
        let zstp = hrp(|($($a,)* va,): ($($t,)* VaList<'_>,)| { enter(Z); $($a.put();)* read_all(va); ret() });
        let id = $x.id();
        all!($x, c, id, " capturing", cap(id), packed(id), B);
        all!($x, c, Z, " zero-sized", zst, zstp, B);
    }};
}

include!(concat!(env!("OUT_DIR"), "/va.rs"));

fn main() {
    let x = X::start();
    for f in CASES {
        f(x);
    }
    x.finish()
}
