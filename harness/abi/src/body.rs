//! Closure bodies: what the compiler hoists into the prologue of a bare function depends on what
//! the closure does. Every body of the table below is inlined into the bare functions of every
//! convention, wrapper kind and closure class, and compared with plain functions of the same body.
#![allow(improper_ctypes_definitions, clippy::all, unused_variables, static_mut_refs, unused_mut)]

mod rt;
mod sig;
use std::{
    cell::{Cell, RefCell},
    hint::black_box,
    sync::atomic::{AtomicU32, Ordering::*},
};

use closure_ffi::{cc, traits::Any, BareFnAny, BareFnMutAny, BareFnOnceAny};
use rt::*;

type S = &'static Slab;

struct Noisy(Cell<u64>);
impl Drop for Noisy {
    fn drop(&mut self) {
        black_box(self.0.get());
    }
}
thread_local! {
    static PLAIN: Cell<u64> = const { Cell::new(0) };
    static LAZY: Cell<u64> = Cell::new(black_box(77));
    static DTOR: Noisy = const { Noisy(Cell::new(0)) };
    static LIST: RefCell<Vec<u64>> = RefCell::new(vec![1]);
}
static COUNTER: AtomicU32 = AtomicU32::new(0);
static mut GLOBAL: [u64; 4] = [1, 2, 3, 4];
static TABLE: [u64; 16] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3];
static NAMES: [&str; 4] = ["a", "bc", "def", "ghij"];
#[repr(align(64))]
struct Wide([u64; 8]);

fn reset() {
    PLAIN.set(5);
    LAZY.set(6);
    DTOR.with(|d| d.0.set(7));
    LIST.with(|l| *l.borrow_mut() = vec![8]);
    COUNTER.store(9, Relaxed);
    unsafe { GLOBAL = [1, 2, 3, 4] };
}
/// All state a body may have changed.
fn residue() -> Vec<u64> {
    let mut v = vec![PLAIN.get(), LAZY.get(), DTOR.with(|d| d.0.get()), COUNTER.load(Relaxed) as u64];
    v.extend(unsafe { GLOBAL });
    LIST.with(|l| v.extend(l.borrow().iter()));
    v
}

#[inline(never)]
fn opaque(x: u64) -> u64 {
    black_box(x)
}
fn indirect(x: u64) -> u64 {
    x.rotate_left(9)
}
static TARGET: fn(u64) -> u64 = indirect;

const SEEDS: [u64; 5] = [0, 1, 0x8000_0000_0000_0001, 0x0123_4567_89AB_CDEF, u64::MAX];

struct Ref<'a> {
    label: &'a str,
    native: fn(u64, f64) -> u64,
    call: unsafe fn(*const (), u64, f64) -> u64,
}
impl X {
    fn check(&mut self, r: &Ref, what: &str, key: u64, once: bool, f: *const ()) {
        set_case(format!("{} {what}", r.label));
        self.state(case());
        self.st.constructions += 1;
        for &s in if once { &SEEDS[3..4] } else { &SEEDS[..] } {
            let b = s as u32 as f64 * 0.75;
            reset();
            let want = ((r.native)(s ^ key, b), residue());
            reset();
            unsafe { CALLS = 0 }
            let got = unsafe { (r.call)(f, s, b) };
            let got = (got, residue());
            self.st.calls += 1;
            if unsafe { CALLS } != 1 {
                viol(&format!("one call of the bare function ran {} closures", unsafe { CALLS }));
            }
            if got != want {
                viol(&format!("the closure computes {got:x?} when called through the bare function, {want:x?} when called directly"));
            }
        }
        reset();
    }
}

macro_rules! one {
    ($x:ident, $name:ident, $cc:ident, $abi:literal, |$a:ident, $b:ident| $body:expr) => {{
        type B = unsafe extern $abi fn(u64, f64) -> u64;
        #[inline(always)]
        fn body($a: u64, $b: f64) -> u64 {
            $body
        }
        #[inline(never)]
        fn native($a: u64, $b: f64) -> u64 {
            $body
        }
        #[inline(never)]
        unsafe fn call(f: *const (), a: u64, b: f64) -> u64 {
            let f: B = std::mem::transmute(f);
            f(a, b)
        }
        let label = concat!(stringify!($name), " in ", $abi);
        if $x.mine(label) {
            $x.st.signatures += 1;
            let r = Ref { label, native, call };
            set_case(label.to_string());
            let key = 0x1111_2222_3333_4444u64;
            let cap = |key: u64| {
                let key = black_box(key);
                move |a: u64, b: f64| {
                    unsafe { CALLS += 1 };
                    body(a ^ key, b)
                }
            };
            let zst = |a: u64, b: f64| {
                unsafe { CALLS += 1 };
                body(a, b)
            };
            if let Some(w) = $x.built("Fn capturing", || BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(key), &SLAB)) {
                $x.check(&r, "Fn capturing", key, false, w.bare() as *const ());
            }
            if let Some(w) = $x.built("FnMut capturing", || BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(key), &SLAB)) {
                $x.check(&r, "FnMut capturing", key, false, w.bare() as *const ());
            }
            if let Some(w) = $x.built("FnOnce capturing", || BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, cap(key), &SLAB)) {
                $x.check(&r, "FnOnce capturing", key, true, w.leak() as *const ());
            }
            if let Some(w) = $x.built("Fn zero-sized", || BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
                $x.check(&r, "Fn zero-sized", 0, false, w.bare() as *const ());
            }
            if let Some(w) = $x.built("FnMut zero-sized", || BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
                $x.check(&r, "FnMut zero-sized", 0, false, w.bare() as *const ());
            }
            if let Some(w) = $x.built("FnOnce zero-sized", || BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB)) {
                $x.check(&r, "FnOnce zero-sized", 0, true, w.leak() as *const ());
            }
            reset_blocks();
        }
    }};
}
macro_rules! bodies {
    ($x:ident, [$($cc:ident $abi:literal),*], $bodies:tt) => { $(bodies!(@ $x, $cc $abi, $bodies);)* };
    (@ $x:ident, $cc:ident $abi:literal, { $($name:ident = |$a:ident, $b:ident| $body:expr;)* }) => {
        $(one!($x, $name, $cc, $abi, |$a, $b| $body);)*
    };
}
macro_rules! table {
    ($x:ident, $convs:tt) => {
        bodies!($x, $convs, {
            nothing = |a, b| a;
            thread_local = |a, b| { PLAIN.set(PLAIN.get().wrapping_add(a)); PLAIN.get() };
            thread_local_read = |a, b| PLAIN.get() ^ a;
            thread_local_lazy = |a, b| { LAZY.set(LAZY.get() ^ a); LAZY.get() };
            thread_local_drop = |a, b| DTOR.with(|d| { d.0.set(d.0.get() + 1); d.0.get() ^ a });
            thread_local_list = |a, b| LIST.with(|l| { l.borrow_mut().push(a); l.borrow().len() as u64 });
            thread_locals = |a, b| { PLAIN.set(a); LAZY.set(!a); DTOR.with(|d| d.0.set(a >> 1)); 0 };
            atomic = |a, b| COUNTER.fetch_add(a as u32, SeqCst) as u64;
            global = |a, b| unsafe { GLOBAL[a as usize & 3] ^= a; GLOBAL[1] };
            table = |a, b| TABLE[a as usize % 16].wrapping_mul(a);
            names = |a, b| NAMES[a as usize % 4].len() as u64;
            float_constants = |a, b| (b * 1.2345678901 + 0.3333333333 - 1e10).to_bits();
            float_select = |a, b| if b > 123.456 { 2.718281828f64.to_bits() } else { (b / 3.0).to_bits() };
            float_to_int = |a, b| (b * 1.5) as u64 ^ (a as f64 as u64);
            single = |a, b| ((b as f32).sqrt() * 7.7f32).to_bits() as u64;
            wide_divide = |a, b| ((a as u128).wrapping_mul(0x1234_5678_9ABC_DEF0_1357) / 12_345_678_901) as u64;
            divide = |a, b| 0xFEDC_BA98_7654_3210u64 / (a | 1);
            big_constant = |a, b| a ^ 0xA5A5_1234_DEAD_0042;
            many_constants = |a, b| a.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ 0x94D0_49BB_1331_11EB;
            switch = |a, b| match a % 9 { 0 => opaque(1), 1 => 2, 2 => opaque(a), 3 => 77, 4 => a >> 1, 5 => opaque(9), 6 => !a, 7 => 3, _ => a };
            early_return = |a, b| { if a == 0 { return 5; } opaque(a) };
            sum_loop = |a, b| { let mut s = 0u64; for i in 0..(a & 31) { s = s.wrapping_mul(31).wrapping_add(TABLE[i as usize & 15]); } s };
            call = |a, b| opaque(a ^ 3) ^ opaque(b.to_bits());
            indirect_call = |a, b| unsafe { std::ptr::read_volatile(&raw const TARGET) }(a);
            closure_object = |a, b| { let f: &dyn Fn(u64) -> u64 = &|x| x ^ a; black_box(f)(7) };
            frame = |a, b| { let mut m = [0u64; 40]; black_box(&mut m)[a as usize % 40] = a; black_box(&m).iter().fold(0, |x, y| x ^ y) };
            page_frame = |a, b| { let mut m = [1u8; 4096 + 200]; black_box(&mut m)[a as usize % 4000] = 3; black_box(&m).iter().map(|x| *x as u64).sum() };
            pages_frame = |a, b| { let mut m = [1u8; 5 * 4096]; black_box(&mut m)[a as usize % 9999] = 3; black_box(&m).iter().map(|x| *x as u64).sum() };
            many_pages_frame = |a, b| { let mut m = [1u8; 80_000]; black_box(&mut m)[a as usize % 77_777] = 3; black_box(&m).iter().map(|x| *x as u64).sum() };
            aligned_frame = |a, b| { let mut w = Wide([a; 8]); let p = black_box(&mut w); p.0[3] ^= 5; (p as *const _ as usize % 64) as u64 ^ p.0[3] };
            aligned_pages = |a, b| { let mut w = [const { Wide([0; 8]) }; 150]; black_box(&mut w)[a as usize % 150].0[1] = a; black_box(&w).iter().map(|w| w.0[1]).fold(0, |x, y| x ^ y) };
            heap = |a, b| { let mut v = vec![a; 5]; black_box(&mut v).push(1); v.iter().fold(0, |x, y| x ^ y) };
            boxed = |a, b| *black_box(Box::new(a ^ 8));
            text = |a, b| format!("{a:x} {b}").bytes().map(|c| c as u64).sum();
            catches = |a, b| std::panic::catch_unwind(|| { if a % 2 == 1 { std::panic::resume_unwind(Box::new(3u8)) } a }).unwrap_or(9);
            drops = |a, b| { let n = Noisy(Cell::new(a)); let r = opaque(a); n.0.set(r); drop(n); r };
            vectors = |a, b| { let v: [u32; 16] = std::array::from_fn(|i| (a as u32).wrapping_mul(i as u32)); v.iter().fold(0u32, |x, y| x ^ y.rotate_left(3)) as u64 };
            copies = |a, b| { let x = [a; 32]; let y = black_box(x); y[a as usize % 32] };
            many_values = |a, b| {
                let v: [u64; 14] = std::array::from_fn(|i| opaque(a ^ i as u64));
                let w: [f64; 10] = std::array::from_fn(|i| b * (opaque(i as u64) as f64 + 0.1));
                v.iter().rev().enumerate().fold(0, |s, (i, x)| s ^ x.rotate_left(i as u32)) ^ w.iter().sum::<f64>().to_bits()
            };
            bits = |a, b| (a.leading_zeros() + a.count_ones() * 64) as u64 ^ a.swap_bytes();
            carries = |a, b| { let (x, c) = a.overflowing_add(0x8000_0000_0000_0000); x ^ c as u64 ^ (a as u128 * a as u128 >> 64) as u64 };
            address = |a, b| (&raw const GLOBAL as usize as u64) ^ (opaque as fn(u64) -> u64 as usize as u64) ^ a;
        });
    };
}

fn main() {
    let x = X::start();
    table!(x, [C "C", Rust "Rust", CUnwind "C-unwind"]);
    #[cfg(target_arch = "x86_64")]
    table!(x, [Win64 "win64", Sysv64Unwind "sysv64-unwind"]);
    #[cfg(target_arch = "x86")]
    table!(x, [Fastcall "fastcall", Stdcall "stdcall", ThiscallUnwind "thiscall-unwind"]);
    #[cfg(target_arch = "arm")]
    table!(x, [Aapcs "aapcs"]);
    x.finish()
}
