//! Panics through bare functions of unwinding conventions: histories of normal and panicking calls,
//! with every argument, result and closure counted.
#![allow(improper_ctypes_definitions, clippy::all, unused_variables, unused_mut, static_mut_refs, dead_code)]

mod rt;

use std::{
    any::Any as StdAny,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
};

use closure_ffi::{cc, traits::Any, BareFnAny, BareFnMutAny, BareFnOnceAny};
use rt::*;

// ---------------------------------------------------------------- counted values

const TOKENS: usize = 256;
static mut MADE: usize = 0;
static mut DROPS: [u8; TOKENS] = [0; TOKENS];

fn token() -> u32 {
    unsafe {
        MADE += 1;
        if MADE > TOKENS {
            engine("too many counted values");
        }
        (MADE - 1) as u32
    }
}
fn dropped(id: u32) {
    unsafe {
        match DROPS.get_mut(id as usize) {
            Some(d) => *d = d.saturating_add(1),
            None => viol("a counted value arrives damaged"),
        }
    }
}
/// A value that counts how often it is dropped.
#[repr(C)]
pub struct Tok<const N: usize> {
    id: u32,
    pad: [u32; N],
}
impl<const N: usize> Drop for Tok<N> {
    fn drop(&mut self) {
        if self.pad.iter().any(|p| *p != !self.id) {
            viol("a counted value arrives damaged");
        }
        dropped(self.id)
    }
}
pub trait Arg {
    fn fresh() -> Self;
}
impl<const N: usize> Arg for Tok<N> {
    fn fresh() -> Self {
        let id = token();
        Tok { id, pad: [!id; N] }
    }
}
impl Arg for u64 {
    fn fresh() -> Self {
        77
    }
}
impl Arg for f64 {
    fn fresh() -> Self {
        0.5
    }
}

// ---------------------------------------------------------------- what closures do

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Return,
    /// before doing anything
    First,
    /// after changing the closure's state
    Changed,
    /// with half of the arguments already dropped
    Half,
    /// with a payload that is neither &str nor String
    Custom,
    /// by resuming an unwind that was caught earlier
    Resume,
    /// in a closure that this one calls through the bare function of another wrapper
    Nested(usize),
    /// two levels down
    Nested2(usize, usize),
    /// one level down; caught by this closure, which returns
    Caught(usize),
    /// one level down; caught by this closure, which panics itself
    Again(usize),
    /// in a destructor of this closure's frame while it returns
    Frame,
}
static mut MODE: Mode = Mode::Return;
static mut STATE: u32 = 0;
static mut INNER: Vec<*const ()> = Vec::new();
static mut INNER_CALL: Vec<unsafe fn(*const ())> = Vec::new();
static mut PATH: Vec<usize> = Vec::new();

/// The part of a closure before its arguments are dropped.
#[inline(never)]
fn begin(state: &mut u32) -> bool {
    let m = unsafe { MODE };
    if m == Mode::First {
        panic!("first {}", state);
    }
    *state += 1;
    if m == Mode::Changed {
        std::panic::panic_any("changed");
    }
    m == Mode::Half
}
struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        panic!("frame");
    }
}
#[inline(never)]
fn finish() {
    unsafe {
        match MODE {
            Mode::Half => panic!("half"),
            Mode::Custom => std::panic::panic_any(0x1234_5678_9ABC_u64),
            Mode::Resume => resume_unwind(Box::new([7u32; 9])),
            Mode::Nested(a) => {
                PATH = vec![];
                nested(a)
            }
            Mode::Nested2(a, b) => {
                PATH = vec![b];
                nested(a)
            }
            Mode::Caught(a) => {
                PATH = vec![];
                if catch_unwind(|| nested(a)).is_ok() {
                    viol("a nested panic is lost");
                }
            }
            Mode::Again(a) => {
                PATH = vec![];
                match catch_unwind(|| nested(a)) {
                    Ok(()) => viol("a nested panic is lost"),
                    Err(e) => {
                        let s = e.downcast_ref::<String>().cloned().unwrap_or_default();
                        panic!("again {s}")
                    }
                }
            }
            Mode::Frame => {
                let _b = Bomb;
            }
            _ => {}
        }
    }
}
fn nested(i: usize) {
    unsafe { INNER_CALL[i](INNER[i]) }
}
/// Body of the closures at the lower levels.
fn inner_body(id: usize, a: Tok<1>, b: u64) {
    unsafe {
        match PATH.pop() {
            Some(n) => nested(n),
            None => panic!("inner {id} {b}"),
        }
    }
}

fn payload(e: Box<dyn StdAny + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        return s.clone();
    }
    if let Some(s) = e.downcast_ref::<&str>() {
        return s.to_string();
    }
    if let Some(s) = e.downcast_ref::<u64>() {
        return format!("{s:x}");
    }
    if let Some(s) = e.downcast_ref::<[u32; 9]>() {
        return format!("{s:?}");
    }
    "unknown payload".into()
}
/// The payload that should arrive at the caller, and the new state.
fn model(m: Mode, state: u32) -> (Option<String>, u32) {
    let next = state + 1;
    match m {
        Mode::Return | Mode::Caught(_) => (None, next),
        Mode::First => (Some(format!("first {state}")), state),
        Mode::Changed => (Some("changed".into()), next),
        Mode::Half => (Some("half".into()), next),
        Mode::Custom => (Some("123456789abc".into()), next),
        Mode::Resume => (Some(format!("{:?}", [7u32; 9])), next),
        Mode::Nested(a) => (Some(format!("inner {a} 77")), next),
        Mode::Nested2(_, b) => (Some(format!("inner {b} 77")), next),
        Mode::Again(a) => (Some(format!("again inner {a} 77")), next),
        Mode::Frame => (Some("frame".into()), next),
    }
}
fn modes(all: bool) -> Vec<Mode> {
    use Mode::*;
    let n = unsafe { INNER.len() };
    let mut v = vec![Return, First, Changed, Half, Custom, Resume, Frame];
    for a in 0..n {
        if !all && a != 1 && a != n - 1 {
            continue;
        }
        v.extend([Nested(a), Caught(a), Again(a)]);
        for b in 0..n {
            if all || b == n - 1 {
                v.push(Nested2(a, b));
            }
        }
    }
    v
}

/// What a counted closure holds: dropped with the closure.
pub struct Held {
    tok: Tok<3>,
}

/// Makes the arguments and calls; the payload if the call panicked.
pub type Call = unsafe fn(*const ()) -> Result<(), Box<dyn StdAny + Send>>;

enum W<'a> {
    Many(*const (), &'a mut dyn FnMut()),
    Once(*const ()),
}

impl X {
    /// Runs one history on a fresh wrapper. `mk` makes it and returns its bare function and what
    /// drops it; `id` is the counted value its closure holds, if it holds one.
    fn history(&mut self, label: &str, what: &str, hist: &[Mode], call: Call, mk: &mut dyn FnMut(Option<Held>) -> (*const (), Option<Box<dyn FnOnce()>>), zst: bool) {
        unsafe {
            MADE = 0;
            DROPS = [0; TOKENS];
            STATE = 0;
            reset_blocks_but(INNER.len());
        }
        set_case(format!("{label} {what} {hist:?}"));
        let base = live_blocks();
        self.st.histories += 1;
        self.st.constructions += 1;
        let held = (!zst).then(|| Held { tok: Tok::fresh() });
        let (f, end) = mk(held);
        let once = end.is_none();
        let first_arg = unsafe { MADE };
        let mut state = 0;
        for &m in hist {
            unsafe { MODE = m };
            self.st.calls += 1;
            let from = unsafe { MADE };
            let got = unsafe { call(f) }.err().map(payload);
            let (want, next) = model(m, state);
            state = next;
            self.st.panics += want.is_some() as u64;
            if got != want {
                viol(&format!("the caller sees {got:?} instead of {want:?}"));
            }
            if unsafe { STATE } != state {
                viol(&format!("state of the closure is {} instead of {state}", unsafe { STATE }));
            }
            for i in from..unsafe { MADE } {
                let n = unsafe { DROPS[i] };
                if n != 1 {
                    viol(&format!("argument or result {} was dropped {n} times after {m:?}", i - from));
                }
            }
            let closure = unsafe { DROPS[0] };
            if !zst && closure != once as u8 {
                viol(&format!("the closure was dropped {closure} times after {m:?}"));
            }
            self.state(&format!("{label} {what} {m:?} {state}"));
        }
        if let Some(end) = end {
            end();
            if !zst && unsafe { DROPS[0] } != 1 {
                viol(&format!("the closure was dropped {} times in the end", unsafe { DROPS[0] }));
            }
            if live_blocks() != base {
                viol("executable memory is not given back after panics");
            }
        }
    }
    fn explore(&mut self, label: &str, what: &str, once: bool, depth: usize, all: bool, call: Call, mk: &mut dyn FnMut(Option<Held>) -> (*const (), Option<Box<dyn FnOnce()>>), zst: bool) {
        let modes = modes(all);
        for &a in &modes {
            self.history(label, what, &[a], call, mk, zst);
        }
        if once {
            return;
        }
        for &a in &modes {
            for &b in &modes {
                self.history(label, what, &[a, b], call, mk, zst);
            }
        }
        if depth > 2 {
            let few = [Mode::Return, Mode::First, Mode::Changed, Mode::Half, Mode::Nested(0)];
            for a in few {
                for b in few {
                    for c in few {
                        self.history(label, what, &[a, b, c], call, mk, zst);
                    }
                }
            }
        }
    }
}

type S = &'static Slab;

macro_rules! case {
    ($x:ident, $label:literal, $cc:ident, $abi:literal, $depth:literal, $all:literal, [$($a:ident : $t:ty),*], [$($half:ident),*], $r:ty) => {{
        if !$x.mine($label) { return }
        $x.st.signatures += 1;
        type B = unsafe extern $abi fn($($t),*) -> $r;
        unsafe fn call(f: *const ()) -> Result<(), Box<dyn StdAny + Send>> {
            let f: B = std::mem::transmute(f);
            $(let $a = <$t as Arg>::fresh();)*
            catch_unwind(AssertUnwindSafe(move || drop(f($($a),*))))
        }
        // counters of the closures below are mirrored in STATE
        fn held(h: Held) -> impl FnMut($($t),*) -> $r + 'static {
            let mut n = 0;
            move |$($a: $t),*| -> $r {
                let h = &h;
                let half = begin_mirrored(&mut n);
                if half { $(drop($half);)* finish(); return <$r as Arg>::fresh() }
                finish();
                <$r as Arg>::fresh()
            }
        }
        fn held_fn(h: Held) -> impl Fn($($t),*) -> $r + 'static {
            let n = std::cell::Cell::new(0);
            move |$($a: $t),*| -> $r {
                let h = &h;
                let mut k = n.get();
                let half = begin_cell(&n);
                if half { $(drop($half);)* finish(); return <$r as Arg>::fresh() }
                finish();
                <$r as Arg>::fresh()
            }
        }
        let zst = |$($a: $t),*| -> $r {
            let half = begin(unsafe { &mut *(&raw mut STATE) });
            if half { $(drop($half);)* finish(); return <$r as Arg>::fresh() }
            finish();
            <$r as Arg>::fresh()
        };
        $x.explore($label, "Fn capturing", false, $depth, $all, call, &mut |h| {
            let w = BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, held_fn(h.unwrap()), &SLAB);
            (w.bare() as *const (), Some(Box::new(move || drop(w))))
        }, false);
        $x.explore($label, "FnMut capturing", false, $depth, $all, call, &mut |h| {
            let w = BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, held(h.unwrap()), &SLAB);
            (w.bare() as *const (), Some(Box::new(move || drop(w))))
        }, false);
        $x.explore($label, "FnOnce capturing", true, $depth, $all, call, &mut |h| {
            let w = BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, held(h.unwrap()), &SLAB);
            (w.leak() as *const (), None)
        }, false);
        $x.explore($label, "Fn zero-sized", false, $depth, $all, call, &mut |_| {
            let w = BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB);
            (w.bare() as *const (), Some(Box::new(move || drop(w))))
        }, true);
        $x.explore($label, "FnMut zero-sized", false, $depth, $all, call, &mut |_| {
            let w = BareFnMutAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB);
            (w.bare() as *const (), Some(Box::new(move || drop(w))))
        }, true);
        $x.explore($label, "FnOnce zero-sized", true, $depth, $all, call, &mut |_| {
            let w = BareFnOnceAny::<B, dyn Any, S>::with_cc_in(cc::$cc, zst, &SLAB);
            (w.leak() as *const (), None)
        }, true);
    }};
}
fn begin_mirrored(n: &mut u32) -> bool {
    struct Mirror(*mut u32);
    impl Drop for Mirror {
        fn drop(&mut self) {
            unsafe { STATE = *self.0 }
        }
    }
    let m = Mirror(n);
    begin(unsafe { &mut *m.0 })
}
fn begin_cell(n: &std::cell::Cell<u32>) -> bool {
    begin_mirrored(unsafe { &mut *n.as_ptr() })
}

macro_rules! inner {
    ($x:ident, $i:literal, $cc:ident, $abi:literal) => {{
        type B = unsafe extern $abi fn(Tok<1>, u64);
        unsafe fn call(f: *const ()) {
            let f: B = std::mem::transmute(f);
            f(Tok::fresh(), 77)
        }
        let key = Cap::new($i + 1);
        let w = BareFnAny::<B, dyn Any, S>::with_cc_in(cc::$cc, move |a: Tok<1>, b: u64| { key.enter(); inner_body($i, a, b) }, &SLAB);
        unsafe {
            INNER.push(w.leak() as *const ());
            INNER_CALL.push(call);
        }
    }};
}

include!(concat!(env!("OUT_DIR"), "/panic.rs"));

fn main() {
    let x = X::start();
    inners(x);
    for f in CASES {
        f(x);
    }
    x.finish()
}
