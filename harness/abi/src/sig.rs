//! Signatures: a plain function and a call site of the same type, and what they observe.
#![allow(dead_code, static_mut_refs)]

use crate::rt::*;

/// Calls the function with the arguments of the seed, writes its result down, and returns by how
/// much the stack pointer differs across the call.
pub type Call = unsafe fn(*const (), u64) -> usize;
/// Writes down the arguments of the seed.
pub type Expect = unsafe fn(u64);
/// Writes down the result of the seed.
pub type Ret = unsafe fn();

#[derive(Clone, Copy)]
pub struct Sig {
    pub label: &'static str,
    pub call: Call,
    pub expect: Expect,
    pub ret: Ret,
    pub native: *const (),
}
pub const NATIVE: u64 = 0;
pub const ROUNDS: u64 = 3;

pub struct Seen {
    pub calls: u32,
    pub id: u64,
    pub bytes: Vec<u8>,
    pub delta: usize,
}
pub fn observe(s: &Sig, f: *const (), seed: u64) -> Seen {
    unsafe {
        CALLS = 0;
        ID = u64::MAX;
        RET_SEED = mix(seed ^ 0x5555);
        let delta = (s.call)(f, seed);
        Seen { calls: CALLS, id: ID, bytes: take_tape(), delta }
    }
}

impl X {
    /// The plain function observes what it should; otherwise the compiler does not support the
    /// signature and it says nothing about the crate.
    pub fn sig(&mut self, s: &Sig) -> bool {
        if !self.mine(s.label) {
            return false;
        }
        set_case(format!("{} plain function", s.label));
        self.st.signatures += 1;
        // some signatures of 32-bit x86 conventions are miscompiled by the compiler itself
        #[cfg(target_arch = "x86")]
        if !survives(|| (0..ROUNDS).for_each(|seed| drop(observe(s, s.native, seed)))) {
            self.st.excluded += 1;
            return false;
        }
        for seed in 0..ROUNDS {
            let seen = observe(s, s.native, seed);
            unsafe {
                RET_SEED = mix(seed ^ 0x5555);
                (s.expect)(seed);
                (s.ret)();
            }
            if seen.calls != 1 || seen.id != NATIVE || seen.bytes != take_tape() {
                self.st.excluded += 1;
                return false;
            }
        }
        true
    }
    /// A wrapper whose construction is refused has no bare function to call; that is a finding of
    /// its own, after which the exploration can go on.
    pub fn built<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(w) => Some(w),
            Err(_) => {
                let opt = if cfg!(debug_assertions) { "an unoptimised" } else { "an optimised" };
                let arch = if cfg!(mc_thumb) { "thumb" } else { std::env::consts::ARCH };
                self.refused(&format!("construction is refused in {opt} {arch} build"), what);
                None
            }
        }
    }
}

#[macro_export]
macro_rules! sig {
    ($label:literal, $abi:literal, [$($a:ident : $t:ty = $i:literal),*], $r:ty) => {{
        unsafe extern $abi fn native($($a: $t),*) -> $r {
            enter(NATIVE);
            $($a.put();)*
            ret()
        }
        #[inline(never)]
        unsafe fn call(f: *const (), s: u64) -> usize {
            let f: unsafe extern $abi fn($($t),*) -> $r = std::mem::transmute(f);
            let before = sp();
            let r = f($(arg::<$t>(s, $i)),*);
            let delta = sp().wrapping_sub(before);
            r.put();
            delta
        }
        unsafe fn expect(s: u64) {
            $(arg::<$t>(s, $i).put();)*
        }
        unsafe fn result() {
            ret::<$r>().put()
        }
        Sig {
            label: $label,
            call,
            expect,
            ret: result,
            native: native as unsafe extern $abi fn($($t),*) -> $r as *const (),
        }
    }};
}
