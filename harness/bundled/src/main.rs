//! The allocators that come with the library, explored over a stand-in for the crate they defer to:
//! every operation sequence on their handles up to a depth, and every construction and end of a
//! wrapper that uses them. Each operation has to reach the stand-in once, with its arguments, and
//! come back with the stand-in's answer.
#![allow(static_mut_refs)]

use closure_ffi::{
    cc,
    jit_alloc::{GlobalJitAlloc, JitAlloc, ProtectJitAccess},
    traits::Any,
    BareFn, BareFnAny, BareFnMut, BareFnMutAny, BareFnOnce, BareFnOnceAny,
};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    fmt::Write as _,
    hash::{Hash, Hasher},
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

// ---------------------------------------------------------------- the stand-in

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    Alloc { state: usize, size: usize, answer: i32 },
    Release { state: usize, at: usize, answer: i32 },
    Protect { executable: bool },
    Flush { at: usize, size: usize },
}
struct Block {
    state: usize,
    size: usize,
    rx: usize,
    rw: usize,
    live: bool,
}
/// What the code under construction looked like at an event.
struct Shot {
    event: usize,
    bytes: Vec<u8>,
}
struct World {
    log: Vec<Ev>,
    shots: Vec<Shot>,
    states: usize,
    blocks: Vec<Block>,
    rx: usize,
    rw: usize,
    top: usize,
    gap: usize,
    answer: i32,
}
static mut W: Option<World> = None;
const AREA: usize = 1 << 20;
const FILL: u8 = 0xa5;

fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
impl World {
    fn new() -> World {
        unsafe {
            let fd = libc::syscall_memfd();
            assert!(fd >= 0 && libc::ftruncate(fd, AREA as _) == 0);
            let map = |prot| {
                let p = libc::mmap(std::ptr::null_mut(), AREA, prot, libc::MAP_SHARED, fd, 0);
                assert!(p != libc::MAP_FAILED);
                p as usize
            };
            // (the ARM emulator does not notice code that changes through another view)
            let dual = !cfg!(target_arch = "arm");
            let rx = map(libc::PROT_READ | libc::PROT_EXEC | if dual { 0 } else { libc::PROT_WRITE });
            let rw = if dual { map(libc::PROT_READ | libc::PROT_WRITE) } else { rx };
            World { log: vec![], shots: vec![], states: 0, blocks: vec![], rx, rw, top: 0, gap: 64, answer: 0 }
        }
    }
    /// Forget everything of the last sequence.
    fn clear(&mut self) {
        self.log.clear();
        self.shots.clear();
        if self.top > 0 {
            unsafe { std::slice::from_raw_parts_mut(self.rw as *mut u8, (self.top + 4096).min(AREA)) }.fill(FILL);
        }
        self.blocks.clear();
        self.top = 0;
        self.answer = 0;
    }
    fn note(&mut self, e: Ev) {
        self.log.push(e);
        if let Some(b) = self.blocks.last() {
            let bytes = unsafe { std::slice::from_raw_parts(b.rw as *const u8, b.size) }.to_vec();
            self.shots.push(Shot { event: self.log.len() - 1, bytes });
        }
    }
}
/// `memfd_create` without `libc::syscall`, which is watched below.
mod libc {
    pub use ::libc::*;
    pub unsafe fn syscall_memfd() -> i32 {
        memfd_create(c"mc-bundled".as_ptr(), 0)
    }
}

#[no_mangle]
extern "C" fn mc_new() -> usize {
    w().states += 1;
    w().states
}
#[no_mangle]
extern "C" fn mc_drop(_: usize) {}
#[no_mangle]
extern "C" fn mc_alloc(state: usize, size: usize, rx: &mut *const u8, rw: &mut *mut u8) -> i32 {
    let w = w();
    let answer = std::mem::take(&mut w.answer);
    if answer == 0 {
        let at = w.top + w.gap;
        w.top = (at + size + w.gap + 3) & !3;
        assert!(w.top + 4096 < AREA);
        *rx = (w.rx + at) as _;
        *rw = (w.rw + at) as _;
        w.blocks.push(Block { state, size, rx: w.rx + at, rw: w.rw + at, live: true });
    }
    w.note(Ev::Alloc { state, size, answer });
    answer
}
#[no_mangle]
extern "C" fn mc_release(state: usize, p: *const u8) -> i32 {
    let w = w();
    let answer = std::mem::take(&mut w.answer);
    w.note(Ev::Release { state, at: p as usize, answer });
    if answer == 0 {
        match w.blocks.iter_mut().find(|b| b.live && b.rx == p as usize && b.state == state) {
            Some(b) => b.live = false,
            None => viol("a block is given back that the allocator has not handed out, or given back already"),
        }
    }
    answer
}
#[no_mangle]
extern "C" fn mc_protect(executable: i32) {
    w().note(Ev::Protect { executable: executable != 0 });
}
#[no_mangle]
extern "C" fn mc_flush(p: *const u8, size: usize) {
    w().note(Ev::Flush { at: p as usize, size });
    #[cfg(target_arch = "aarch64")]
    if size <= 4096 {
        for a in (p as usize & !3..p as usize + size).step_by(4) {
            unsafe { std::arch::asm!("dc cvau, {0}", "ic ivau, {0}", in(reg) a) };
        }
        unsafe { std::arch::asm!("dsb ish", "isb") };
    }
}
/// The system call that ARM Linux needs for it arrives here.
#[cfg(target_arch = "arm")]
#[no_mangle]
unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == 0x0f0002 {
        w().note(Ev::Flush { at: a, size: b.wrapping_sub(a) });
    }
    let r: libc::c_long;
    // (r7 holds the number, and may be the frame pointer)
    std::arch::asm!("push {{r7}}", "mov r7, {n}", "svc 0", "pop {{r7}}", n = in(reg) n,
        inlateout("r0") a as libc::c_long => r, in("r1") b, in("r2") c, in("r3") d, in("r4") e, in("r5") f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- reporting

static mut CASE: String = String::new();
static mut STATS: Option<Stats> = None;
#[derive(Default)]
struct Stats {
    states: HashSet<u64>,
    transitions: u64,
    histories: u64,
    constructions: u64,
    calls: u64,
    checks: u64,
    faults: u64,
    spaces: Vec<(&'static str, u64)>,
    samples: Vec<String>,
}
fn st() -> &'static mut Stats {
    unsafe { STATS.as_mut().unwrap() }
}
fn case(s: String) {
    unsafe {
        libc::alarm(100);
        CASE = s;
    }
}
fn viol(what: &str) -> ! {
    println!("VIOL {what} :: {} log {:x?}", unsafe { CASE.as_str() }, w().log);
    unsafe { libc::_exit(1) }
}
fn hold(ok: bool, what: &str) {
    st().checks += 1;
    if !ok {
        viol(what)
    }
}
fn state(x: impl Hash) {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    st().states.insert(h.finish());
}
extern "C" fn on_signal(sig: libc::c_int) {
    println!("VIOL execution ends with signal {sig} :: {}", unsafe { CASE.as_str() });
    unsafe { libc::_exit(3) }
}

// ---------------------------------------------------------------- operation sequences on the handles

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
    Alloc(usize, i32),
    /// the oldest or the newest block
    Release(bool, i32),
    Flush(usize, usize),
    Protect(bool),
}
const OPS: [Op; 15] = [
    Op::Alloc(1, 0),
    Op::Alloc(100, 0),
    Op::Alloc(4096, 0),
    Op::Alloc(0x7fff_ffff, 1),
    Op::Alloc(100, 2),
    Op::Alloc(usize::MAX, 3),
    Op::Release(false, 0),
    Op::Release(true, 0),
    Op::Release(true, 2),
    Op::Release(false, 6),
    Op::Flush(0, 100),
    Op::Flush(3, 1),
    Op::Flush(64, 4096),
    Op::Protect(false),
    Op::Protect(true),
];

fn sequence(name: &str, al: &dyn JitAlloc, home: usize, seq: &[Op]) {
    case(format!("{name} {seq:?}"));
    w().clear();
    st().histories += 1;
    for op in seq {
        st().transitions += 1;
        let from = w().log.len();
        let live: Vec<usize> = w().blocks.iter().filter(|b| b.live).map(|b| b.rx).collect();
        let want = match *op {
            Op::Alloc(size, answer) => {
                w().answer = answer;
                st().faults += (answer != 0) as u64;
                let r = al.alloc(size);
                hold(r.is_ok() == (answer == 0), "the result of an allocation is not the allocator's");
                if let Ok((rx, rw)) = r {
                    let b = w().blocks.last().unwrap_or_else(|| viol("a block that no allocator handed out"));
                    hold((rx as usize, rw as usize) == (b.rx, b.rw), "an allocation hands out other addresses than the allocator's");
                }
                Ev::Alloc { state: home, size, answer }
            }
            Op::Release(newest, answer) => {
                let Some(&at) = (if newest { live.last() } else { live.first() }) else { continue };
                w().answer = answer;
                st().faults += (answer != 0) as u64;
                let r = unsafe { al.release(at as *const u8) };
                hold(r.is_ok() == (answer == 0), "the result of giving a block back is not the allocator's");
                Ev::Release { state: home, at, answer }
            }
            Op::Flush(off, size) => {
                let Some(&at) = live.last() else { continue };
                let at = at + off;
                unsafe { al.flush_instruction_cache(at as *const u8, size) };
                Ev::Flush { at, size }
            }
            Op::Protect(executable) => {
                let Some(&at) = live.last() else { continue };
                let access = if executable { ProtectJitAccess::ReadExecute } else { ProtectJitAccess::ReadWrite };
                unsafe { al.protect_jit_memory(at as *const u8, 16, access) };
                Ev::Protect { executable }
            }
        };
        hold(w().log[from..] == [want], "an operation does not reach the allocator once, as it was asked for");
        state((name, op, w().blocks.iter().map(|b| (b.size, b.live)).collect::<Vec<_>>()));
    }
    for at in w().blocks.iter().filter(|b| b.live).map(|b| b.rx).collect::<Vec<_>>() {
        hold(unsafe { al.release(at as *const u8) }.is_ok(), "the result of giving a block back is not the allocator's");
    }
}

/// The state behind a handle, which it keeps.
fn home(al: &dyn JitAlloc) -> usize {
    w().clear();
    case("first use".into());
    let Ok((rx, _)) = al.alloc(1) else { viol("the first allocation fails") };
    unsafe { al.release(rx) }.unwrap_or_else(|_| viol("the first release fails"));
    match w().log[..] {
        [Ev::Alloc { state, size: 1, .. }, Ev::Release { state: back, .. }] if state == back => state,
        _ => viol("the first use does not reach the allocator as it was asked for"),
    }
}

// ---------------------------------------------------------------- wrappers

static CALLS: AtomicUsize = AtomicUsize::new(0);
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct Held<const N: usize>([u8; N]);
impl<const N: usize> Drop for Held<N> {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Relaxed);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End {
    Drop,
    Untyped,
    Leak,
}

/// Checks what a construction did, and gives the place of the block.
fn built(home: usize, from: usize, bare: usize) -> (usize, usize) {
    let log = &w().log[from..];
    let Some(&Ev::Alloc { state, size, answer: 0 }) = log.first() else { viol("construction does not begin with an allocation") };
    hold(state == home, "a wrapper uses another allocator state");
    let b = w().blocks.last().unwrap();
    hold(log.iter().filter(|e| matches!(e, Ev::Alloc { .. } | Ev::Release { .. })).count() == 1, "construction does not take exactly one block");
    let at = if cfg!(target_arch = "arm") { bare & !1 } else { bare };
    hold(at >= b.rx && at < b.rx + size, "the bare function is not in its block");
    let now = unsafe { std::slice::from_raw_parts(b.rw as *const u8, size) };
    let first = now.iter().position(|&x| x != FILL).unwrap_or(0);
    let last = now.iter().rposition(|&x| x != FILL).unwrap_or(0);
    // around the block nothing may have changed
    let (lo, hi) = (b.rw - w().gap.min(64), b.rw + size);
    let out = |a: usize, n: usize| unsafe { std::slice::from_raw_parts(a as *const u8, n) }.iter().all(|&x| x == FILL);
    hold(out(lo, b.rw - lo) && out(hi, 64), "code is written outside of the block");
    let mut open = false;
    let mut before = vec![FILL; size];
    for s in w().shots.iter().filter(|s| s.event >= from) {
        if s.bytes != before {
            hold(open, "code is written without write access having been announced");
        }
        before = s.bytes.clone();
        match w().log[s.event] {
            Ev::Protect { executable } => open = !executable,
            Ev::Flush { at, size: n } if s.event + 1 == w().log.len() => {
                hold(at <= b.rx + first && at + n >= b.rx + last + 1, "the instruction cache is not flushed for all of the code");
                hold(n <= size && at >= b.rx, "more than the block is flushed");
            }
            _ => {}
        }
    }
    hold(!open, "execute access is not announced");
    hold(before == now, "code is written after the last operation on the block");
    hold(matches!(w().log.last(), Some(Ev::Flush { .. })), "the last operation of a construction is not to flush the instruction cache");
    (b.rx, size)
}

macro_rules! wrappers {
    ($name:literal, $alloc:expr, $home:expr, $n:literal) => {{
        wrappers!(@kind $name, $alloc, $home, $n, BareFn, BareFnAny, "Fn", bare);
        wrappers!(@kind $name, $alloc, $home, $n, BareFnMut, BareFnMutAny, "FnMut", bare);
        wrappers!(@kind $name, $alloc, $home, $n, BareFnOnce, BareFnOnceAny, "FnOnce", leak);
    }};
    (@kind $name:literal, $alloc:expr, $home:expr, $n:literal, $ty:ident, $any:ident, $kind:literal, $how:ident) => {
        for gap in [64, 65, 66, 67, 71, 4090] {
            for end in [End::Drop, End::Untyped, End::Leak] {
                for fault in [0, 1, 6] {
                    type B = unsafe extern "C" fn(u64) -> u64;
                    // (only positions at which the instruction set can execute code)
                    if gap % if cfg!(any(target_arch = "aarch64", all(target_arch = "arm", not(mc_thumb)))) { 4 } else if cfg!(mc_thumb) { 2 } else { 1 } != 0 {
                        continue;
                    }
                    case(format!("{} {} {} captured bytes, gap {gap}, {end:?}, fault {fault}", $name, $kind, $n));
                    w().clear();
                    w().gap = gap;
                    st().histories += 1;
                    st().constructions += 1;
                    let (calls, drops) = (CALLS.load(Relaxed), DROPS.load(Relaxed));
                    let held = Held([7u8; $n]);
                    let f = move |x: u64| {
                        CALLS.fetch_add(1, Relaxed);
                        let held = &held;
                        x * 3 + held.0.iter().map(|&b| b as u64).sum::<u64>()
                    };
                    let value = |x: u64| x * 3 + 7 * $n;
                    w().answer = if $n == 0 { 0 } else { fault };
                    let made = $any::<B, dyn Any, _>::try_with_cc_in(cc::C, f, $alloc);
                    st().transitions += 1;
                    if $n > 0 && fault != 0 {
                        st().faults += 1;
                        hold(made.is_err(), "a failed allocation does not fail the construction");
                        drop(made);
                        hold(w().log == [Ev::Alloc { state: $home, size: match w().log[0] { Ev::Alloc { size, .. } => size, _ => 0 }, answer: fault }],
                            "a failed construction does more than ask the allocator");
                        hold(DROPS.load(Relaxed) == drops + 1, "a failed construction does not drop the closure once");
                        state(($name, $kind, $n, gap, end, fault));
                        continue;
                    }
                    let Ok(made) = made else { viol("construction fails") };
                    hold(DROPS.load(Relaxed) == drops, "construction drops the closure");
                    let mut seen = 0;
                    #[allow(unused_mut)]
                    let mut call = |p: B, n: usize| {
                        if $n > 0 && seen == 0 {
                            built($home, 0, p as usize);
                        }
                        for i in 0..n {
                            st().calls += 1;
                            st().transitions += 1;
                            hold(unsafe { p(i as u64 + 5) } == value(i as u64 + 5), "the bare function does not compute what the closure does");
                            seen += 1;
                        }
                    };
                    let block = w().blocks.last().map(|b| b.rx);
                    hold(block.is_some() == ($n > 0), "only a capturing closure takes a block");
                    let dropped = match end {
                        End::Drop => {
                            wrappers!(@call $how, made, call);
                            drop(made);
                            true
                        }
                        End::Untyped => {
                            wrappers!(@call $how, made, call);
                            drop(made.into_untyped());
                            true
                        }
                        End::Leak => {
                            let p = made.leak();
                            call(p, if stringify!($how) == "leak" { 1 } else { 3 });
                            stringify!($how) == "leak"
                        }
                    };
                    st().transitions += 1;
                    hold(CALLS.load(Relaxed) == calls + seen, "calls do not run the closure once each");
hold(DROPS.load(Relaxed) == drops + dropped as usize, "the closure is not dropped exactly once");
                    let given_back = w().log.iter().filter(|e| matches!(e, Ev::Release { .. })).count();
                    let want = (end != End::Leak && $n > 0) as usize;
                    hold(given_back == want, "the block is not given back exactly once, at the end of the wrapper");
                    if want == 1 {
                        hold(w().log.last() == Some(&Ev::Release { state: $home, at: block.unwrap(), answer: 0 }), "the block is not given back to its allocator state");
                    }
                    hold($n > 0 || w().log.is_empty(), "a zero-sized closure touches the allocator");
                    state(($name, $kind, $n, gap, end, fault));
                }
            }
        }
    };
    (@call bare, $w:ident, $call:ident) => {
        $call($w.bare(), 3)
    };
    (@call leak, $w:ident, $call:ident) => {};
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let val = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let shard = val("--shard").unwrap_or("0/1".into());
    let (k, n) = shard.split_once('/').map(|(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())).unwrap();
    let depth: usize = val("--depth").map_or(4, |d| d.parse().unwrap());
    unsafe {
        STATS = Some(Stats::default());
        W = Some(World::new());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM] {
            libc::signal(s, on_signal as *const () as usize);
        }
    }
    w().top = AREA - 4096;
    w().clear();

    let global = home(&GlobalJitAlloc);
    hold(w().states == 1, "one use of the global allocator makes more than one state");
    let mut handles: Vec<(&str, &dyn JitAlloc, usize)> = vec![("global", &GlobalJitAlloc, global)];
    #[cfg(feature = "std")]
    let per_thread = closure_ffi::jit_alloc::ThreadJitAlloc::default();
    #[cfg(feature = "std")]
    handles.push(("per-thread", &per_thread, home(&per_thread)));

    let begin = st().histories;
    for (name, al, home) in &handles {
        for len in 1..=depth {
            let total = OPS.len().pow(len as u32);
            for i in (k..total).step_by(n) {
                let mut seq = Vec::with_capacity(len);
                let mut r = i;
                for _ in 0..len {
                    seq.push(OPS[r % OPS.len()]);
                    r /= OPS.len();
                }
                if (i / n) % 4001 == 7 && st().samples.len() < 3 {
                    st().samples.push(format!("{name} {seq:?}"));
                }
                sequence(name, *al, *home, &seq);
            }
        }
    }
    let sequences = st().histories - begin;
    st().spaces.push(("operation sequences", sequences));
    let begin = st().histories;
    if k == 0 {
        wrappers!("global", GlobalJitAlloc, global, 0);
        wrappers!("global", GlobalJitAlloc, global, 1);
        wrappers!("global", GlobalJitAlloc, global, 24);
        wrappers!("global", GlobalJitAlloc, global, 300);
        #[cfg(feature = "std")]
        {
            let home = handles[1].2;
            wrappers!("per-thread", per_thread.clone(), home, 0);
            wrappers!("per-thread", per_thread.clone(), home, 1);
            wrappers!("per-thread", per_thread.clone(), home, 24);
            wrappers!("per-thread", per_thread.clone(), home, 300);
        }
        // the constructors that name no allocator
        type B = unsafe extern "C" fn(u64) -> u64;
        for kind in 0..3 {
            case(format!("constructor without allocator, kind {kind}"));
            w().clear();
            w().gap = 64;
            st().histories += 1;
            st().constructions += 1;
            let y = std::hint::black_box(11u64);
            let f = move |x: u64| x + y;
            let p = match kind {
                0 => BareFn::<B>::new(f).leak(),
                1 => BareFnMut::<B>::new(f).leak(),
                _ => BareFnOnce::<B>::new(f).leak(),
            };
            built(global, 0, p as usize);
            hold(unsafe { p(5) } == 16, "the bare function does not compute what the closure does");
        }
        hold(w().states == handles.len(), "more states than allocators");
    }
    let wrapped = st().histories - begin;
    st().spaces.push(("wrappers", wrapped));
    let s = st();
    let mut o = String::new();
    let _ = write!(
        o,
        "RESULT {{\"histories\":{},\"transitions\":{},\"constructions\":{},\"calls\":{},\"checks\":{},\"faults\":{},\"state_hashes\":[{}],\"spaces\":{{{}}},\"samples\":[{}]}}",
        s.histories, s.transitions, s.constructions, s.calls, s.checks, s.faults,
        s.states.iter().map(|h| format!("\"{h:x}\"")).collect::<Vec<_>>().join(","),
        s.spaces.iter().map(|(n, c)| format!("\"bundled {n}\":{c}")).collect::<Vec<_>>().join(","),
        s.samples.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
    );
    println!("{o}");
}
