//! Programs of two or three threads using the default allocators, each one run under every
//! schedule (see rt.c), with a ledger of blocks, allocator states and closures.
#![allow(static_mut_refs, clippy::all)]

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::RefCell,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    ptr::null_mut,
    sync::{atomic::*, Arc},
};

use closure_ffi::{
    cc,
    jit_alloc::{GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess},
    BareFnAny, BareFnMutAny, BareFnOnceAny,
};

#[repr(C)]
struct Stats {
    schedules: u64,
    redundant: u64,
    unfair: u64,
    states: u64,
    transitions: u64,
    plain: u64,
    classes: u64,
    deepest: u64,
    failed: i32,
    msg: [u8; 4096],
    notes: [u64; 8],
}
extern "C" {
    fn mc_explore(
        n: i32,
        setup: extern "C" fn(),
        body: extern "C" fn(i32),
        finish: extern "C" fn(),
        wake_lifo: i32,
        overtake: i32,
        polite: i32,
        limit: u64,
        until: u64,
        st: *mut Stats,
    ) -> i32;
    fn mc_fail(p: *const u8, n: usize);
    fn mc_note(k: i32);
    fn mc_noted(k: i32) -> u64;
    fn mc_forget(p: *const u8, n: usize);
    fn mc_mode(m: i32) -> i32;
    fn mc_live() -> i32;
    fn mc_states(m: i32) -> i32;
}
const GLOBAL: i32 = 1;
#[cfg(feature = "std")]
const THREAD: i32 = 2;
/// Counters of one execution.
const MADE: i32 = 0;
const DROPPED: i32 = 1;
const CALLED: i32 = 2;
const LEAKED: i32 = 3;
const KEPT: i32 = 4;

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        mc_forget(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        mc_forget(p, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn fail(s: &str) -> ! {
    unsafe { mc_fail(s.as_ptr(), s.len()) };
    unreachable!()
}
fn note(k: i32) {
    unsafe { mc_note(k) }
}

// ---------------------------------------------------------------- closures

/// What a closure owns: dropped exactly once, by whoever ends its life.
struct Tok(u32, [u32; 3]);
impl Tok {
    fn new(n: u32) -> Self {
        note(MADE);
        Tok(n, [!n, n ^ 0x1234, n.rotate_left(7)])
    }
    fn get(&self) -> u32 {
        note(CALLED);
        if self.1 != [!self.0, self.0 ^ 0x1234, self.0.rotate_left(7)] {
            fail("a closure runs on captures that are not its own");
        }
        self.0
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        note(DROPPED);
        self.1[0] = 7;
    }
}

type B = unsafe extern "C" fn(u32) -> u32;
type U = unsafe extern "C-unwind" fn(u32) -> u32;
type St = dyn Send + Sync;
type W = BareFnAny<B, St>;

fn make(n: u32) -> W {
    let t = Tok::new(n);
    W::with_cc(cc::C, move |x: u32| t.get() ^ x)
}
fn call(f: B, x: u32, want: u32) {
    if unsafe { f(x) } != want {
        fail("a bare function reaches a closure other than its own");
    }
}

// ---------------------------------------------------------------- operations

static SLOT: AtomicPtr<W> = AtomicPtr::new(null_mut());
static mut SHARED: Option<Arc<W>> = None;
const SHARED_ID: u32 = 0x5151;

fn life(n: u32) {
    let w = make(n);
    call(w.bare(), 3, n ^ 3);
}
fn mutate(n: u32) {
    let t = Tok::new(n);
    let mut s = 0;
    let w = BareFnMutAny::<B, St>::with_cc(cc::C, move |x: u32| {
        s += x;
        t.get() ^ s
    });
    call(w.bare(), 3, n ^ 3);
    call(w.bare(), 4, n ^ 7);
}
fn once_drop(n: u32) {
    let t = Tok::new(n);
    drop(BareFnOnceAny::<B, St>::with_cc(cc::C, move |x: u32| t.get() ^ x));
}
fn once_call(n: u32) {
    let t = Tok::new(n);
    let f = BareFnOnceAny::<B, St>::with_cc(cc::C, move |x: u32| t.get() ^ x).leak();
    note(LEAKED);
    call(f, 9, n ^ 9);
}
fn leak(n: u32) {
    let f = make(n).leak();
    note(LEAKED);
    note(KEPT);
    call(f, 5, n ^ 5);
}
fn pair(n: u32) {
    let (a, b) = (make(n), make(n + 1));
    if a.bare() as usize == b.bare() as usize {
        fail("two live bare functions have the same address");
    }
    call(a.bare(), 1, n ^ 1);
    drop(a);
    call(b.bare(), 1, (n + 1) ^ 1);
}
fn give(n: u32) {
    let old = SLOT.swap(Box::into_raw(Box::new(make(n))), Ordering::AcqRel);
    taken(old);
}
fn take(_: u32) {
    taken(SLOT.swap(null_mut(), Ordering::AcqRel));
}
fn taken(p: *mut W) {
    if !p.is_null() {
        let w = unsafe { Box::from_raw(p) };
        let n = unsafe { (w.bare())(0) };
        call(w.bare(), 0x55, n ^ 0x55);
    }
}
fn nested(n: u32) {
    let t = Tok::new(n);
    let w = W::with_cc(cc::C, move |x: u32| {
        life(n + 1);
        t.get() ^ x
    });
    call(w.bare(), 2, n ^ 2);
}
struct Rebuild(u32);
impl Drop for Rebuild {
    fn drop(&mut self) {
        life(self.0);
    }
}
fn drop_nested(n: u32) {
    let r = Rebuild(n + 1);
    let t = Tok::new(n);
    drop(W::with_cc(cc::C, move |x: u32| r.0.wrapping_mul(0) ^ t.get() ^ x));
}
fn unwind(n: u32) {
    let t = Tok::new(n);
    let w = BareFnAny::<U, St>::with_cc(cc::CUnwind, move |x: u32| -> u32 { resume_unwind(Box::new(t.get() ^ x)) });
    match catch_unwind(AssertUnwindSafe(|| unsafe { w.bare()(6) })) {
        Err(p) if p.downcast_ref() == Some(&(n ^ 6)) => {}
        _ => fail("a panic did not come out of the bare function as it went in"),
    }
}
/// A wrapper that is made and another one that is dropped while unwinding.
fn drop_unwinding(n: u32) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _w = make(n);
        let _r = Rebuild(n + 1);
        resume_unwind(Box::new(1u8));
    }));
    if r.is_ok() {
        fail("unwinding got lost");
    }
}
fn shared_call(n: u32) {
    match unsafe { &SHARED } {
        Some(w) => call(w.bare(), n, SHARED_ID ^ n),
        None => life(n),
    }
}
/// Whoever lets go last destroys the wrapper.
fn share(n: u32) {
    let w = Arc::new(make(n));
    let other = w.clone();
    let old = unsafe { ARC.swap(Arc::into_raw(other) as *mut W, Ordering::AcqRel) };
    call(w.bare(), 8, n ^ 8);
    drop(w);
    if !old.is_null() {
        let w = unsafe { Arc::from_raw(old) };
        unsafe { (w.bare())(0) };
    }
}
static mut ARC: AtomicPtr<W> = AtomicPtr::new(null_mut());
fn raw(n: u32) {
    let a = GlobalJitAlloc;
    let Ok((rx, rw)) = a.alloc(64)
    else {
        fail("the allocator refuses")
    };
    unsafe {
        for i in 0..16 {
            (rw as *mut u32).add(i).write(n + i as u32);
        }
        for i in 0..16 {
            if (rx as *const u32).add(i).read() != n + i as u32 {
                fail("a block is shared with another one");
            }
        }
        if a.release(rx).is_err() {
            fail("the allocator does not take its block back");
        }
    }
}
struct Late(RefCell<Option<W>>);
impl Drop for Late {
    fn drop(&mut self) {
        drop(self.0.take());
        life(0x7070);
    }
}
thread_local! { static LATE: Late = const { Late(RefCell::new(None)) }; }
/// A wrapper that ends, and another one that lives, while the thread shuts down.
fn late(n: u32) {
    LATE.with(|l| {
        let w = make(n);
        call(w.bare(), 3, n ^ 3);
        *l.0.borrow_mut() = Some(w)
    });
}

#[cfg(feature = "std")]
mod own {
    use closure_ffi::jit_alloc::ThreadJitAlloc;

    use super::*;

    type O = BareFnAny<B, dyn closure_ffi::traits::Any, ThreadJitAlloc>;
    fn in_thread<T>(f: impl FnOnce() -> T) -> T {
        let old = unsafe { mc_mode(THREAD) };
        let r = f();
        unsafe { mc_mode(old) };
        r
    }
    fn make_own(n: u32) -> O {
        let t = Tok::new(n);
        O::with_cc_in(cc::C, move |x: u32| t.get() ^ x, ThreadJitAlloc::default())
    }
    pub fn own(n: u32) {
        in_thread(|| {
            let w = make_own(n);
            call(w.bare(), 3, n ^ 3);
        })
    }
    pub fn own_pair(n: u32) {
        in_thread(|| {
            let (a, b) = (make_own(n), make_own(n + 1));
            call(a.bare(), 3, n ^ 3);
            drop(a);
            call(b.bare(), 3, (n + 1) ^ 3);
        });
        life(n)
    }
    struct LateOwn(RefCell<Option<O>>);
    impl Drop for LateOwn {
        fn drop(&mut self) {
            in_thread(|| {
                if let Some(w) = self.0.take() {
                    let n = unsafe { w.bare()(0) };
                    call(w.bare(), 3, n ^ 3);
                    drop(w);
                }
                // may be too late to get executable memory, which is then reported
                let t = Tok::new(5);
                if let Ok(w) = O::try_with_cc_in(cc::C, move |x: u32| t.get() ^ x, ThreadJitAlloc::default()) {
                    call(w.bare(), 3, 5 ^ 3);
                }
            })
        }
    }
    thread_local! { static LATE_OWN: LateOwn = const { LateOwn(RefCell::new(None)) }; }
    /// The slot outlives the allocator of the thread.
    pub fn own_late(n: u32) {
        in_thread(|| {
            LATE_OWN.with(|l| *l.0.borrow_mut() = Some(make_own(n)));
        })
    }
    /// The allocator of the thread outlives the slot.
    pub fn own_early(n: u32) {
        in_thread(|| {
            let w = make_own(n);
            LATE_OWN.with(|l| *l.0.borrow_mut() = Some(w));
        })
    }
}

/// Name, what to do, and how often that enters the global allocator.
type Op = (&'static str, fn(u32), usize);
const OPS: &[Op] = &[
    ("life", life, 2),
    ("give", give, 2),
    ("take", take, 1),
    ("once-call", once_call, 1),
    ("nested", nested, 4),
    ("drop-nested", drop_nested, 4),
    #[cfg(feature = "std")]
    ("own-pair", own::own_pair, 2),
    ("shared-call", shared_call, 2),
    ("raw", raw, 2),
    ("share", share, 3),
    ("late", late, 4),
    ("drop-unwinding", drop_unwinding, 4),
    ("mutate", mutate, 2),
    ("once-drop", once_drop, 2),
    ("leak", leak, 1),
    ("pair", pair, 4),
    ("unwind", unwind, 2),
    #[cfg(feature = "std")]
    ("own", own::own, 0),
    #[cfg(feature = "std")]
    ("own-late", own::own_late, 0),
    #[cfg(feature = "std")]
    ("own-early", own::own_early, 0),
];

// ---------------------------------------------------------------- the explorer itself

/// Small programs on which exploring one schedule of each kind is compared with exploring all of
/// them, and known errors of which the explorer has to find.
mod own_test {
    use std::sync::{Mutex, OnceLock, RwLock};

    use super::*;

    static A: Mutex<u32> = Mutex::new(0);
    static B: Mutex<u32> = Mutex::new(0);
    static R: RwLock<u32> = RwLock::new(0);
    static ONCE: OnceLock<u32> = OnceLock::new();
    static FLAG: AtomicU32 = AtomicU32::new(0);
    static WORD: AtomicU32 = AtomicU32::new(0);
    static SPIN: AtomicU32 = AtomicU32::new(0);
    static mut PLAIN: u32 = 0;

    pub fn lock(_: u32) {
        *A.lock().unwrap() += 1;
    }
    pub fn two(_: u32) {
        *A.lock().unwrap() += 1;
        *B.lock().unwrap() += 1;
    }
    pub fn read(_: u32) {
        std::hint::black_box(*R.read().unwrap());
    }
    pub fn write(_: u32) {
        *R.write().unwrap() += 1;
    }
    pub fn once(n: u32) {
        if *ONCE.get_or_init(|| n) == 0 {
            fail("never");
        }
    }
    pub fn add(_: u32) {
        WORD.fetch_add(1, Ordering::AcqRel);
        FLAG.load(Ordering::Acquire);
        WORD.load(Ordering::Acquire);
    }
    pub fn set(n: u32) {
        FLAG.store(n, Ordering::Release);
        WORD.store(0, Ordering::Release);
    }
    pub fn spin(_: u32) {
        while SPIN.compare_exchange(0, 1, Ordering::AcqRel, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        unsafe { PLAIN += 1 };
        SPIN.store(0, Ordering::Release);
    }
    // errors
    pub fn race(_: u32) {
        unsafe { (&raw mut PLAIN).write_volatile((&raw const PLAIN).read_volatile() + 1) };
    }
    pub fn relaxed(_: u32) {
        if SPIN.swap(1, Ordering::Relaxed) == 0 {
            unsafe { PLAIN += 1 };
            SPIN.store(0, Ordering::Relaxed);
        }
    }
    pub fn ab(_: u32) {
        let _a = A.lock();
        let _b = B.lock();
    }
    pub fn ba(_: u32) {
        let _b = B.lock();
        let _a = A.lock();
    }
    pub fn lost(_: u32) {
        let v = WORD.load(Ordering::SeqCst);
        WORD.store(v + 1, Ordering::SeqCst);
        FLAG.fetch_add(1, Ordering::SeqCst);
        if FLAG.load(Ordering::SeqCst) == 2 && WORD.load(Ordering::SeqCst) != 2 {
            fail("an update got lost");
        }
    }
    pub fn stuck(_: u32) {
        while SPIN.load(Ordering::Acquire) == 0 {
            std::hint::spin_loop();
        }
    }
    pub fn twice(_: u32) {
        if WORD.load(Ordering::Acquire) == 0 {
            WORD.store(1, Ordering::Release);
            if FLAG.fetch_add(1, Ordering::AcqRel) == 1 {
                fail("initialised twice");
            }
        }
    }
    pub const SOUND: &[Op] = &[
        ("lock", lock, 0),
        ("two", two, 0),
        ("read", read, 0),
        ("write", write, 0),
        ("once", once, 0),
        ("add", add, 0),
        ("set", set, 0),
        ("spin", spin, 0),
    ];
    pub const WRONG: &[(Op, Op)] = &[
        (("race", race, 0), ("race", race, 0)),
        (("race", race, 0), ("spin", spin, 0)),
        (("relaxed", relaxed, 0), ("relaxed", relaxed, 0)),
        (("ab", ab, 0), ("ba", ba, 0)),
        (("lost", lost, 0), ("lost", lost, 0)),
        (("stuck", stuck, 0), ("stuck", stuck, 0)),
        (("twice", twice, 0), ("twice", twice, 0)),
    ];
    static mut RUN: Vec<Vec<fn(u32)>> = Vec::new();
    extern "C" fn nothing() {}
    extern "C" fn body(tid: i32) {
        for f in unsafe { &RUN[tid as usize] } {
            f(tid as u32 + 1)
        }
    }
    fn explore(run: Vec<Vec<fn(u32)>>, how: i32, limit: u64) -> (i32, Stats) {
        unsafe {
            let n = run.len() as i32;
            RUN = run;
            let mut st: Stats = std::mem::zeroed();
            let r = mc_explore(n, nothing, body, nothing, 0, 100, how, limit, u64::MAX, &mut st);
            (r, st)
        }
    }
    /// Programs compared, schedules of the exhaustive exploration, those of the reduced one, and
    /// errors found.
    pub fn check(limit: u64) -> Result<[u64; 4], String> {
        let mut r = [0; 4];
        let mut programs: Vec<Vec<Vec<Op>>> = vec![];
        for (i, &a) in SOUND.iter().enumerate() {
            for &b in &SOUND[i..] {
                programs.push(vec![vec![a], vec![b]]);
            }
        }
        for (a, b) in [(5, 6), (6, 5), (7, 7), (5, 5), (0, 0), (2, 3), (4, 4)] {
            programs.push(vec![vec![SOUND[a]], vec![SOUND[b]], vec![SOUND[a]]]);
        }
        for (p, polite) in programs.iter().flat_map(|p| [(p, 0), (p, 1)]) {
            let name = p.iter().map(|s| s.iter().map(|o| o.0).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | ");
            let run: Vec<Vec<fn(u32)>> = p.iter().map(|s| s.iter().map(|o| o.1).collect()).collect();
            let (e, all) = explore(run.clone(), 2 | polite, limit);
            if e == 3 {
                // too many for the comparison
                continue;
            }
            let (f, some) = explore(run, polite, limit);
            if std::env::var_os("MC_SELF").is_some() {
                println!("self {polite} {name}: {e} {f} all {} in {} classes, reduced {} + {} in {}", all.schedules, all.classes, some.schedules, some.redundant, some.classes);
            }
            if e != 0 || f != 0 || all.classes != some.classes || some.schedules != some.classes {
                let m = |s: &Stats| String::from_utf8_lossy(&s.msg[..s.msg.iter().position(|b| *b == 0).unwrap()]).into_owned();
                return Err(format!("the explorer is wrong about {name}: {e} {f}, {} classes of schedules, reduced to {} {} {}", all.classes, some.classes, m(&all), m(&some)));
            }
            r[0] += 1;
            r[1] += all.schedules;
            r[2] += some.schedules;
        }
        for (a, b) in WRONG {
            for how in [0, 1] {
                let (e, _) = explore(vec![vec![a.1], vec![b.1]], how, 100_000);
                if e != 1 && !(how == 1 && a.0 == "ab") {
                    return Err(format!("the explorer misses the error of {} | {}: {e}", a.0, b.0));
                }
                r[3] += (e == 1) as u64;
            }
        }
        Ok(r)
    }
}

// ---------------------------------------------------------------- programs

#[derive(Clone)]
struct Program {
    warm: bool,
    threads: Vec<Vec<usize>>,
}
static mut PROGRAM: Program = Program { warm: false, threads: Vec::new() };

/// Executable memory for what happens before the threads start.
struct Page;
impl JitAlloc for Page {
    fn alloc(&self, _: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        let p = unsafe { mmap(null_mut(), 4096, 7, 0x22, -1, 0) };
        Ok((p, p))
    }
    unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> {
        Ok(())
    }
    unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
    unsafe fn flush_instruction_cache(&self, _: *const u8, _: usize) {}
}

extern "C" fn setup() {
    unsafe {
        mc_mode(GLOBAL);
        if PROGRAM.warm {
            life(1);
            SHARED = Some(Arc::new(make(SHARED_ID)));
        }
    }
}
extern "C" fn body(tid: i32) {
    unsafe {
        mc_mode(GLOBAL);
        for (k, &op) in PROGRAM.threads[tid as usize].iter().enumerate() {
            OPS[op].1(0x1000 * (tid as u32 + 1) + 0x10 * k as u32);
        }
    }
}
extern "C" fn finish() {
    unsafe {
        mc_mode(GLOBAL);
        taken(SLOT.swap(null_mut(), Ordering::AcqRel));
        let p = ARC.swap(null_mut(), Ordering::AcqRel);
        if !p.is_null() {
            drop(Arc::from_raw(p));
        }
        SHARED = None;
        // everything still works
        life(77);
        if mc_noted(MADE) != mc_noted(DROPPED) + mc_noted(KEPT) {
            fail("closures were not destroyed exactly once");
        }
        if cfg!(ledger) {
            if mc_live() as u64 != mc_noted(LEAKED) {
                fail("executable memory was not released exactly once");
            }
            if mc_states(GLOBAL) != 1 {
                fail("there is not exactly one global allocator state");
            }
        }
    }
}

fn sequences(ops: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|s| (0..ops).map(move |o| [s.clone(), vec![o]].concat())).collect();
    }
    v
}
/// The same addresses in every run.
fn fixed_addresses(args: &[String]) {
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    const ADDR_NO_RANDOMIZE: i32 = 0x0040000;
    let p = unsafe { personality(0xffff_ffff) };
    if p >= 0 && p & ADDR_NO_RANDOMIZE == 0 && unsafe { personality((p | ADDR_NO_RANDOMIZE) as u64) } >= 0 {
        use std::os::unix::process::CommandExt;
        let _ = std::process::Command::new("/proc/self/exe").args(&args[1..])
            .env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1")
            .exec();
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    fixed_addresses(&args);
    let val = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let num = |n: &str, d: usize| val(n).map_or(d, |s| s.parse().unwrap());
    let (shard, shards) = match val("--shard") {
        Some(s) => {
            let (a, b) = s.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        }
        None => (0usize, 1usize),
    };
    // how often a waiting thread may be passed over
    let overtake = num("--overtake", 1) as i32;
    // every order of everything, to compare with
    let naive = args.iter().any(|a| a == "--naive");
    // schedules to look at of one program, seconds to look at all of them
    let limit = num("--limit", 3_000_000) as u64;
    let now = || std::time::UNIX_EPOCH.elapsed().unwrap().as_secs();
    let until = now() + num("--seconds", 100_000) as u64;
    let only = val("--only");
    // Shapes are given as lists of lengths of threads and the number of operations to choose from:
    // every schedule of `--full 1,1:20`, every polite one of `--polite 2,2:8`.
    let mut shapes: Vec<(bool, Vec<Vec<usize>>)> = vec![];
    // total number of allocator uses of programs explored fully
    let weight = num("--weight", 4);
    for (i, a) in args.iter().enumerate() {
        let polite = match a.as_str() {
            "--full" => false,
            "--polite" => true,
            _ => continue,
        };
        let (lens, ops) = args[i + 1].split_once(':').unwrap();
        let ops = ops.parse::<usize>().unwrap().min(OPS.len());
        let lens: Vec<usize> = lens.split(',').map(|s| s.parse().unwrap()).collect();
        let mut all: Vec<Vec<Vec<usize>>> = vec![vec![]];
        for len in lens {
            all = all.iter().flat_map(|p| sequences(ops, len).into_iter().map(|s| [p.clone(), vec![s]].concat())).collect();
        }
        for mut p in all {
            p.sort();
            let w: usize = p.iter().flatten().map(|&o| OPS[o].2).sum();
            if polite || w <= weight {
                shapes.push((polite, p));
            }
        }
    }
    // the cheap ones first
    shapes.sort_by_key(|(polite, p)| (!polite, p.iter().flatten().map(|&o| OPS[o].2).sum::<usize>(), p.clone()));
    shapes.dedup();

    std::panic::set_hook(Box::new(|_| {}));
    // the tables of the disassembler are the same for everybody
    let n = args.len() as u32;
    drop(BareFnAny::<B, St, Page>::with_cc_in(cc::C, move |x: u32| x ^ n, Page));

    let mut own = String::new();
    if let Some(limit) = val("--self") {
        match own_test::check(limit.parse().unwrap()) {
            Ok([n, all, some, wrong]) => {
                own = format!("\"compared_programs\":{n},\"compared_schedules\":{all},\"compared_reduced\":{some},\"known_errors_found\":{wrong},");
            }
            Err(e) => {
                println!("ENGINE {e}");
                std::process::exit(4);
            }
        }
    }
    let mut total: Stats = unsafe { std::mem::zeroed() };
    let (mut programs, mut samples, mut bad) = (0u64, vec![], 0u64);
    let (mut short, mut politely, mut skipped) = (0u64, 0u64, 0u64);
    let mut n = 0;
    'all: for (polite, threads) in &shapes {
        let polite = *polite;
        for (warm, lifo) in [(false, false), (true, false), (false, true), (true, true)] {
            // the order of waking matters to three threads only
            if lifo && threads.len() < 3 {
                continue;
            }
            let name = threads
                .iter()
                .map(|s| s.iter().map(|&o| OPS[o].0).collect::<Vec<_>>().join(" "))
                .collect::<Vec<_>>()
                .join(" | ");
            let name = format!("{}{}{}: {name}", if warm { "warm" } else { "cold" }, if lifo { " lifo" } else { "" }, if polite { " polite" } else { "" });
            n += 1;
            if only.as_ref().map_or(n % shards != shard, |o| *o != name) {
                continue;
            }
            if now() > until {
                skipped += 1;
                continue;
            }
            let mut st: Stats = unsafe { std::mem::zeroed() };
            unsafe { PROGRAM = Program { warm, threads: threads.clone() } };
            let mut explore = |polite: bool| unsafe {
                mc_explore(threads.len() as i32, setup, body, finish, lifo as i32, overtake, polite as i32 | naive as i32 * 2, limit, until, &mut st)
            };
            let mut r = explore(polite);
            if r == 3 && !polite {
                // too many: those that do not try a lock that is taken, then
                r = explore(true);
                politely += (r == 0) as u64;
            }
            let msg = String::from_utf8_lossy(&st.msg[..st.msg.iter().position(|b| *b == 0).unwrap()]).into_owned();
            match r {
                0 => {}
                1 => {
                    println!("VIOL {msg} :: {name}");
                    bad += 1;
                }
                3 => short += 1,
                _ => {
                    println!("ENGINE {msg} :: {name}");
                    std::process::exit(4);
                }
            }
            programs += 1;
            total.schedules += st.schedules;
            total.redundant += st.redundant;
            total.unfair += st.unfair;
            total.states += st.states;
            total.transitions += st.transitions;
            total.plain += st.plain;
            total.deepest = total.deepest.max(st.deepest);
            for i in 0..8 {
                total.notes[i] += st.notes[i];
            }
            if samples.len() < 3 && programs % 7 == 1 {
                samples.push(format!("{name}: {} schedules", st.schedules));
            }
            if bad != 0 {
                break 'all;
            }
            if args.iter().any(|a| a == "--verbose") {
                println!("{name}: {} schedules, {} redundant, {} unfair, {} classes, deepest {}", st.schedules, st.redundant, st.unfair, st.classes, st.deepest);
            }
        }
    }
    println!(
        "RESULT {{{own}\"states\":{},\"transitions\":{},\"schedules\":{},\"redundant_schedules\":{},\"unfair_schedules\":{},\"programs\":{programs},\"cut_short\":{short},\"only_politely\":{politely},\"skipped\":{skipped},\"plain_accesses\":{},\"calls\":{},\"closures\":{},\"samples\":[{}]}}",
        total.states,
        total.transitions,
        total.schedules,
        total.redundant,
        total.unfair,
        total.plain,
        total.notes[CALLED as usize],
        total.notes[MADE as usize],
        samples.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(",")
    );
    std::process::exit((bad != 0) as i32)
}
