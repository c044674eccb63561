//! Architecture-independent part of the relocation explorer.
//!
//! A *program* is a sequence of items (instructions) placed at the start of a thunk template.  For
//! every program the explorer
//!   1. writes program + closure-fetch block + body stub into a static buffer,
//!   2. runs the program in place, stopping where the closure-fetch block begins (reference),
//!   3. asks the library, through its public constructor, for a bare function of that template,
//!   4. runs the bare function from the same machine state and compares what the body would see.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::UnsafeCell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed},
};

use closure_ffi::{
    jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess},
    traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk},
    BareFnAny,
};

use crate::arch;

// ---------------------------------------------------------------- arena

pub const ARENA_SIZE: usize = 8 << 20;
/// Offset of the template area: programs start at `TPL_OFF + alignment`.
pub const TPL_OFF: usize = 4 << 20;
/// Data windows that programs may store to.
pub const DATA_LO: usize = TPL_OFF - 0x8_0000;
pub const DATA_HI: usize = TPL_OFF + 0x8_0000;
pub const DATA_REG: usize = TPL_OFF + 0x9_0000;
/// Windows near the template, for short-range literals.
pub const NEAR_LO: usize = TPL_OFF - 0x200;
pub const NEAR_HI: usize = TPL_OFF + 0x200;
pub const WIN: usize = 128;
pub const WINDOWS: [usize; 5] = [DATA_LO, DATA_HI, DATA_REG, NEAR_LO, NEAR_HI];

#[repr(C, align(65536))]
pub struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
unsafe impl Sync for Arena {}
#[export_name = "MC_ARENA"]
pub static ARENA: Arena = Arena(UnsafeCell::new([0; ARENA_SIZE]));

pub const fn arena_ptr(off: usize) -> *const u8 {
    unsafe { (&raw const ARENA).cast::<u8>().add(off) }
}
pub fn arena(off: usize) -> usize {
    arena_ptr(off) as usize
}
fn pattern(off: usize) -> u8 {
    let x = (off as u32).wrapping_mul(0x9E37_79B1);
    ((x >> 24) ^ (x >> 13) ^ off as u32) as u8
}

// ---------------------------------------------------------------- guest machine block

#[repr(C, align(64))]
pub struct Mc {
    pub host_sp: usize,
    pub target: usize,
    pub in_flags: usize,
    pub out_flags: usize,
    pub in_regs: [usize; 32],
    pub out_regs: [usize; 32],
    pub in_vec: [u8; 512],
    pub out_vec: [u8; 512],
    pub host_vec: [u8; 512],
}
#[no_mangle]
pub static mut MC: Mc = Mc {
    host_sp: 0,
    target: 0,
    in_flags: 0,
    out_flags: 0,
    in_regs: [0; 32],
    out_regs: [0; 32],
    in_vec: [0; 512],
    out_vec: [0; 512],
    host_vec: [0; 512],
};

extern "C" {
    pub fn mc_enter(code: usize) -> usize;
    pub fn mc_collect();
    pub fn mc_recover();
}

// ---------------------------------------------------------------- recording global allocator

pub struct Rec;
static LAST_PROBE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_PROBES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Rec {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if l == Layout::new::<ProbeData>() {
            LAST_PROBE.store(p as usize, Relaxed);
            LIVE_PROBES.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l == Layout::new::<ProbeData>() {
            LIVE_PROBES.fetch_sub(1, Relaxed);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GA: Rec = Rec;

// ---------------------------------------------------------------- probe closure types

pub type B = unsafe extern "C" fn();
#[repr(C, align(32))]
pub struct ProbeData(pub [usize; 24]);
#[repr(transparent)]
pub struct Probe<const O: usize>(pub ProbeData);

pub const fn tp(o: usize) -> *const u8 {
    unsafe { arena_ptr(TPL_OFF + o).add(arch::CODE_BIT) }
}
unsafe impl<const O: usize> FnOnceThunk<B> for Probe<O> {
    const THUNK_TEMPLATE_ONCE: *const u8 = tp(O);
    unsafe fn call_once<'a, 'b, 'c>(
        self,
        _: <B as FnPtr>::Args<'a, 'b, 'c>,
    ) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
    }
}
unsafe impl<const O: usize> FnMutThunk<B> for Probe<O> {
    const THUNK_TEMPLATE_MUT: *const u8 = tp(O);
    unsafe fn call_mut<'a, 'b, 'c>(
        &mut self,
        _: <B as FnPtr>::Args<'a, 'b, 'c>,
    ) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
    }
}
unsafe impl<const O: usize> FnThunk<B> for Probe<O> {
    const THUNK_TEMPLATE: *const u8 = tp(O);
    unsafe fn call<'a, 'b, 'c>(
        &self,
        _: <B as FnPtr>::Args<'a, 'b, 'c>,
    ) -> <B as FnPtr>::Ret<'a, 'b, 'c> {
    }
}

pub type W = BareFnAny<B, dyn Any, &'static Slab>;
fn mk<const O: usize>() -> Result<W, JitAllocError> {
    let mut d = [0usize; 24];
    for (i, x) in d.iter_mut().enumerate() {
        *x = 0x5A00 + i;
    }
    W::try_with_thunk_in(Probe::<O>(ProbeData(d)), &SLAB)
}
/// Template alignment offsets and the constructor for each.
pub const MKS: [(usize, fn() -> Result<W, JitAllocError>); 10] = [
    (0, mk::<0>),
    (1, mk::<1>),
    (2, mk::<2>),
    (3, mk::<3>),
    (4, mk::<4>),
    (5, mk::<5>),
    (8, mk::<8>),
    (12, mk::<12>),
    (15, mk::<15>),
    (16, mk::<16>),
];

// ---------------------------------------------------------------- slab allocator

pub struct Slab {
    base: AtomicUsize,
    skew: AtomicUsize,
    pub allocs: AtomicUsize,
    pub releases: AtomicUsize,
    last: AtomicUsize,
}
pub static SLAB: Slab = Slab {
    base: AtomicUsize::new(0),
    skew: AtomicUsize::new(0),
    allocs: AtomicUsize::new(0),
    releases: AtomicUsize::new(0),
    last: AtomicUsize::new(0),
};
const SLAB_SIZE: usize = if cfg!(target_arch = "aarch64") { 4 << 20 } else { 1 << 16 };
const SLAB_OFF: usize = 1 << 14;
impl JitAlloc for Slab {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let p = self.base.load(Relaxed) + SLAB_OFF + self.skew.load(Relaxed);
        self.allocs.fetch_add(1, Relaxed);
        self.last.store(p, Relaxed);
        unsafe {
            let a = (p - 64) & !15;
            arch::trap_fill(core::slice::from_raw_parts_mut(a as *mut u8, (size + 192) & !15));
        }
        Ok((p as *const u8, p as *mut u8))
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        self.releases.fetch_add(1, Relaxed);
        if rx as usize != self.last.load(Relaxed) {
            fatal("release of a pointer that is not the block's executable address");
        }
        Ok(())
    }
    unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        arch::flush(p, n)
    }
}

// ---------------------------------------------------------------- programs

pub struct Ctx<'a> {
    pub addr: usize,
    pub idx: usize,
    /// addresses of the items; the last entry is where the closure-fetch block starts
    pub addrs: &'a [usize],
}
impl Ctx<'_> {
    /// Address of the item `n` items after this one.
    pub fn label(&self, n: isize) -> Option<usize> {
        let i = self.idx as isize + 1 + n;
        if i < 0 {
            return None;
        }
        self.addrs.get(i as usize).copied()
    }
}
pub struct Emitted {
    pub bytes: Vec<u8>,
    /// memory read or written by the instruction through the PC
    pub touch: Option<(usize, usize)>,
}
impl From<Vec<u8>> for Emitted {
    fn from(bytes: Vec<u8>) -> Self {
        Emitted { bytes, touch: None }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// not PC-relative, not a branch: may never be a reason to refuse
    Plain,
    /// PC-relative form documented as supported
    Pc,
    /// conditional jump over this many of the following instructions
    #[cfg(target_arch = "x86_64")]
    Skip(usize),
    /// anything else: refusal is fine
    Other,
}
pub struct Item {
    pub name: String,
    pub len: usize,
    pub kind: Kind,
    /// registers read / completely overwritten (bit masks), for the dead-register predicate
    pub reads: u32,
    pub writes: u32,
    /// may continue in the body without executing the closure fetch
    pub escapes: bool,
    pub emit: Box<dyn Fn(&Ctx) -> Option<Emitted>>,
}
impl Item {
    pub fn fixed(name: &str, bytes: Vec<u8>) -> Item {
        Item {
            name: name.into(),
            len: bytes.len(),
            kind: Kind::Plain,
            reads: 0,
            writes: 0,
            escapes: false,
            emit: Box::new(move |_| Some(bytes.clone().into())),
        }
    }
    pub fn other(mut self) -> Item {
        self.kind = Kind::Other;
        self
    }
    #[allow(dead_code)]
    pub fn pc(mut self) -> Item {
        self.kind = Kind::Pc;
        self
    }
}

/// One exhaustively enumerated space: all sequences of `items` with `min..=max` elements, at every
/// template offset in `offs`, every tail variant.
pub struct Space {
    pub name: &'static str,
    pub items: Vec<Item>,
    pub min: usize,
    pub max: usize,
    pub offs: Vec<usize>,
    pub tails: usize,
    /// fixed items put before / after each enumerated sequence (indices into `items`)
    pub pre: Vec<usize>,
    pub post: Vec<usize>,
    pub thorough_only: bool,
    /// prologues of this space may extend over the data windows
    pub far: bool,
}
impl Space {
    pub fn new(name: &'static str, items: Vec<Item>, min: usize, max: usize, offs: &[usize]) -> Self {
        Space {
            name,
            items,
            min,
            max,
            offs: offs.to_vec(),
            tails: 1,
            pre: vec![],
            post: vec![],
            thorough_only: false,
            far: false,
        }
    }
    pub fn tails(mut self, n: usize) -> Self {
        self.tails = n;
        self
    }
    #[allow(dead_code)]
    pub fn far(mut self) -> Self {
        self.far = true;
        self
    }
    pub fn thorough(mut self) -> Self {
        self.thorough_only = true;
        self
    }
}

// ---------------------------------------------------------------- snapshots

#[derive(Clone, Default)]
pub struct Snap {
    pub res: usize,
    pub sig: usize,
    pub regs: [usize; 32],
    pub flags: usize,
    pub vec: Vec<u8>,
    pub stack: Vec<u8>,
    pub data: Vec<u8>,
}

const STACK_SIZE: usize = 1 << 16;
const STACK_WIN: usize = 512;

pub struct Stats {
    pub programs: u64,
    pub inapplicable: u64,
    pub accepted: u64,
    pub refused: u64,
    pub must_accept: u64,
    pub runs: u64,
    pub instrs: u64,
    pub ref_faults: u64,
    pub violations: u64,
    pub outcomes: std::collections::HashSet<u64>,
    pub templates: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub per_space: Vec<(String, u64, u64)>,
    /// hash over the accept/refuse decisions of the current space
    pub decisions: u64,
    pub per_space_decisions: Vec<(String, u64)>,
}

pub struct Explorer {
    pub stack: usize,
    pub stack_init: Vec<u8>,
    pub win_init: Vec<u8>,
    pub st: Stats,
    pub accept_mode: bool,
    pub shard: (u64, u64),
    pub known: Vec<String>,
    pub known_hits: std::collections::BTreeMap<String, u64>,
    pub max_viol: u64,
    /// end of the current program: windows below it are code
    code_end: usize,
}

static IN_GUEST: AtomicBool = AtomicBool::new(false);
static LAST_SIG: AtomicUsize = AtomicUsize::new(0);
static CASE_NO: AtomicUsize = AtomicUsize::new(0);
static TICK_CASE: AtomicUsize = AtomicUsize::new(usize::MAX);
static TICKS: AtomicUsize = AtomicUsize::new(0);
static mut CASE_TEXT: String = String::new();
const HANG_TICKS: usize = if cfg!(target_arch = "aarch64") { 30 } else { 4 };

/// Report a violation that cannot be recovered from in this process (the library itself faulted or
/// does not return) and stop.
pub fn fatal(msg: &str) -> ! {
    unsafe {
        let text = &*(&raw const CASE_TEXT);
        println!("VIOL {} :: {}", msg, text);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        libc::_exit(3)
    }
}

extern "C" fn on_signal(sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    if sig == libc::SIGVTALRM {
        let c = CASE_NO.load(Relaxed);
        if TICK_CASE.swap(c, Relaxed) == c {
            if TICKS.fetch_add(1, Relaxed) + 1 < HANG_TICKS {
                return;
            }
        } else {
            TICKS.store(0, Relaxed);
            return;
        }
        TICKS.store(0, Relaxed);
    }
    if IN_GUEST.load(Relaxed) {
        LAST_SIG.store(sig as usize, Relaxed);
        unsafe { arch::redirect(uc, mc_recover as usize) };
        return;
    }
    if sig == libc::SIGVTALRM {
        fatal("construction does not terminate");
    }
    unsafe {
        let text = &*(&raw const CASE_TEXT);
        if text.is_empty() {
            println!("ENGINE fault (signal {sig}) outside a case");
            libc::_exit(4);
        }
    }
    fatal("the library faulted during construction or drop");
}

impl Explorer {
    pub fn new(accept_mode: bool, shard: (u64, u64)) -> Self {
        unsafe {
            let prot = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;
            let a = arena(0) as *mut u8;
            for i in 0..ARENA_SIZE {
                a.add(i).write(pattern(i));
            }
            assert_eq!(libc::mprotect(a as _, ARENA_SIZE, prot), 0, "mprotect");
            let map = |n: usize, prot| {
                let p = libc::mmap(
                    core::ptr::null_mut(),
                    n,
                    prot,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                p as usize
            };
            SLAB.base.store(map(SLAB_SIZE, prot), Relaxed);
            arch::trap_fill(core::slice::from_raw_parts_mut(
                SLAB.base.load(Relaxed) as *mut u8,
                SLAB_SIZE,
            ));
            let stack = map(STACK_SIZE, libc::PROT_READ | libc::PROT_WRITE) + STACK_SIZE / 2;
            let alt = map(1 << 16, libc::PROT_READ | libc::PROT_WRITE);
            let ss = libc::stack_t {
                ss_sp: alt as _,
                ss_flags: 0,
                ss_size: 1 << 16,
            };
            assert_eq!(libc::sigaltstack(&ss, core::ptr::null_mut()), 0);
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_signal as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            for s in [
                libc::SIGSEGV,
                libc::SIGBUS,
                libc::SIGILL,
                libc::SIGTRAP,
                libc::SIGFPE,
                libc::SIGSYS,
                libc::SIGVTALRM,
            ] {
                assert_eq!(libc::sigaction(s, &sa, core::ptr::null_mut()), 0);
            }
            let tv = libc::timeval {
                tv_sec: 1,
                tv_usec: 0,
            };
            let it = libc::itimerval {
                it_interval: tv,
                it_value: tv,
            };
            extern "C" {
                fn setitimer(
                    which: i32,
                    new: *const libc::itimerval,
                    old: *mut libc::itimerval,
                ) -> i32;
            }
            assert_eq!(setitimer(1 /* ITIMER_VIRTUAL */, &it, core::ptr::null_mut()), 0);

            let stack_init = (0..2 * STACK_WIN).map(|i| pattern(i * 7 + 3)).collect();
            let mut win_init = vec![];
            for w in WINDOWS {
                for i in 0..WIN {
                    win_init.push(pattern(w + i));
                }
            }
            std::panic::set_hook(Box::new(|_| {}));
            Explorer {
                stack,
                stack_init,
                win_init,
                st: Stats {
                    programs: 0,
                    inapplicable: 0,
                    accepted: 0,
                    refused: 0,
                    must_accept: 0,
                    runs: 0,
                    instrs: 0,
                    ref_faults: 0,
                    violations: 0,
                    outcomes: Default::default(),
                    templates: Default::default(),
                    samples: vec![],
                    per_space: vec![],
                    decisions: 0,
                    per_space_decisions: vec![],
                },
                accept_mode,
                shard,
                known: vec![],
                known_hits: Default::default(),
                max_viol: 12,
                code_end: 0,
            }
        }
    }

    fn is_code(&self, window: usize) -> bool {
        window >= TPL_OFF && arena(window) < self.code_end
    }

    fn reset_memory(&self) {
        unsafe {
            core::ptr::copy_nonoverlapping(
                self.stack_init.as_ptr(),
                (self.stack - STACK_WIN) as *mut u8,
                2 * STACK_WIN,
            );
            for (i, w) in WINDOWS.iter().enumerate() {
                if self.is_code(*w) {
                    continue;
                }
                core::ptr::copy_nonoverlapping(
                    self.win_init[i * WIN..].as_ptr(),
                    arena(*w) as *mut u8,
                    WIN,
                );
            }
        }
    }

    /// Run guest code from initial state number `s` and collect everything observable.
    pub fn run(&mut self, code: usize, s: usize) -> Snap {
        self.reset_memory();
        unsafe {
            let mc = &mut *(&raw mut MC);
            arch::init_state(mc, s, self.stack, arena(DATA_REG));
            mc.out_regs = [0; 32];
            self.st.runs += 1;
            IN_GUEST.store(true, Relaxed);
            let res = mc_enter(code);
            IN_GUEST.store(false, Relaxed);
            let mut snap = Snap {
                res,
                sig: if res != 0 { LAST_SIG.load(Relaxed) } else { 0 },
                ..Default::default()
            };
            if res == 0 {
                snap.regs = mc.out_regs;
                snap.flags = mc.out_flags & arch::FLAG_MASK;
                snap.vec = arch::vec_view(&mc.out_vec).to_vec();
                let sp = snap.regs[arch::SP];
                let lo = sp.clamp(self.stack - STACK_WIN, self.stack + STACK_WIN);
                snap.stack = core::slice::from_raw_parts(
                    lo as *const u8,
                    self.stack + STACK_WIN - lo,
                )
                .to_vec();
                for w in WINDOWS {
                    if self.is_code(w) {
                        continue;
                    }
                    snap.data
                        .extend_from_slice(core::slice::from_raw_parts(arena(w) as *const u8, WIN));
                }
            }
            snap
        }
    }

    fn violation(&mut self, prog: &str, what: &str) {
        let full = format!("{what} :: {prog}");
        for k in &self.known {
            let parts: Vec<&str> = k.split("&&").map(|s| s.trim()).collect();
            if parts.iter().all(|p| full.contains(p)) {
                *self.known_hits.entry(k.clone()).or_default() += 1;
                return;
            }
        }
        self.st.violations += 1;
        println!("VIOL {full}");
        if self.st.violations >= self.max_viol {
            println!("VIOLATION LIMIT reached, stopping this shard");
            self.finish();
            std::process::exit(1);
        }
    }

    pub fn finish(&self) {
        let s = &self.st;
        let esc = |t: &str| t.replace('\\', "\\\\").replace('"', "\\\"");
        let samples: Vec<String> = s.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
        let spaces: Vec<String> = s
            .per_space
            .iter()
            .map(|(n, a, b)| format!("\"{n}\":[{a},{b}]"))
            .collect();
        let decisions: Vec<String> =
            s.per_space_decisions.iter().map(|(n, h)| format!("\"{n}\":\"{h:016x}\"")).collect();
        let known: Vec<String> =
            self.known_hits.iter().map(|(k, n)| format!("\"{}\":{n}", esc(k))).collect();
        println!(
            "RESULT {{\"programs\":{},\"inapplicable\":{},\"accepted\":{},\"refused\":{},\"must_accept\":{},\"runs\":{},\"transitions\":{},\"ref_faults\":{},\"violations\":{},\"states\":{},\"templates\":{},\"spaces\":{{{}}},\"decisions\":{{{}}},\"known\":{{{}}},\"samples\":[{}]}}",
            s.programs, s.inapplicable, s.accepted, s.refused, s.must_accept, s.runs, s.instrs, s.ref_faults,
            s.violations, s.outcomes.len(), s.templates.len(), spaces.join(","), decisions.join(","), known.join(","), samples.join(",")
        );
    }

    /// Enumerate one space completely (this shard's part of it).
    pub fn explore(&mut self, sp: &Space) {
        let n = sp.items.len() as u64;
        let mut index: u64 = 0;
        let (before, before_acc) = (self.st.programs, self.st.accepted);
        for &off in &sp.offs {
            for tail in 0..sp.tails {
                for len in sp.min..=sp.max {
                    let total = n.pow(len as u32);
                    for c in 0..total {
                        index += 1;
                        if index % self.shard.1 != self.shard.0 {
                            continue;
                        }
                        let mut seq = sp.pre.clone();
                        let mut x = c;
                        for _ in 0..len {
                            seq.push((x % n) as usize);
                            x /= n;
                        }
                        seq.extend(&sp.post);
                        self.program(sp, &seq, off, tail, index);
                    }
                }
            }
        }
        self.st.per_space_decisions.push((sp.name.to_string(), self.st.decisions));
        self.st.decisions = 0;
        self.st.per_space.push((
            sp.name.to_string(),
            self.st.programs - before,
            self.st.accepted - before_acc,
        ));
    }

    pub fn program(&mut self, sp: &Space, seq: &[usize], off: usize, tail_var: usize, index: u64) {
        self.code_end = 0;
        self.program_inner(sp, seq, off, tail_var, index);
        if sp.far && self.code_end != 0 {
            for i in TPL_OFF..self.code_end - arena(0) {
                unsafe { (arena(i) as *mut u8).write(pattern(i)) };
            }
        }
        self.code_end = 0;
    }

    fn program_inner(&mut self, sp: &Space, seq: &[usize], off: usize, tail_var: usize, index: u64) {
        let start = arena(TPL_OFF) + off;
        let mut addrs = Vec::with_capacity(seq.len() + 1);
        let mut a = start;
        for &i in seq {
            addrs.push(a);
            a += sp.items[i].len;
        }
        addrs.push(a);
        let tail_start = a;
        let mut bytes = Vec::with_capacity(64);
        let mut touches = Vec::new();
        for (k, &i) in seq.iter().enumerate() {
            let ctx = Ctx {
                addr: addrs[k],
                idx: k,
                addrs: &addrs,
            };
            match (sp.items[i].emit)(&ctx) {
                Some(e) => {
                    assert_eq!(e.bytes.len(), sp.items[i].len, "{}", sp.items[i].name);
                    bytes.extend_from_slice(&e.bytes);
                    touches.extend(e.touch);
                }
                None => {
                    self.st.inapplicable += 1;
                    return;
                }
            }
        }
        let tail = arch::tail(tail_start, tail_var);
        bytes.extend_from_slice(tail);
        let stub = arch::branch_to(start + bytes.len(), mc_collect as usize);
        bytes.extend_from_slice(&stub);
        let end = start + bytes.len();
        for (lo, hi) in touches {
            // data inside the closure-fetch block differs by design; windows must not overlap code
            if lo < end && hi > tail_start {
                self.st.inapplicable += 1;
                return;
            }
            if lo < arena(0) || hi > arena(0) + ARENA_SIZE {
                self.st.inapplicable += 1;
                return;
            }
        }
        assert!(sp.far || end < arena(TPL_OFF) + 0x200);
        self.code_end = end;
        self.st.programs += 1;
        CASE_NO.fetch_add(1, Relaxed);

        let describe = || {
            let names: Vec<&str> = seq.iter().map(|&i| sp.items[i].name.as_str()).collect();
            format!(
                "{} space={} off={} tail={} items={:?} prog=[{}] bytes={}",
                arch::NAME,
                sp.name,
                off,
                tail_var,
                seq,
                names.join(" ; "),
                if bytes.len() > 512 {
                    format!("({} bytes)", bytes.len())
                } else {
                    bytes.iter().map(|b| format!("{b:02x}")).collect::<String>()
                }
            )
        };
        unsafe { *(&raw mut CASE_TEXT) = describe() };

        let must_accept = arch::must_accept(sp, seq, tail_var);
        let escapes = seq.iter().any(|&i| sp.items[i].escapes);

        unsafe {
            core::ptr::copy_nonoverlapping(bytes.as_ptr(), start as *mut u8, bytes.len());
            arch::flush(start as *const u8, bytes.len());
        }

        // construct through the public API
        SLAB.skew.store((index % 16) as usize, Relaxed);
        let live_before = LIVE_PROBES.load(Relaxed);
        let (na, nr) = (SLAB.allocs.load(Relaxed), SLAB.releases.load(Relaxed));
        let mkf = MKS.iter().find(|m| m.0 == off).expect("offset").1;
        let built = catch_unwind(AssertUnwindSafe(|| mkf()));
        let w = match built {
            Ok(Ok(w)) => Some(w),
            Ok(Err(_)) => {
                let d = describe();
                self.violation(&d, "constructor reported an allocator error that did not happen");
                return;
            }
            Err(_) => None,
        };
        let closure = LAST_PROBE.load(Relaxed);

        if must_accept {
            self.st.must_accept += 1;
        }
        let Some(w) = w else {
            self.st.refused += 1;
            if must_accept && self.accept_mode {
                let d = describe();
                self.violation(&d, "relocatable prologue refused");
            }
            if SLAB.allocs.load(Relaxed) != na && SLAB.releases.load(Relaxed) == nr {
                let d = describe();
                self.violation(&d, "refused construction kept executable memory");
            }
            return;
        };
        self.st.accepted += 1;
        self.st.decisions = (self.st.decisions.rotate_left(7) ^ index).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let mut h = std::hash::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        (off, tail_var, &bytes).hash(&mut h);
        self.st.templates.insert(h.finish());

        if self.accept_mode {
            self.st.outcomes.insert(h.finish());
            self.st.instrs += seq.len() as u64;
            if self.st.samples.len() < 3 && index % 97 == self.shard.0 {
                let d = describe();
                self.st.samples.push(d);
            }
            drop(w);
            return;
        }

        let code = w.bare() as usize;
        let nstates = arch::STATES;
        for s in 0..nstates {
            // reference: in place, stopped at the closure-fetch block
            let stop = arch::branch_to(tail_start, mc_collect as usize);
            let mut saved = [0u8; 16];
            unsafe {
                core::ptr::copy_nonoverlapping(tail_start as *const u8, saved.as_mut_ptr(), stop.len());
                core::ptr::copy_nonoverlapping(stop.as_ptr(), tail_start as *mut u8, stop.len());
                arch::flush(tail_start as *const u8, stop.len());
            }
            let r = self.run(start + arch::CODE_BIT, s);
            unsafe {
                core::ptr::copy_nonoverlapping(saved.as_ptr(), tail_start as *mut u8, stop.len());
                arch::flush(tail_start as *const u8, stop.len());
            }
            if r.res != 0 {
                self.st.ref_faults += 1;
                if std::env::var_os("MC_DEBUG").is_some() {
                    println!("REFFAULT sig={} {}", r.sig, describe());
                }
                continue;
            }
            self.st.instrs += seq.len() as u64 + 1;
            let g = self.run(code, s);
            let mut h = std::hash::DefaultHasher::new();
            let mut rr = g.regs;
            for (i, v) in rr.iter_mut().enumerate() {
                if (1 << arch::closure_reg(tail_var) | arch::scratch_mask(tail_var)) >> i & 1 == 1 {
                    *v = 0;
                }
            }
            (s, rr, g.flags, &g.vec, &g.stack, &g.data).hash(&mut h);
            self.st.outcomes.insert(h.finish());

            let diff = compare(&r, &g, &self.stack_init, closure, tail_var, escapes);
            if let Some(d) = diff {
                let p = describe();
                self.violation(&format!("state={s} {p}"), &d);
                break;
            }
        }
        if self.st.samples.len() < 3 && index % 97 == self.shard.0 {
            let d = describe();
            self.st.samples.push(d);
        }
        drop(w);
        if LIVE_PROBES.load(Relaxed) != live_before {
            let d = describe();
            self.violation(&d, "closure storage not freed");
        }
    }
}

fn compare(r: &Snap, g: &Snap, init: &[u8], closure: usize, tail_var: usize, escapes: bool) -> Option<String> {
    if g.res != 0 {
        return Some(if g.sig == libc::SIGVTALRM as usize {
            "relocated code does not terminate".into()
        } else {
            format!("relocated code faulted (signal {})", g.sig)
        });
    }
    let clreg = arch::closure_reg(tail_var);
    let scratch = arch::scratch_mask(tail_var);
    for i in 0..arch::NREGS {
        if i == clreg {
            if g.regs[i] != closure && !(escapes && g.regs[i] == r.regs[i]) {
                return Some(format!(
                    "closure register {} = {:#x}, closure is at {:#x}",
                    arch::REG_NAMES[i],
                    g.regs[i],
                    closure
                ));
            }
        } else if scratch >> i & 1 == 0 && g.regs[i] != r.regs[i] {
            return Some(format!(
                "register {}: in place {:#x}, relocated {:#x}",
                arch::REG_NAMES[i],
                r.regs[i],
                g.regs[i]
            ));
        }
    }
    if g.flags != r.flags {
        return Some(format!("flags: in place {:#x}, relocated {:#x}", r.flags, g.flags));
    }
    if g.vec != r.vec {
        return Some("vector registers differ".into());
    }
    if g.stack != r.stack {
        // call-next leaves a return address in dead stack space, which a later stack allocation
        // exposes as uninitialised memory: code addresses there are not part of the behaviour
        let tpl = arena(TPL_OFF)..arena(TPL_OFF) + 0x200;
        let word = |b: &[u8]| usize::from_ne_bytes(b.try_into().unwrap());
        let n = size_of::<usize>();
        let aligned = g.stack.len() == r.stack.len() && g.stack.len() % n == 0;
        let same = aligned
            && arch::NO_RED_ZONE
            && g.stack.chunks(n).zip(r.stack.chunks(n)).rev().zip(init.rchunks(n)).all(
                |((g, r), i)| g == r || (g == i && tpl.contains(&word(r))),
            );
        if !same {
            return Some("stack contents differ".into());
        }
    }
    if g.data != r.data {
        return Some("data memory differs".into());
    }
    None
}

// ---------------------------------------------------------------- tail extraction

pub const START_MARK: [u8; 16] = *b"\x4d\x43\x54\x41\x49\x4c\x53\x54\x4d\x43\x54\x41\x49\x4c\x53\x54";
pub const END_MARK: [u8; 16] = *b"\x4d\x43\x54\x41\x49\x4c\x45\x4e\x4d\x43\x54\x41\x49\x4c\x45\x4e";

/// Bytes of the closure-fetch block inside a function compiled with `_thunk_asm!`.
pub unsafe fn extract_tail(f: usize, pad: usize) -> Vec<u8> {
    let p = f as *const u8;
    let find = |from: usize, mark: &[u8; 16]| -> usize {
        for i in from..from + 4096 {
            if core::slice::from_raw_parts(p.add(i), 16) == mark {
                return i;
            }
        }
        println!("ENGINE marker not found");
        std::process::exit(4);
    };
    let s = find(0, &START_MARK) + 16 + pad;
    let e = find(s, &END_MARK);
    core::slice::from_raw_parts(p.add(s), e - s).to_vec()
}

/// Parse a `[len][bytes]` stream emitted by `asm_stream!`.
pub unsafe fn parse_stream(mut p: *const u8, n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for _ in 0..n {
        let l = *p as usize;
        v.push(core::slice::from_raw_parts(p.add(1), l).to_vec());
        p = p.add(1 + l);
    }
    v
}

/// Determine which registers the closure-fetch block itself changes: build a bare function whose
/// prologue is empty and run it.  The closure address must appear in exactly one register.
pub fn calibrate_one(ex: &mut Explorer, var: usize, offs: &[usize]) -> (usize, u32) {
    let mut found: Option<(usize, u32)> = None;
    for &off in offs {
        let start = arena(TPL_OFF) + off;
        let mut bytes = arch::tail(start, var).to_vec();
        bytes.extend_from_slice(&arch::branch_to(start + bytes.len(), mc_collect as usize));
        unsafe {
            *(&raw mut CASE_TEXT) = format!("{} empty prologue off={off} tail={var}", arch::NAME);
            core::ptr::copy_nonoverlapping(bytes.as_ptr(), start as *mut u8, bytes.len());
            arch::flush(start as *const u8, bytes.len());
        }
        SLAB.skew.store(0, Relaxed);
        CASE_NO.fetch_add(1, Relaxed);
        let mkf = MKS.iter().find(|m| m.0 == off).expect("offset").1;
        let Ok(Ok(w)) = catch_unwind(AssertUnwindSafe(|| mkf())) else {
            fatal("empty prologue refused");
        };
        let closure = LAST_PROBE.load(Relaxed);
        let g = ex.run(w.bare() as usize, 0);
        if g.res != 0 {
            fatal("relocated empty prologue faulted");
        }
        let init = unsafe { (*(&raw const MC)).in_regs };
        let (mut cl, mut scratch) = (usize::MAX, arch::ALWAYS_SCRATCH);
        for i in 0..arch::NREGS {
            if scratch >> i & 1 == 1 {
                continue;
            }
            if g.regs[i] == closure {
                cl = i;
            } else if g.regs[i] != init[i] {
                scratch |= 1 << i;
            }
        }
        if cl == usize::MAX {
            fatal("no register holds the closure address after an empty prologue");
        }
        match found {
            None => found = Some((cl, scratch)),
            Some(f) if f == (cl, scratch) => (),
            Some(_) => {
                println!("ENGINE closure-fetch block uses different registers at different addresses");
                std::process::exit(4);
            }
        }
        drop(w);
    }
    found.unwrap()
}
