//! Shared runtime of the call explorers: observations, argument classes, executable memory.
#![allow(dead_code, static_mut_refs)]

use std::collections::HashSet;

use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

// ---------------------------------------------------------------- executable memory

const SLOT: usize = 4096;
const SLOTS: usize = 256;

/// Hands out fixed-size slots of one RWX mapping.
pub struct Slab;
pub static SLAB: Slab = Slab;
static mut BASE: *mut u8 = std::ptr::null_mut();
static mut USED: [bool; SLOTS] = [false; SLOTS];
static mut NEXT: usize = 0;

/// Number of blocks not yet given back.
pub fn live_blocks() -> usize {
    unsafe { USED.iter().filter(|u| **u).count() }
}
/// Forgets all blocks but the first ones ever given out.
pub fn reset_blocks_but(n: usize) {
    unsafe {
        for (i, u) in USED.iter_mut().enumerate() {
            *u = i < n;
        }
    }
}
pub fn reset_blocks() {
    unsafe { USED = [false; SLOTS] }
}

impl JitAlloc for Slab {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        unsafe {
            if BASE.is_null() {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    SLOT * SLOTS,
                    libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                if p == libc::MAP_FAILED {
                    engine("mmap failed");
                }
                BASE = p.cast();
            }
            if size > SLOT {
                engine("block too large");
            }
            for _ in 0..SLOTS {
                let i = NEXT % SLOTS;
                NEXT += 1;
                if !USED[i] {
                    USED[i] = true;
                    let p = BASE.add(i * SLOT);
                    return Ok((p, p));
                }
            }
            engine("out of slots")
        }
    }

    unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
        let off = (rx_ptr as usize).wrapping_sub(BASE as usize);
        if off >= SLOT * SLOTS || off % SLOT != 0 || !USED[off / SLOT] {
            return Err(JitAllocError);
        }
        USED[off / SLOT] = false;
        // a trap on every architecture of interest
        let trap: u8 = if cfg!(any(target_arch = "x86", target_arch = "x86_64")) { 0xCC } else { 0 };
        std::ptr::write_bytes(BASE.add(off), trap, SLOT);
        Ok(())
    }

    unsafe fn protect_jit_memory(&self, _ptr: *const u8, _size: usize, _access: ProtectJitAccess) {}

    unsafe fn flush_instruction_cache(&self, rx_ptr: *const u8, size: usize) {
        extern "C" {
            fn __clear_cache(beg: *const u8, end: *const u8);
        }
        let _ = (rx_ptr, size);
        #[cfg(not(any(target_arch = "x86", target_arch = "x86_64", target_arch = "arm")))]
        __clear_cache(rx_ptr, rx_ptr.add(size));
        #[cfg(target_arch = "arm")]
        libc::syscall(0x0f0002, rx_ptr, rx_ptr.add(size), 0);
    }
}
closure_ffi::global_jit_alloc!(SLAB);

// ---------------------------------------------------------------- argument classes

/// A value that can be made from a seed and written down again.
pub trait Val {
    fn mk(s: u64) -> Self;
    fn put(&self);
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
/// The value of argument `i` of the call with seed `s`.
#[inline(always)]
pub fn arg<T: Val>(s: u64, i: u64) -> T {
    T::mk(mix(s ^ mix(i + 1)))
}

macro_rules! int_val {
    ($($t:ty),*) => {$(
        impl Val for $t {
            #[inline(always)]
            fn mk(s: u64) -> Self { s as $t }
            #[inline(always)]
            fn put(&self) { put(&self.to_ne_bytes()) }
        }
    )*};
}
int_val!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
macro_rules! wide_val {
    ($($t:ty),*) => {$(
        impl Val for $t {
            #[inline(always)]
            fn mk(s: u64) -> Self { (((s as u128) << 64) | mix(s) as u128) as $t }
            #[inline(always)]
            fn put(&self) { put(&self.to_ne_bytes()) }
        }
    )*};
}
wide_val!(u128, i128);
impl Val for f32 {
    // any finite pattern; signalling NaNs are not preserved by x87 returns of the platform itself
    #[inline(always)]
    fn mk(s: u64) -> Self {
        f32::from_bits((s as u32) & 0xBFFF_FFFF)
    }
    #[inline(always)]
    fn put(&self) {
        put(&self.to_bits().to_ne_bytes())
    }
}
impl Val for f64 {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        f64::from_bits(s & 0xBFFF_FFFF_FFFF_FFFF)
    }
    #[inline(always)]
    fn put(&self) {
        put(&self.to_bits().to_ne_bytes())
    }
}
impl Val for bool {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        s & 1 != 0
    }
    #[inline(always)]
    fn put(&self) {
        // read as stored: anything but 0 and 1 is a corrupted argument
        put(&[unsafe { *(self as *const bool as *const u8) }])
    }
}
impl Val for char {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        unsafe { char::from_u32_unchecked((s % 0xD800) as u32) }
    }
    #[inline(always)]
    fn put(&self) {
        put(&(*self as u32).to_ne_bytes())
    }
}
impl Val for () {
    #[inline(always)]
    fn mk(_: u64) -> Self {}
    #[inline(always)]
    fn put(&self) {
        put(b"()")
    }
}
impl Val for *const u8 {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        s as usize as *const u8
    }
    #[inline(always)]
    fn put(&self) {
        put(&(*self as usize).to_ne_bytes())
    }
}
pub type OptRef = Option<std::ptr::NonNull<u32>>;
impl Val for OptRef {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        std::ptr::NonNull::new(if s & 3 == 0 { std::ptr::null_mut() } else { s as usize as *mut u32 })
    }
    #[inline(always)]
    fn put(&self) {
        put(&self.map_or(0, |p| p.as_ptr() as usize).to_ne_bytes())
    }
}
pub type Slice = &'static [u8];
impl Val for Slice {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        static TEXT: [u8; 256] = {
            let mut t = [0; 256];
            let mut i = 0;
            while i < 256 {
                t[i] = i as u8;
                i += 1;
            }
            t
        };
        let a = (s % 200) as usize;
        &TEXT[a..a + ((s >> 32) % 40) as usize]
    }
    #[inline(always)]
    fn put(&self) {
        put(&(self.as_ptr() as usize).to_ne_bytes());
        put(&self.len().to_ne_bytes())
    }
}

macro_rules! struct_val {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* }) => {
        $(#[$m])*
        #[derive(Clone, Copy)]
        pub struct $n { $(pub $f: $t),* }
        impl Val for $n {
            #[inline(always)]
            fn mk(s: u64) -> Self {
                let mut _i = s;
                $(_i = mix(_i); let $f = <$t as Val>::mk(_i);)*
                $n { $($f),* }
            }
            #[inline(always)]
            fn put(&self) {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    put(b"misaligned");
                }
                $(self.$f.put();)*
            }
        }
    };
}
impl<T: Val + Copy, const N: usize> Val for [T; N] {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        let mut i = s;
        std::array::from_fn(|_| {
            i = mix(i);
            T::mk(i)
        })
    }
    #[inline(always)]
    fn put(&self) {
        for x in self {
            x.put()
        }
    }
}
struct_val!(#[repr(C)] S1 { a: u8 });
struct_val!(#[repr(C)] S3 { a: [u8; 3] });
struct_val!(#[repr(C)] Odd { a: u8, b: u32, c: u16 });
struct_val!(#[repr(C)] P16 { a: u64, b: u64 });
struct_val!(#[repr(C)] Mix { a: u64, b: f64 });
struct_val!(#[repr(C)] F2 { a: f32, b: f32 });
struct_val!(#[repr(C)] F4 { a: f32, b: f32, c: f32, d: f32 });
struct_val!(#[repr(C)] D3 { a: f64, b: f64, c: f64 });
struct_val!(#[repr(C)] Big { a: [u64; 5] });
struct_val!(#[repr(C, align(16))] A16 { a: u64, b: u32 });
struct_val!(#[repr(C, align(32))] A32 { a: u64, b: u8 });
struct_val!(#[repr(C)] Empty {});
struct_val!(#[repr(C)] Huge { a: [u64; 800] });
struct_val!(RustS { a: u8, b: u64, c: u16 });

#[cfg(target_arch = "x86_64")]
pub type Vec128 = std::arch::x86_64::__m128i;
#[cfg(target_arch = "x86")]
pub type Vec128 = std::arch::x86::__m128i;
#[cfg(target_arch = "aarch64")]
pub type Vec128 = std::arch::aarch64::uint8x16_t;
#[cfg(target_arch = "arm")]
pub type Vec128 = A16;
#[cfg(not(target_arch = "arm"))]
impl Val for Vec128 {
    #[inline(always)]
    fn mk(s: u64) -> Self {
        unsafe { std::mem::transmute::<[u64; 2], Vec128>([s, mix(s)]) }
    }
    #[inline(always)]
    fn put(&self) {
        let x: [u64; 2] = unsafe { std::mem::transmute_copy(self) };
        x.put()
    }
}

// ---------------------------------------------------------------- observations

const CAPACITY: usize = 1 << 17;
pub struct Tape {
    pub len: usize,
    pub over: bool,
    pub buf: [u8; CAPACITY],
}
/// Where values are currently written down.
pub static mut TAPE: Tape = Tape { len: 0, over: false, buf: [0; CAPACITY] };
pub static mut CALLS: u32 = 0;
pub static mut ID: u64 = 0;
pub static mut RET_SEED: u64 = 0;

#[inline(never)]
pub fn put(b: &[u8]) {
    unsafe {
        if TAPE.len + b.len() > CAPACITY {
            TAPE.over = true;
            return;
        }
        TAPE.buf[TAPE.len..TAPE.len + b.len()].copy_from_slice(b);
        TAPE.len += b.len();
    }
}
pub fn take_tape() -> Vec<u8> {
    unsafe {
        let v = TAPE.buf[..TAPE.len].to_vec();
        TAPE.len = 0;
        if std::mem::take(&mut TAPE.over) {
            engine("observation too long");
        }
        v
    }
}

/// A callee announces itself.
#[inline(never)]
pub fn enter(id: u64) {
    unsafe {
        CALLS += 1;
        ID = id;
    }
}
/// The value a callee returns.
#[inline(always)]
pub fn ret<R: Val>() -> R {
    R::mk(unsafe { RET_SEED })
}

/// What a capturing closure captures.
pub struct Cap {
    a: u64,
    b: [u64; 2],
    c: u8,
}
impl Cap {
    pub fn new(id: u64) -> Self {
        Cap { a: id, b: [mix(id), !id], c: id as u8 ^ 0x5A }
    }
    #[inline(never)]
    pub fn enter(&self) {
        let ok = self.b == [mix(self.a), !self.a] && self.c == self.a as u8 ^ 0x5A;
        enter(if ok { self.a } else { u64::MAX })
    }
}

#[inline(always)]
pub fn sp() -> usize {
    let s: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov {}, rsp", out(reg) s);
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov {}, esp", out(reg) s);
        #[cfg(any(target_arch = "arm", target_arch = "aarch64"))]
        std::arch::asm!("mov {}, sp", out(reg) s);
    }
    s
}

/// Whether the action ends normally, tried out in a child process.
pub fn survives(f: impl FnOnce()) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGABRT] {
                libc::signal(s, libc::SIG_DFL);
            }
            f();
            libc::_exit(0)
        }
        let mut status = 0;
        if pid < 0 || libc::waitpid(pid, &mut status, 0) != pid {
            engine("fork failed");
        }
        status == 0
    }
}

// ---------------------------------------------------------------- reporting

#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub signatures: u64,
    pub constructions: u64,
    pub calls: u64,
    pub panics: u64,
    pub histories: u64,
    pub excluded: u64,
    pub refused: u64,
    pub samples: Vec<String>,
}
pub struct X {
    pub st: Stats,
    shard: u64,
    shards: u64,
    next_id: u64,
    only: Option<String>,
    /// calling case number
    n: u64,
}
static mut CASE: String = String::new();
static mut THE: *mut X = std::ptr::null_mut();

pub fn set_case(s: String) {
    unsafe {
        CASE = s;
        // far more than any case takes
        libc::alarm(100);
    }
}
pub fn case() -> &'static str {
    unsafe { &*(&raw const CASE) }
}
pub fn engine(what: &str) -> ! {
    println!("ENGINE {what} :: {}", case());
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(4) }
}
pub fn viol(what: &str) -> ! {
    println!("VIOL {what} :: {}", case());
    unsafe { (*THE).result() };
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}
unsafe extern "C" fn on_signal(sig: libc::c_int) {
    let write = |b: &[u8]| {
        libc::write(1, b.as_ptr() as _, b.len());
    };
    write(b"VIOL execution ends with signal ");
    write(&[b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8]);
    write(b" :: ");
    write(case().as_bytes());
    write(b"\n");
    libc::_exit(3)
}

impl X {
    pub fn start() -> &'static mut X {
        let args: Vec<String> = std::env::args().collect();
        let val = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
        let (k, n) = match val("--shard") {
            Some(s) => {
                let (a, b) = s.split_once('/').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            }
            None => (0, 1),
        };
        let x = Box::leak(Box::new(X {
            st: Stats::default(),
            shard: k,
            shards: n,
            next_id: 1,
            only: val("--only"),
            n: 0,
        }));
        unsafe {
            THE = x;
            std::panic::set_hook(Box::new(|_| {}));
            let stack = libc::mmap(
                std::ptr::null_mut(),
                1 << 17,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            let mut ss: libc::stack_t = std::mem::zeroed();
            ss.ss_sp = stack;
            ss.ss_size = 1 << 17;
            libc::sigaltstack(&ss, std::ptr::null_mut());
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_signal as *const () as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
        x
    }
    /// Whether the case with this label belongs to this part of the exploration.
    pub fn mine(&mut self, label: &str) -> bool {
        self.n += 1;
        if let Some(o) = &self.only {
            return label.contains(o.as_str());
        }
        self.n % self.shards == self.shard
    }
    pub fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    pub fn state(&mut self, s: &str) {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        if self.st.states.insert(h) && self.st.samples.len() < 3 && h % 7 == 0 {
            self.st.samples.push(s.to_string());
        }
    }
    /// Reports a refused construction and goes on.
    pub fn refused(&mut self, what: &str, how: &str) {
        self.st.refused += 1;
        println!("VIOL {what} :: {} {how}", case());
    }
    pub fn result(&self) {
        let st = &self.st;
        println!(
            "RESULT {{\"state_hashes\":[{}],\"signatures\":{},\"constructions\":{},\"calls\":{},\"panics\":{},\"histories\":{},\"excluded\":{},\"refused\":{},\"samples\":[{}]}}",
            st.states.iter().map(|h| format!("\"{h:x}\"")).collect::<Vec<_>>().join(","),
            st.signatures,
            st.constructions,
            st.calls,
            st.panics,
            st.histories,
            st.excluded,
            st.refused,
            st.samples.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(",")
        );
    }
    pub fn finish(&self) -> ! {
        self.result();
        use std::io::Write as _;
        let _ = std::io::stdout().flush();
        std::process::exit((self.st.refused != 0) as i32)
    }
}
