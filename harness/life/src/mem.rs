//! Instrumented executable-memory allocators. They own every decision an allocator can take
//! (placement, reuse order, failure) and record every interaction.

use crate::report::{engine, viol};
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

pub const NMEM: usize = 3;
pub const NSLOT: usize = 12;
const PAGE: usize = 4096;

/// `Slots`: blocks are carved out of two permanently mapped views, as fast as possible.
/// `Pages`: every block sits alone between guard pages, and access is what was announced.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Slots,
    Pages,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Lifo,
    Fifo,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    Err,
    Panic,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Alloc { mem: usize, slot: usize, size: usize },
    AllocFailed { mem: usize, size: usize },
    Release { mem: usize, slot: usize },
    ProtectRw { mem: usize, lo: usize, hi: usize },
    ProtectRx { mem: usize, lo: usize, hi: usize },
    Flush { mem: usize, lo: usize, hi: usize },
    HandleDrop { handle: usize },
}

#[derive(Clone, Copy, Default)]
pub struct Slot {
    pub live: bool,
    pub rx: usize,
    pub rw: usize,
    pub size: usize,
    // Pages mode
    pub rw_range: Option<(usize, usize)>,
    pub rx_range: Option<(usize, usize)>,
    pub flush_range: Option<(usize, usize)>,
    pub sealed_sum: u64,
}

pub struct State {
    pub base_rx: usize,
    pub base_rw: usize,
    pub slots: [Slot; NSLOT],
    free: [usize; NSLOT],
    nfree: usize,
    pub skew: usize,
    pub right_aligned: bool,
    pub fill: u8,
    pub bad: Option<String>,
}

pub struct Mem(pub usize);
pub static MEMS: [Mem; NMEM] = [Mem(0), Mem(1), Mem(2)];

pub struct Shared {
    pub st: Vec<State>,
    pub mode: Mode,
    pub policy: Policy,
    pub log: Vec<Ev>,
    /// allocator calls since `calls` was reset, and the one that fails
    pub calls: usize,
    pub fault: Option<(usize, Fault)>,
    pub fault_hit: bool,
}
static mut SHARED: *mut Shared = core::ptr::null_mut();
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

fn slot_stride(mode: Mode) -> usize {
    match mode {
        Mode::Slots => 1024,
        Mode::Pages => 2 * PAGE,
    }
}

/// One view only where the emulator cannot execute a second view of the same memory.
pub const DUAL: bool = !cfg!(target_arch = "arm");

pub fn init(mode: Mode, policy: Policy) {
    let total = NSLOT * slot_stride(mode) + PAGE;
    let total = (total + PAGE - 1) & !(PAGE - 1);
    let mut st = vec![];
    unsafe {
        for ix in 0..NMEM {
            let (rw, rx) = if DUAL {
                let fd = libc::syscall(libc::SYS_memfd_create, c"mc-life".as_ptr(), 0) as i32;
                if fd < 0 || libc::ftruncate(fd, total as _) != 0 {
                    engine("memfd");
                }
                let near = (init as *const () as usize & !0xFFFFF) - 0x400_0000;
                let mut hint = if ix == 2 { near } else { 0 };
                let mut map = |prot| {
                    let p = libc::mmap(hint as _, total, prot, libc::MAP_SHARED, fd, 0);
                    hint += if hint == 0 { 0 } else { 0x10_0000 };
                    if p == libc::MAP_FAILED {
                        engine("mmap");
                    }
                    p as usize
                };
                let rw_prot = libc::PROT_READ | libc::PROT_WRITE;
                let rx_prot = libc::PROT_READ | libc::PROT_EXEC;
                // both relative orders of the two views
                if ix % 2 == 0 {
                    let a = map(rw_prot);
                    (a, map(rx_prot))
                } else {
                    let a = map(rx_prot);
                    (map(rw_prot), a)
                }
            } else {
                let p = libc::mmap(
                    core::ptr::null_mut(),
                    total,
                    libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                if p == libc::MAP_FAILED {
                    engine("mmap");
                }
                (p as usize, p as usize)
            };
            st.push(State {
                base_rx: rx,
                base_rw: rw,
                slots: [Slot::default(); NSLOT],
                free: [0; NSLOT],
                nfree: 0,
                skew: 0,
                right_aligned: false,
                fill: TRAP,
                bad: None,
            });
        }
        SHARED = Box::into_raw(Box::new(Shared {
            st,
            mode,
            policy,
            log: Vec::with_capacity(4096),
            calls: 0,
            fault: None,
            fault_hit: false,
        }));
    }
    if mode == Mode::Pages {
        for m in &sh().st {
            for s in 0..NSLOT {
                // the page after each block is out of reach in both views
                prot(m.base_rw + (2 * s + 1) * PAGE, libc::PROT_NONE);
                if DUAL {
                    prot(m.base_rx + (2 * s + 1) * PAGE, libc::PROT_NONE);
                }
            }
        }
    }
    if mode == Mode::Slots {
        for m in &sh().st {
            for s in 0..NSLOT {
                scribble(m.base_rw, s);
            }
        }
    }
    reset();
}

fn prot(page: usize, p: i32) {
    if unsafe { libc::mprotect(page as _, PAGE, p) } != 0 {
        engine("mprotect");
    }
}

/// The byte pattern of free memory: traps when executed.
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
pub const TRAP: u8 = 0xCC;
#[cfg(any(target_arch = "arm", target_arch = "aarch64"))]
pub const TRAP: u8 = 0x00;

pub fn reset() {
    let s = sh();
    s.log.clear();
    s.calls = 0;
    s.fault = None;
    s.fault_hit = false;
    for m in &mut s.st {
        for i in 0..NSLOT {
            if m.slots[i].live && s.mode == Mode::Slots {
                scribble(m.base_rw, i);
            }
            m.slots[i] = Slot::default();
            m.free[i] = NSLOT - 1 - i;
        }
        m.nfree = NSLOT;
        m.bad = None;
    }
}

fn scribble(base_rw: usize, slot: usize) {
    unsafe {
        let p = (base_rw + slot * slot_stride(Mode::Slots)) as *mut u8;
        core::ptr::write_bytes(p, TRAP, slot_stride(Mode::Slots));
        if !DUAL {
            flush(p, slot_stride(Mode::Slots));
        }
    }
}

pub fn flush(p: *const u8, n: usize) {
    let _ = (p, n);
    #[cfg(target_arch = "aarch64")]
    unsafe {
        let mut a = p as usize & !3;
        while a < p as usize + n {
            core::arch::asm!("dc cvau, {0}", "ic ivau, {0}", in(reg) a);
            a += 4;
        }
        core::arch::asm!("dsb ish", "isb");
    }
    #[cfg(target_arch = "arm")]
    unsafe {
        libc::syscall(0x0f0002, p, p.add(n), 0);
    }
}

pub fn content(rw: usize, n: usize) -> &'static [u8] {
    unsafe { core::slice::from_raw_parts(rw as *const u8, n) }
}
fn sum(rw: usize, n: usize) -> u64 {
    content(rw, n).iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

impl Mem {
    pub fn state(&self) -> &'static mut State {
        &mut sh().st[self.0]
    }
    fn tick(&self, can_fail: bool) -> Option<Fault> {
        let s = sh();
        let n = s.calls;
        s.calls += 1;
        match s.fault {
            Some((k, f)) if k == n && (can_fail || f == Fault::Panic) => {
                s.fault_hit = true;
                Some(f)
            }
            _ => None,
        }
    }
    fn bad(&self, what: String) {
        let st = self.state();
        if st.bad.is_none() {
            st.bad = Some(what);
        }
    }
    /// slot whose executable (or writable) view contains the address
    pub fn find(&self, p: usize) -> Option<(usize, usize)> {
        let st = self.state();
        for (i, s) in st.slots.iter().enumerate() {
            if s.live {
                if (s.rx..s.rx + s.size).contains(&p) {
                    return Some((i, p - s.rx));
                }
                if (s.rw..s.rw + s.size).contains(&p) {
                    return Some((i, p - s.rw));
                }
            }
        }
        None
    }
}

impl JitAlloc for Mem {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let s = sh();
        match self.tick(true) {
            Some(Fault::Err) => {
                s.log.push(Ev::AllocFailed { mem: self.0, size });
                return Err(JitAllocError);
            }
            Some(Fault::Panic) => {
                s.log.push(Ev::AllocFailed { mem: self.0, size });
                panic!("injected allocator panic");
            }
            None => {}
        }
        let st = self.state();
        if st.nfree == 0 {
            engine("allocator exhausted");
        }
        let slot = match s.policy {
            Policy::Lifo => {
                st.nfree -= 1;
                st.free[st.nfree]
            }
            Policy::Fifo => {
                let x = st.free[0];
                st.free.copy_within(1..st.nfree, 0);
                st.nfree -= 1;
                x
            }
        };
        let stride = slot_stride(s.mode);
        let room = if s.mode == Mode::Pages { PAGE } else { stride };
        if size == 0 || size + 64 > room {
            engine(&format!("allocation of {size} bytes does not fit the explorer's slots"));
        }
        let off = slot * stride + if st.right_aligned { room - size } else { 16 + st.skew };
        if s.mode == Mode::Pages {
            let page = slot * stride;
            prot(st.base_rw + page, libc::PROT_READ | libc::PROT_WRITE);
            unsafe { core::ptr::write_bytes((st.base_rw + page) as *mut u8, st.fill, PAGE) };
            if DUAL {
                prot(st.base_rx + page, libc::PROT_READ);
            }
            prot(st.base_rw + page, libc::PROT_READ);
        }
        st.slots[slot] = Slot {
            live: true,
            rx: st.base_rx + off,
            rw: st.base_rw + off,
            size,
            ..Default::default()
        };
        s.log.push(Ev::Alloc { mem: self.0, slot, size });
        Ok(((st.base_rx + off) as *const u8, (st.base_rw + off) as *mut u8))
    }

    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        let s = sh();
        let st = self.state();
        let hit = st.slots.iter().position(|x| x.live && x.rx == rx as usize);
        let Some(slot) = hit else {
            self.bad(format!("release({:#x}) of something that is not a live block of allocator {}", rx as usize, self.0));
            return Err(JitAllocError);
        };
        st.slots[slot].live = false;
        if s.mode == Mode::Slots {
            scribble(st.base_rw, slot);
        } else if DUAL {
            prot(st.base_rx + slot * slot_stride(s.mode), libc::PROT_NONE);
            prot(st.base_rw + slot * slot_stride(s.mode), libc::PROT_NONE);
        } else {
            prot(st.base_rw + slot * slot_stride(s.mode), libc::PROT_NONE);
        }
        st.free[st.nfree] = slot;
        st.nfree += 1;
        s.log.push(Ev::Release { mem: self.0, slot });
        match self.tick(true) {
            Some(Fault::Err) => Err(JitAllocError),
            Some(Fault::Panic) => panic!("injected allocator panic"),
            None => Ok(()),
        }
    }

    unsafe fn protect_jit_memory(&self, ptr: *const u8, size: usize, access: ProtectJitAccess) {
        let s = sh();
        let f = self.tick(false);
        let p = ptr as usize;
        s.log.push(match access {
            ProtectJitAccess::ReadWrite => Ev::ProtectRw { mem: self.0, lo: p, hi: p + size },
            ProtectJitAccess::ReadExecute => Ev::ProtectRx { mem: self.0, lo: p, hi: p + size },
        });
        match self.find(p) {
            Some((i, off)) if off + size <= self.state().slots[i].size => {
                if s.mode == Mode::Pages {
                    let st = self.state();
                    let page = i * slot_stride(s.mode);
                    let sl = &mut st.slots[i];
                    match access {
                        ProtectJitAccess::ReadWrite => {
                            if DUAL {
                                prot(st.base_rx + page, libc::PROT_READ);
                            }
                            prot(st.base_rw + page, libc::PROT_READ | libc::PROT_WRITE);
                            sl.rw_range = Some((off, off + size));
                            sl.rx_range = None;
                            sl.flush_range = None;
                        }
                        ProtectJitAccess::ReadExecute => {
                            if DUAL {
                                prot(st.base_rw + page, libc::PROT_READ);
                            }
                            prot(st.base_rx + page, libc::PROT_READ | libc::PROT_EXEC);
                            sl.rx_range = Some((off, off + size));
                            sl.sealed_sum = sum(st.base_rw + page, PAGE);
                        }
                    }
                }
            }
            _ => self.bad(format!("protect_jit_memory({p:#x}, {size}, {access:?}) is not inside a live block of allocator {}", self.0)),
        }
        if f.is_some() {
            panic!("injected allocator panic");
        }
    }

    unsafe fn flush_instruction_cache(&self, rx: *const u8, size: usize) {
        let s = sh();
        let f = self.tick(false);
        let p = rx as usize;
        s.log.push(Ev::Flush { mem: self.0, lo: p, hi: p + size });
        match self.find(p) {
            Some((i, off)) if off + size <= self.state().slots[i].size && self.state().slots[i].rx + off == p => {
                self.state().slots[i].flush_range = Some((off, off + size));
            }
            _ => self.bad(format!("flush_instruction_cache({p:#x}, {size}) is not inside the executable view of a live block of allocator {}", self.0)),
        }
        if f.is_some() {
            panic!("injected allocator panic");
        }
        flush(rx, size);
    }
}

/// Pages mode: is the block of this entry point sealed the way the property demands?
pub fn check_sealed(mem: usize, slot: usize, entry: usize) -> Result<(), String> {
    let st = &sh().st[mem];
    let sl = &st.slots[slot];
    let page = slot * slot_stride(Mode::Pages);
    let bytes = content(st.base_rw + page, PAGE);
    let start = sl.rw - (st.base_rw + page);
    let (Some(rw), Some(rx), Some(fl)) = (sl.rw_range, sl.rx_range, sl.flush_range) else {
        return Err(format!(
            "protocol incomplete: write announced {:?}, execute announced {:?}, flushed {:?}",
            sl.rw_range, sl.rx_range, sl.flush_range
        ));
    };
    if sum(st.base_rw + page, PAGE) != sl.sealed_sum {
        return Err("code changed after execute access was announced".into());
    }
    for (i, b) in bytes.iter().enumerate() {
        if *b == st.fill {
            continue;
        }
        if i < start || i >= start + sl.size {
            return Err(format!("wrote byte {} of a {}-byte block", i as isize - start as isize, sl.size));
        }
        let o = i - start;
        for (name, r) in [("write access", rw), ("execute access", rx), ("flushed", fl)] {
            if o < r.0 || o >= r.1 {
                return Err(format!("byte {o} was emitted outside the range {r:?} announced as {name}"));
            }
        }
    }
    let e = entry & !1;
    if e < sl.rx + fl.0 || e >= sl.rx + fl.1 {
        return Err(format!("entry point {entry:#x} is outside the flushed part of the executable view"));
    }
    if let Some(last) = sh().log.last() {
        if !matches!(last, Ev::Flush { .. }) {
            return Err(format!("last interaction is {last:?}, not the flush"));
        }
    }
    Ok(())
}

/// Slots mode: free memory and the gaps between blocks must be untouched.
pub fn check_canaries() {
    let s = sh();
    for (ix, st) in s.st.iter().enumerate() {
        for i in 0..NSLOT {
            let stride = slot_stride(Mode::Slots);
            let bytes = content(st.base_rw + i * stride, stride);
            let sl = &st.slots[i];
            let (lo, hi) = if sl.live {
                let o = sl.rw - (st.base_rw + i * stride);
                (o, o + sl.size)
            } else {
                (0, 0)
            };
            if bytes[..lo].iter().chain(&bytes[hi..]).any(|b| *b != TRAP) {
                viol("C06", &format!("executable memory outside allocated blocks was written (allocator {ix}, slot {i})"));
            }
        }
    }
}
