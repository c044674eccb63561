//! Instrumented closures, the reference model, and the executor that drives the real library and
//! compares it with the model after every step.

use crate::heap::{self, tracked, untracked};
use crate::mem::{self, sh, Ev, Fault, MEMS};
use crate::report::{engine, stats, viol};
use crate::wrap::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub const MAXI: usize = 40;
pub const NS: usize = 3;
pub const NL: usize = 2;

// ---------------------------------------------------------------- actions and model

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Inner {
    New(u8),
    Call(u8),
    Drop(u8),
    Leak(u8),
    CallL(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    New(u8),
    NewFail(u8, u8, Fault),
    Call(u8),
    CallT(u8),
    Move(u8),
    Untyped(u8),
    Retyped(u8),
    Up(u8, u8),
    Into(u8, u8),
    Leak(u8),
    CallL(u8),
    Drop(u8),
    DropT(u8),
    DropPanic(u8),
    CallW(u8, Inner),
    CallLW(u8, Inner),
    DropW(u8, Inner),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Status {
    Live,
    Dropped,
    Leaked,
    Consumed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct SlotM {
    pub recipe: u8,
    pub form: u8,
    pub typed: bool,
    pub inst: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct LeakM {
    pub recipe: u8,
    pub inst: u8,
    pub used: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct M {
    pub slots: [Option<SlotM>; NS],
    pub leaked: [Option<LeakM>; NL],
    pub insts: Vec<(u8, Status)>,
}
impl M {
    pub fn new() -> M {
        M { slots: [None; NS], leaked: [None; NL], insts: Vec::with_capacity(MAXI) }
    }
    pub fn free_slot(&self, n: usize) -> Option<usize> {
        (0..n).find(|i| self.slots[*i].is_none())
    }
    pub fn free_leak(&self) -> Option<usize> {
        (0..NL).find(|i| self.leaked[*i].is_none())
    }
    /// Order-independent fingerprint of what the model distinguishes.
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u64| h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        for s in &self.slots {
            put(match s {
                None => 1,
                Some(s) => 2 + (s.recipe as u64) * 64 + (s.form as u64) * 4 + (s.typed as u64) * 2,
            });
        }
        for l in &self.leaked {
            put(match l {
                None => 1,
                Some(l) => 2 + (l.recipe as u64) * 4 + (l.used as u64),
            });
        }
        h
    }
    // the effect of each elementary action; `sp` is only needed for the recipes
    pub fn new_inst(&mut self, sp: &Space, r: u8) -> usize {
        let i = self.free_slot(sp.slots).unwrap();
        let inst = self.insts.len() as u8;
        self.insts.push((r, Status::Live));
        self.slots[i] = Some(SlotM { recipe: r, form: sp.recipes[r as usize].row.form, typed: true, inst });
        i
    }
    pub fn drop_slot(&mut self, i: u8) {
        let s = self.slots[i as usize].take().unwrap();
        self.insts[s.inst as usize].1 = Status::Dropped;
    }
    pub fn leak_slot(&mut self, i: u8) -> usize {
        let s = self.slots[i as usize].take().unwrap();
        self.insts[s.inst as usize].1 = Status::Leaked;
        let l = self.free_leak().unwrap();
        self.leaked[l] = Some(LeakM { recipe: s.recipe, inst: s.inst, used: false });
        l
    }
    pub fn call_leaked(&mut self, sp: &Space, j: u8) {
        let l = self.leaked[j as usize].as_mut().unwrap();
        if sp.recipes[l.recipe as usize].row.kind == Kind::Once {
            l.used = true;
            self.insts[l.inst as usize].1 = Status::Consumed;
        }
    }
    pub fn inner(&mut self, sp: &Space, i: Inner) {
        match i {
            Inner::New(r) => {
                self.new_inst(sp, r);
            }
            Inner::Call(_) => {}
            Inner::Drop(j) => self.drop_slot(j),
            Inner::Leak(j) => {
                self.leak_slot(j);
            }
            Inner::CallL(j) => self.call_leaked(sp, j),
        }
    }
    /// Model-only execution, for the enumeration.
    pub fn apply(&mut self, sp: &Space, a: Act) {
        match a {
            Act::New(r) => {
                self.new_inst(sp, r);
            }
            Act::NewFail(..) | Act::Call(_) | Act::CallT(_) | Act::Move(_) => {}
            Act::Untyped(i) => self.slots[i as usize].as_mut().unwrap().typed = false,
            Act::Retyped(i) => self.slots[i as usize].as_mut().unwrap().typed = true,
            Act::Up(i, to) => self.slots[i as usize].as_mut().unwrap().form = to,
            Act::Into(i, to) => {
                let s = self.slots[i as usize].as_mut().unwrap();
                s.form = to;
                s.typed = false;
            }
            Act::Leak(i) => {
                self.leak_slot(i);
            }
            Act::CallL(j) => self.call_leaked(sp, j),
            Act::Drop(i) | Act::DropT(i) | Act::DropPanic(i) => self.drop_slot(i),
            Act::CallW(_, n) => self.inner(sp, n),
            Act::CallLW(j, n) => {
                self.call_leaked(sp, j);
                self.inner(sp, n);
            }
            Act::DropW(i, n) => {
                self.drop_slot(i);
                self.inner(sp, n);
            }
        }
    }

    fn inners(&self, sp: &Space, busy: Option<u8>, busy_leak: Option<u8>, out: &mut Vec<Inner>) {
        if self.free_slot(sp.slots).is_some() {
            for r in sp.inner_recipes.iter() {
                out.push(Inner::New(*r));
            }
        }
        for i in 0..sp.slots as u8 {
            let Some(s) = self.slots[i as usize] else { continue };
            let kind = sp.recipes[s.recipe as usize].row.kind;
            if kind == Kind::Fn || (kind == Kind::Mut && busy != Some(i)) {
                out.push(Inner::Call(i));
            }
            if busy != Some(i) {
                out.push(Inner::Drop(i));
                if sp.leaks && self.free_leak().is_some() {
                    out.push(Inner::Leak(i));
                }
            }
        }
        for j in 0..NL as u8 {
            let Some(l) = self.leaked[j as usize] else { continue };
            let kind = sp.recipes[l.recipe as usize].row.kind;
            if !l.used && (kind == Kind::Fn || busy_leak != Some(j)) {
                out.push(Inner::CallL(j));
            }
        }
    }

    pub fn actions(&self, sp: &Space, out: &mut Vec<Act>) {
        out.clear();
        if self.free_slot(sp.slots).is_some() {
            for r in 0..sp.recipes.len() as u8 {
                if sp.recipes[r as usize].row.class == Class::Refused {
                    out.push(Act::NewFail(r, 255, Fault::Panic));
                    continue;
                }
                out.push(Act::New(r));
                for k in 0..sp.fail_points {
                    out.push(Act::NewFail(r, k, Fault::Panic));
                }
                if sp.fail_points > 0 {
                    out.push(Act::NewFail(r, 0, Fault::Err));
                }
            }
        }
        let mut inn = vec![];
        for i in 0..sp.slots as u8 {
            let Some(s) = self.slots[i as usize] else { continue };
            let r = &sp.recipes[s.recipe as usize];
            let sendable = (s.form == 1 || s.form == 3) && r.row.handle.sendable();
            if r.row.kind != Kind::Once {
                if sp.calls {
                    out.push(Act::Call(i));
                }
                if sp.threads && sendable && (r.row.kind == Kind::Mut || s.form == 3) {
                    out.push(Act::CallT(i));
                }
                if sp.nested_calls {
                    inn.clear();
                    self.inners(sp, Some(i), None, &mut inn);
                    out.extend(inn.iter().map(|n| Act::CallW(i, *n)));
                }
            }
            if sp.conversions {
                out.push(Act::Move(i));
                if s.typed {
                    out.push(Act::Untyped(i));
                    for to in upcasts(s.form) {
                        out.push(Act::Into(i, *to));
                    }
                } else {
                    out.push(Act::Retyped(i));
                }
                for to in upcasts(s.form) {
                    out.push(Act::Up(i, *to));
                }
            }
            if sp.leaks && self.free_leak().is_some() {
                out.push(Act::Leak(i));
            }
            out.push(Act::Drop(i));
            if sp.threads && sendable {
                out.push(Act::DropT(i));
            }
            if sp.drop_panics && r.row.class.counted() {
                out.push(Act::DropPanic(i));
            }
            if sp.nested_drops && r.row.class.counted() {
                let mut after = self.clone();
                after.drop_slot(i);
                inn.clear();
                after.inners(sp, None, None, &mut inn);
                out.extend(inn.iter().map(|n| Act::DropW(i, *n)));
            }
        }
        for j in 0..NL as u8 {
            let Some(l) = self.leaked[j as usize] else { continue };
            if l.used {
                continue;
            }
            out.push(Act::CallL(j));
            if sp.nested_calls {
                let mut after = self.clone();
                after.call_leaked(sp, j);
                inn.clear();
                after.inners(sp, None, Some(j), &mut inn);
                out.extend(inn.iter().map(|n| Act::CallLW(j, *n)));
            }
        }
    }
}

#[derive(Clone)]
pub struct Space {
    pub name: &'static str,
    /// tells the states of different spaces apart
    pub id: u64,
    pub recipes: Vec<Recipe>,
    pub inner_recipes: Vec<u8>,
    pub slots: usize,
    pub depth: usize,
    pub calls: bool,
    pub conversions: bool,
    pub leaks: bool,
    pub threads: bool,
    pub drop_panics: bool,
    pub nested_calls: bool,
    pub nested_drops: bool,
    pub fail_points: u8,
    pub ping: bool,
    pub policy: mem::Policy,
    pub skews: [usize; mem::NMEM],
}
impl Space {
    pub fn base(name: &'static str, recipes: Vec<Recipe>, slots: usize, depth: usize) -> Space {
        Space {
            name,
            id: 0,
            recipes,
            inner_recipes: vec![],
            slots,
            depth,
            calls: false,
            conversions: false,
            leaks: false,
            threads: false,
            drop_panics: false,
            nested_calls: false,
            nested_drops: false,
            fail_points: 0,
            ping: true,
            policy: mem::Policy::Lifo,
            skews: [0, 5, 13],
        }
    }
}

// ---------------------------------------------------------------- instrumented closures

pub struct World {
    pub counts: [u64; MAXI],
    pub drops: [u32; MAXI],
    pub handle_drops: [u32; MAXI],
    pub addr: [usize; MAXI],
    pub zcounts: [u64; 6],
    pub zdrops: [u32; 6],
    pub call_script: Option<Inner>,
    pub drop_script: Option<Inner>,
    pub drop_panic: bool,
    pub exec: *mut Exec<'static>,
}
static mut WORLD: World = World {
    counts: [0; MAXI],
    drops: [0; MAXI],
    handle_drops: [0; MAXI],
    addr: [0; MAXI],
    zcounts: [0; 6],
    zdrops: [0; 6],
    call_script: None,
    drop_script: None,
    drop_panic: false,
    exec: core::ptr::null_mut(),
};
#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *(&raw mut WORLD) }
}
impl World {
    fn reset(&mut self) {
        self.counts = [0; MAXI];
        self.drops = [0; MAXI];
        self.handle_drops = [0; MAXI];
        self.addr = [0; MAXI];
        self.zcounts = [0; 6];
        self.zdrops = [0; 6];
        self.call_script = None;
        self.drop_script = None;
        self.drop_panic = false;
    }
}

pub fn mix(id: u64, n: u64, a: u64, b: u64) -> u64 {
    let mut h = id.wrapping_mul(0x9E3779B97F4A7C15) ^ n.rotate_left(17);
    h = (h ^ a).wrapping_mul(0xff51afd7ed558ccd);
    h = (h ^ (h >> 29) ^ b.rotate_left(32)).wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 31)
}

/// What every capturing closure does: count, run what the history demands here, answer.
#[inline(never)]
fn entered(id: usize, addr: usize, a: u64, b: u64) -> u64 {
    let world = w();
    if id >= MAXI {
        viol("C02", "a bare function ran with a corrupted closure");
        viol("C03", "a bare function ran with a corrupted closure");
        return 0;
    }
    if world.drops[id] != 0 {
        viol("C02", "a bare function ran a closure that had been destroyed");
        viol("C03", "a bare function ran a closure that had been destroyed");
    }
    if world.addr[id] == 0 {
        world.addr[id] = addr;
    } else if world.addr[id] != addr {
        viol("C03", "a closure was moved or duplicated while wrapped");
        viol("C02", "a bare function ran on another copy of its closure");
    }
    world.counts[id] += 1;
    let n = world.counts[id];
    if let Some(i) = world.call_script.take() {
        untracked(|| unsafe { (*world.exec).exec_inner(i) });
    }
    mix(id as u64, n, a, b)
}
#[inline(never)]
fn destroyed(id: usize) {
    let world = w();
    if id >= MAXI {
        viol("C03", "a corrupted closure was destroyed");
        return;
    }
    world.drops[id] += 1;
    after_drop();
}
fn after_drop() {
    let world = w();
    if let Some(i) = world.drop_script.take() {
        untracked(|| unsafe { (*world.exec).exec_inner(i) });
    }
    if core::mem::take(&mut world.drop_panic) {
        panic!("injected destructor panic");
    }
}

const MAGIC: u64 = 0x5AFE_C105_ED15_0B0E;
pub struct Tracker(u32);
impl Drop for Tracker {
    fn drop(&mut self) {
        destroyed(self.0 as usize)
    }
}
pub struct Small {
    magic: u64,
    count: AtomicU64,
    t: Tracker,
}
impl Small {
    pub fn new(id: u32) -> Self {
        Small { magic: MAGIC ^ id as u64, count: AtomicU64::new(0), t: Tracker(id) }
    }
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        if self.magic != MAGIC ^ self.t.0 as u64 {
            viol("C02", "a bare function ran with a corrupted closure");
        }
        let n = self.count.load(Relaxed) + 1;
        self.count.store(n, Relaxed);
        if n != w().counts[self.t.0 as usize] + 1 {
            viol("C02", "a bare function ran with a stale state of its closure");
            viol("C03", "a closure was duplicated");
        }
        entered(self.t.0 as usize, self as *const _ as usize, a, b)
    }
    #[inline(never)]
    pub fn hit_mut(&mut self, a: u64, b: u64) -> u64 {
        self.hit(a, b)
    }
}
#[repr(align(64))]
pub struct Big {
    pad: [u64; 40],
    s: Small,
    tail: [u64; 7],
}
impl Big {
    pub fn new(id: u32) -> Self {
        Big { pad: [id as u64 * 3; 40], s: Small::new(id), tail: [!(id as u64); 7] }
    }
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        let id = self.s.t.0 as u64;
        if self as *const _ as usize % 64 != 0 {
            viol("C02", "a bare function ran with a misaligned closure");
            viol("C03", "a closure was misplaced");
        }
        if self.pad.iter().any(|x| *x != id * 3) || self.tail.iter().any(|x| *x != !id) {
            viol("C02", "a bare function ran with a corrupted closure");
        }
        self.s.hit(a, b)
    }
    #[inline(never)]
    pub fn hit_mut(&mut self, a: u64, b: u64) -> u64 {
        self.hit(a, b)
    }
}
/// One more than the closure was used before.
fn again(id: usize, n: u64, modulus: u64) {
    if id < MAXI && n % modulus != (w().counts[id] + 1) % modulus {
        viol("C02", "a bare function ran with a stale state of its closure");
        viol("C03", "a closure was duplicated");
    }
}
/// Six bits who it is, two how often it was used.
pub struct Byte(AtomicU8);
impl Drop for Byte {
    fn drop(&mut self) {
        destroyed(self.0.load(Relaxed) as usize & 63)
    }
}
impl Byte {
    pub fn new(id: u32) -> Self {
        Byte(AtomicU8::new(id as u8))
    }
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        let x = self.0.load(Relaxed).wrapping_add(64);
        self.0.store(x, Relaxed);
        again(x as usize & 63, x as u64 >> 6, 4);
        entered(x as usize & 63, self as *const _ as usize, a, b)
    }
}
/// One word, no destructor.
pub struct Plain(AtomicUsize);
impl Plain {
    pub fn new(id: u32) -> Self {
        Plain(AtomicUsize::new(id as usize ^ 0x57_0000))
    }
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        let x = self.0.load(Relaxed).wrapping_add(1 << 24);
        self.0.store(x, Relaxed);
        let id = (x ^ 0x57_0000) & 0xFF_FFFF;
        again(id, x as u64 >> 24, 256);
        entered(id, self as *const _ as usize, a, b)
    }
}
/// Several words, no destructor.
pub struct Wide([AtomicUsize; 5]);
impl Wide {
    pub fn new(id: u32) -> Self {
        Wide([0, 1, 2, 3, 4].map(|i| AtomicUsize::new(if i == 3 { 0 } else { id as usize * 0x1_0001 + i })))
    }
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        let id = self.0[0].load(Relaxed) / 0x1_0001;
        if (0..5).any(|i| i != 3 && self.0[i].load(Relaxed) != id * 0x1_0001 + i) {
            viol("C02", "a bare function ran with a corrupted closure");
        }
        let n = self.0[3].load(Relaxed) + 1;
        self.0[3].store(n, Relaxed);
        again(id, n as u64, 1 << 32);
        entered(id, self as *const _ as usize, a, b)
    }
}
#[inline(never)]
pub fn zst_hit<const N: usize>(a: u64, b: u64) -> u64 {
    let world = w();
    world.zcounts[N] += 1;
    let n = world.zcounts[N];
    if let Some(i) = world.call_script.take() {
        untracked(|| unsafe { (*world.exec).exec_inner(i) });
    }
    mix(1000 + N as u64, n, a, b)
}
pub struct Z<const N: usize>;
impl<const N: usize> Z<N> {
    #[inline(never)]
    pub fn hit(&self, a: u64, b: u64) -> u64 {
        zst_hit::<N>(a, b)
    }
}
impl<const N: usize> Drop for Z<N> {
    fn drop(&mut self) {
        w().zdrops[N] += 1;
        after_drop();
    }
}

// ---------------------------------------------------------------- executor

#[derive(Clone, Copy)]
struct InstR {
    ptr: *const (),
    block: Option<(usize, usize, usize)>, // allocator, slot, allocation sequence number
}

pub struct Exec<'a> {
    pub sp: &'a Space,
    pub m: M,
    slots: [Option<Box<dyn Wrapper>>; NS],
    lptr: [*const (); NL],
    insts: Vec<InstR>,
    failed: [u32; MAXI],
    next_id: u32,
    ids: Vec<u32>,
    step: u64,
    zst_failed: [u32; 6],
    pub heap_mismatch: Option<(usize, usize)>,
}
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(self) -> T {
        self.0
    }
}

fn same_mem(e: &Ev, want: usize) -> bool {
    match *e {
        Ev::Alloc { mem, .. }
        | Ev::AllocFailed { mem, .. }
        | Ev::Release { mem, .. }
        | Ev::ProtectRw { mem, .. }
        | Ev::ProtectRx { mem, .. }
        | Ev::Flush { mem, .. } => mem == want,
        Ev::HandleDrop { .. } => true,
    }
}

unsafe fn invoke(p: *const (), a: u64, b: u64) -> u64 {
    let f: B = core::mem::transmute(p);
    f(a, b)
}

impl<'a> Exec<'a> {
    pub fn new(sp: &'a Space) -> Exec<'a> {
        mem::reset();
        w().reset();
        Exec {
            sp,
            m: M::new(),
            slots: [None, None, None],
            lptr: [core::ptr::null(); NL],
            insts: Vec::with_capacity(MAXI),
            failed: [0; MAXI],
            next_id: 0,
            ids: Vec::with_capacity(MAXI),
            step: 0,
            zst_failed: [0; 6],
            heap_mismatch: None,
        }
    }
    fn take_id(&mut self) -> u32 {
        let id = self.next_id;
        self.next_id += 1;
        if id as usize >= MAXI {
            engine("too many instances in one history");
        }
        id
    }

    fn new_one(&mut self, r: u8, fault: Option<(u8, Fault)>) {
        let rc = self.sp.recipes[r as usize];
        let id = self.take_id();
        let log0 = sh().log.len();
        sh().calls = 0;
        sh().fault_hit = false;
        sh().fault = fault.map(|(k, f)| (k as usize, f));
        let res = catch_unwind(AssertUnwindSafe(|| (rc.row.make)(rc.ctor, rc.mem, id)));
        sh().fault = None;
        stats().constructions += 1;
        let refused = rc.row.class == Class::Refused;
        let hit = sh().fault_hit || refused;
        if refused && sh().log[log0..].iter().any(|e| !matches!(e, Ev::HandleDrop { .. } | Ev::Alloc { .. } | Ev::Release { .. })) {
            viol("C05", "executable memory was modified for a prologue that cannot be relocated");
        }
        if rc.row.class.zero_sized() && sh().log[log0..].iter().any(|e| !matches!(e, Ev::HandleDrop { .. })) {
            viol("C04", "a zero-sized closure touched the allocator");
        }
        match res {
            Ok(Ok(x)) => {
                if hit {
                    viol("C05", "construction succeeded although the allocator failed");
                }
                let i = self.m.new_inst(self.sp, r);
                self.ids.push(id);
                let mut block = None;
                let mut n = 0;
                for (k, e) in sh().log[log0..].iter().enumerate() {
                    if let Ev::Alloc { mem, slot, .. } = *e {
                        n += 1;
                        block = Some((mem, slot, log0 + k));
                    }
                    if matches!(e, Ev::HandleDrop { .. }) {
                        viol("C04", "the allocator handle was destroyed by construction");
                        viol("C03", "the allocator handle was destroyed by construction");
                    }
                }
                if !rc.row.class.zero_sized() {
                    if n != 1 || sh().log[log0..].iter().any(|e| matches!(e, Ev::Release { .. })) {
                        viol("C04", &format!("construction obtained {n} blocks"));
                    }
                    let mem = block.map(|b| b.0);
                    if mem != Some(rc.mem) {
                        viol("C04", &format!("allocator {} was given but the block came from {mem:?}", rc.mem));
                        viol("C19", &format!("allocator {} was given but the block came from {mem:?}", rc.mem));
                    }
                }
                if !sh().log[log0..].iter().all(|e| same_mem(e, rc.mem)) {
                    viol("C04", "a construction touched another allocator than its own");
                    viol("C19", "a construction touched another allocator than its own");
                }
                let p = x.ptr();
                if rc.row.kind != Kind::Once {
                    if p.is_null() {
                        viol("C02", "null bare function");
                    }
                    if !rc.row.class.zero_sized() {
                        for o in self.m.slots.iter().flatten() {
                            let k = o.inst as usize;
                            if k < self.insts.len() && self.insts[k].ptr == p {
                                viol("C02", "two live wrappers have the same bare function");
                            }
                        }
                    }
                }
                self.insts.push(InstR { ptr: p, block });
                self.slots[i] = Some(x);
            }
            other => {
                if !hit {
                    let how = if other.is_err() { "panicked" } else { "returned an error" };
                    for p in ["C02", "C03", "C04", "C05"] {
                        viol(p, &format!("construction {how} although the allocator did not fail"));
                    }
                }
                stats().faults += 1;
                let f = fault.map(|x| x.1);
                match (&other, f) {
                    (Ok(Err(_)), Some(Fault::Err)) if !fallible(rc.ctor) => {
                        viol("C05", "an infallible constructor returned an error")
                    }
                    (Err(_), Some(Fault::Err)) if fallible(rc.ctor) => {
                        viol("C05", "a fallible constructor panicked on an allocator error")
                    }
                    _ => {}
                }
                drop(other);
                if !sh().log[log0..].iter().all(|e| same_mem(e, rc.mem)) {
                    viol("C05", "a failed construction touched another allocator");
                    viol("C19", "a construction touched another allocator than its own");
                }
                // closure and handle are gone, blocks given back
                if rc.row.class.zero_sized() {
                    if rc.row.class.counted() {
                        self.zst_failed[zst_index(rc.row.kind, rc.row.class)] += 1;
                    }
                } else if rc.row.class.counted() {
                    self.failed[id as usize] = 1;
                    if w().drops[id as usize] != 1 {
                        viol("C05", &format!("after a failed construction the closure was dropped {} times", w().drops[id as usize]));
                    }
                }
                if rc.row.handle.tracked() && w().handle_drops[id as usize] != 1 {
                    viol("C05", &format!("after a failed construction the allocator handle was dropped {} times", w().handle_drops[id as usize]));
                }
                let allocs = sh().log[log0..].iter().filter(|e| matches!(e, Ev::Alloc { .. })).count();
                let rels = sh().log[log0..].iter().filter(|e| matches!(e, Ev::Release { .. })).count();
                if allocs != rels {
                    viol("C05", &format!("a failed construction kept {allocs} - {rels} blocks of executable memory"));
                }
            }
        }
    }

    fn expected(&mut self, inst: usize, recipe: u8) -> (u64, u64) {
        let rc = &self.sp.recipes[recipe as usize];
        if rc.row.class.zero_sized() {
            let z = zst_index(rc.row.kind, rc.row.class);
            (1000 + z as u64, w().zcounts[z] + 1)
        } else {
            let id = self.ids[inst] as usize;
            (id as u64, w().counts[id] + 1)
        }
    }
    fn call_ptr(&mut self, inst: usize, recipe: u8, p: *const (), script: Option<Inner>, thread: bool) {
        self.step += 1;
        let (a, b) = (self.step.wrapping_mul(0x0123_4567_89AB_CDEF), !self.step);
        let (id, n) = self.expected(inst, recipe);
        w().call_script = script;
        stats().calls += 1;
        let got = if thread {
            let q = AssertSend(p);
            std::thread::spawn(move || {
                let q = q.get();
                unsafe { invoke(q, a, b) }
            })
            .join()
            .unwrap_or_else(|_| engine("call panicked in a thread"))
        } else {
            unsafe { invoke(p, a, b) }
        };
        if got != mix(id, n, a, b) {
            viol("C02", "a bare function did not run its own closure on its current state");
        }
        let rc = &self.sp.recipes[recipe as usize];
        let now = if rc.row.class.zero_sized() {
            w().zcounts[zst_index(rc.row.kind, rc.row.class)]
        } else {
            w().counts[self.ids[inst] as usize]
        };
        if now < n || w().call_script.is_some() {
            viol("C02", "a bare function did not run its closure");
        }
    }
    fn call_slot(&mut self, i: u8, script: Option<Inner>, thread: bool) {
        let s = self.m.slots[i as usize].unwrap();
        let p = self.slots[i as usize].as_ref().unwrap().ptr();
        self.call_ptr(s.inst as usize, s.recipe, p, script, thread);
    }
    fn call_leaked(&mut self, j: u8, script: Option<Inner>) {
        let l = self.m.leaked[j as usize].unwrap();
        // the model is updated before the nested operation runs
        self.m.call_leaked(self.sp, j);
        self.call_ptr(l.inst as usize, l.recipe, self.lptr[j as usize], script, false);
    }
    fn leak(&mut self, i: u8) {
        let x = self.slots[i as usize].take().unwrap();
        let s = self.m.slots[i as usize].unwrap();
        let p = x.leak_it();
        let known = self.insts[s.inst as usize].ptr;
        if !known.is_null() && known != p {
            viol("C02", "leaking changed the address of the bare function");
        }
        self.insts[s.inst as usize].ptr = p;
        let l = self.m.leak_slot(i);
        self.lptr[l] = p;
    }
    fn drop_one(&mut self, i: u8, script: Option<Inner>, thread: bool, panics: bool) {
        let x = self.slots[i as usize].take().unwrap();
        let rc = self.sp.recipes[self.m.slots[i as usize].unwrap().recipe as usize];
        let log0 = sh().log.len();
        self.m.drop_slot(i);
        w().drop_script = script;
        w().drop_panic = panics;
        let ok = if thread {
            let x = AssertSend(x);
            std::thread::spawn(move || {
                let x = x.get();
                tracked(|| drop(x))
            })
            .join()
            .is_ok()
        } else {
            catch_unwind(AssertUnwindSafe(|| tracked(|| drop(x)))).is_ok()
        };
        if w().drop_script.is_some() || w().drop_panic {
            w().drop_script = None;
            w().drop_panic = false;
            viol("C03", "dropping the wrapper did not destroy the closure");
        }
        if script.is_none() {
            let n = sh().log[log0..].iter().filter(|e| !matches!(e, Ev::HandleDrop { .. })).count();
            if !sh().log[log0..].iter().all(|e| same_mem(e, rc.mem)) || n != !rc.row.class.zero_sized() as usize {
                viol("C19", &format!("dropping a wrapper led to {n} allocator operations, or reached another allocator"));
                viol("C04", &format!("dropping a wrapper led to {n} allocator operations, or reached another allocator"));
            }
        }
        if ok == panics {
            viol("C03", if ok { "a panic of the closure's destructor was lost" } else { "dropping a wrapper panicked" });
            viol("C05", if ok { "a panic of the closure's destructor was lost" } else { "dropping a wrapper panicked" });
        }
    }

    pub fn exec_inner(&mut self, i: Inner) {
        stats().transitions += 1;
        match i {
            Inner::New(r) => self.new_one(r, None),
            Inner::Call(j) => self.call_slot(j, None, false),
            Inner::Drop(j) => self.drop_one(j, None, false, false),
            Inner::Leak(j) => self.leak(j),
            Inner::CallL(j) => self.call_leaked(j, None),
        }
    }
    fn convert(&mut self, i: u8, f: impl FnOnce(Box<dyn Wrapper>) -> Box<dyn Wrapper>) {
        let x = self.slots[i as usize].take().unwrap();
        let y = f(x);
        let s = self.m.slots[i as usize].unwrap();
        let p = y.ptr();
        if p != self.insts[s.inst as usize].ptr {
            viol("C02", "a conversion or move changed the address of the bare function");
        }
        self.slots[i as usize] = Some(y);
    }

    pub fn exec(&mut self, a: Act) {
        stats().transitions += 1;
        w().exec = self as *mut Exec<'a> as *mut Exec<'static>;
        let nlog = sh().log.len();
        match a {
            Act::New(r) => self.new_one(r, None),
            Act::NewFail(r, k, f) => {
                self.new_one(r, Some((k, f)));
                // a fault beyond the last allocator call: an ordinary construction
                if !sh().fault_hit && self.sp.recipes[r as usize].row.class != Class::Refused {
                    let i = self.m.insts.len() - 1;
                    let s = (0..NS).find(|s| matches!(self.m.slots[*s], Some(x) if x.inst as usize == i)).unwrap();
                    self.drop_one(s as u8, None, false, false);
                }
            }
            Act::Call(i) => self.call_slot(i, None, false),
            Act::CallT(i) => self.call_slot(i, None, true),
            Act::Move(i) => self.convert(i, |x| x.rebox()),
            Act::Untyped(i) => {
                self.convert(i, |x| x.untyped());
                self.m.apply(self.sp, a);
            }
            Act::Retyped(i) => {
                self.convert(i, |x| x.retyped());
                self.m.apply(self.sp, a);
            }
            Act::Up(i, to) => {
                self.convert(i, |x| x.upcast_to(to));
                self.m.apply(self.sp, a);
            }
            Act::Into(i, to) => {
                self.convert(i, |x| x.into_form(to));
                self.m.apply(self.sp, a);
            }
            Act::Leak(i) => self.leak(i),
            Act::CallL(j) => self.call_leaked(j, None),
            Act::Drop(i) => self.drop_one(i, None, false, false),
            Act::DropT(i) => self.drop_one(i, None, true, false),
            Act::DropPanic(i) => self.drop_one(i, None, false, true),
            Act::CallW(i, n) => self.call_slot(i, Some(n), false),
            Act::CallLW(j, n) => self.call_leaked(j, Some(n)),
            Act::DropW(i, n) => self.drop_one(i, Some(n), false, false),
        }
        if matches!(a, Act::Call(_) | Act::CallT(_) | Act::CallL(_) | Act::Move(_) | Act::Untyped(_) | Act::Retyped(_) | Act::Up(..) | Act::Into(..) | Act::Leak(_))
            && sh().log.len() != nlog
        {
            viol("C04", "calling, converting or leaking touched an allocator");
        }
        self.verify();
        stats().states.insert(self.m.hash() ^ self.sp.id);
    }

    /// Compare everything observable with the model.
    fn verify(&mut self) {
        stats().checks += 1;
        let world = w();
        // the fault property claims the same accounting for histories with failures in them
        let c3 = |what: String| {
            viol("C03", &what);
            viol("C05", &what);
        };
        let c4 = |what: String| {
            viol("C04", &what);
            viol("C05", &what);
        };
        for st in &sh().st {
            if let Some(b) = &st.bad {
                c4(b.clone());
            }
        }
        for id in 0..self.next_id as usize {
            if self.failed[id] != 0 && world.drops[id] != 1 {
                viol("C05", "the closure of a failed construction was dropped again");
            }
        }
        let mut z = self.zst_failed;
        for (i, (r, status)) in self.m.insts.iter().enumerate() {
            let rc = &self.sp.recipes[*r as usize];
            let id = self.ids[i] as usize;
            let gone = matches!(status, Status::Dropped | Status::Consumed) as u32;
            if rc.row.class.counted() {
                if rc.row.class.zero_sized() {
                    z[zst_index(rc.row.kind, rc.row.class)] += gone;
                } else if world.drops[id] != gone {
                    c3(format!("the closure of wrapper #{i} ({status:?}) was dropped {} times", world.drops[id]));
                }
            }
            let dead = *status == Status::Dropped;
            if rc.row.handle.tracked() && world.handle_drops[id] != dead as u32 {
                let d = world.handle_drops[id];
                c4(format!("the allocator handle of wrapper #{i} ({status:?}) was dropped {d} times"));
                viol("C03", &format!("the allocator handle of wrapper #{i} ({status:?}) was dropped {d} times"));
            }
            if let Some((mem, slot, seq)) = self.insts[i].block {
                let mut rel = None;
                let mut hdrop = None;
                for (k, e) in sh().log.iter().enumerate().skip(seq + 1) {
                    match *e {
                        Ev::Release { mem: m2, slot: s2 } if m2 == mem && s2 == slot && rel.is_none() => rel = Some(k),
                        Ev::HandleDrop { handle } if handle == id => hdrop = Some(k),
                        _ => {}
                    }
                }
                if rel.is_some() != dead {
                    c4(format!(
                        "the executable memory of wrapper #{i} ({status:?}) was {}returned",
                        if dead { "not " } else { "" }
                    ));
                }
                if let (Some(r), Some(h)) = (rel, hdrop) {
                    if h < r {
                        c4(format!("the allocator handle of wrapper #{i} was destroyed before its memory was returned"));
                    }
                }
            }
        }
        if z[1] != world.zdrops[1] || z[3] != world.zdrops[3] || z[5] != world.zdrops[5] {
            c3(format!("zero-sized closures were dropped {:?} times, expected {z:?}", world.zdrops));
        }
        for i in 0..NS {
            if let (Some(s), Some(x)) = (self.m.slots[i], self.slots[i].as_ref()) {
                if x.ptr() != self.insts[s.inst as usize].ptr && self.sp.recipes[s.recipe as usize].row.kind != Kind::Once {
                    viol("C02", "the address of a bare function changed");
                }
            }
        }
        if self.sp.ping {
            for i in 0..NS {
                if let Some(s) = self.m.slots[i] {
                    if self.sp.recipes[s.recipe as usize].row.kind != Kind::Once {
                        self.call_slot(i as u8, None, false);
                    }
                }
            }
            for j in 0..NL {
                if let Some(l) = self.m.leaked[j] {
                    if self.sp.recipes[l.recipe as usize].row.kind != Kind::Once {
                        self.call_leaked(j as u8, None);
                    }
                }
            }
        }
    }

    /// Drop what is left (in either order), then compare the final balance.
    pub fn finish(&mut self, reverse: bool) {
        for k in 0..NS {
            let i = if reverse { NS - 1 - k } else { k };
            if self.m.slots[i].is_some() {
                self.exec(Act::Drop(i as u8));
            }
        }
        mem::check_canaries();
        let keep = self
            .m
            .insts
            .iter()
            .filter(|(r, s)| matches!(s, Status::Leaked | Status::Consumed) && !self.sp.recipes[*r as usize].row.class.zero_sized())
            .count();
        if !heap::layouts_ok() {
            viol("C03", "a closure was deallocated with another layout than it was allocated with");
        }
        if heap::overflowed() {
            self.heap_mismatch = Some((usize::MAX, keep));
        } else if heap::live() != keep {
            self.heap_mismatch = Some((heap::live(), keep));
        } else {
            heap::sweep();
        }
        let _ = &MEMS;
    }
}
