//! The spaces of histories explored for each property.

use crate::mem::{self, sh, Ev, Fault, Mem, Policy, MEMS};
use crate::report::{engine, set_case, stats, viol};
use crate::world::Space;
use crate::wrap::{Class::*, Handle, Kind, *};
use closure_ffi::jit_alloc::{GlobalJitAlloc, JitAlloc, ProtectJitAccess};
use std::{mem::ManuallyDrop, ops::Deref, pin::Pin, rc::Rc, sync::Arc};

pub fn spaces(prop: &str, tier: &str) -> Vec<Space> {
    let rows = all_rows();
    let thorough = tier == "thorough";
    let small = tier == "small";
    let deep = thorough as usize;
    let shallow = small as usize;
    let r = |k, c, f, m, ctor| recipe(&rows, k, c, f, Handle::Direct, m, ctor);
    let mut v: Vec<Space> = vec![];
    let both = |v: &mut Vec<Space>, s: Space| {
        let mut f = s.clone();
        f.policy = Policy::Fifo;
        f.name = Box::leak(format!("{}-fifo", s.name).into_boxed_str());
        f.skews = [3, 0, 8];
        v.push(s);
        v.push(f);
    };
    match prop {
        "C02" => {
            // few kinds, everything nested
            let mut s = Space::base(
                "nested",
                vec![r(Kind::Fn, Small, 0, 0, 0), r(Kind::Mut, Small, 0, 0, 2), r(Kind::Once, Big, 0, 0, 1)],
                3,
                5 + deep - 2 * shallow,
            );
            s.inner_recipes = vec![0, 1];
            s.nested_calls = true;
            s.nested_drops = true;
            s.leaks = true;
            both(&mut v, s);
            // longer histories of creation, leaking and destruction: memory reuse
            let mut s = Space::base(
                "reuse",
                vec![r(Kind::Fn, Small, 0, 0, 0), r(Kind::Fn, Byte, 0, 0, 4), r(Kind::Mut, Big, 0, 0, 0)],
                3,
                9 + deep - 4 * shallow,
            );
            s.leaks = false;
            both(&mut v, s);
            // many closure types side by side
            let mut s = Space::base("types", vec![], 3, 4 + deep - shallow);
            for k in [Kind::Once, Kind::Mut, Kind::Fn] {
                for c in [Small, Big, Byte, Plain, Wide, Zst, ZstDrop] {
                    s.recipes.push(r(k, c, 0, (k as usize) % 2, if matches!(c, Plain | Wide) { 5 } else { 0 }));
                }
            }
            s.leaks = true;
            v.push(s);
            // conversions and moves
            let mut s = Space::base(
                "conversions",
                vec![r(Kind::Fn, Small, 3, 0, 3), r(Kind::Mut, Big, 1, 0, 1), r(Kind::Once, Byte, 3, 1, 0), r(Kind::Fn, ZstDrop, 2, 0, 0)],
                2,
                5 + deep - shallow,
            );
            s.conversions = true;
            s.leaks = true;
            v.push(s);
        }
        "C03" => {
            // every closure class, storage bound and kind through every conversion
            for k in [Kind::Once, Kind::Mut, Kind::Fn] {
                for c in [Small, Big, Byte, Plain, Wide, Zst, ZstDrop] {
                    for ctor in [0u8, 5] {
                        let mut s = Space::base(
                            Box::leak(format!("forms-{k:?}-{c:?}-{}", ctor_name(ctor)).into_boxed_str()),
                            (0..4).map(|f| r(k, c, f, 0, ctor)).collect(),
                            1,
                            4 + deep,
                        );
                        s.conversions = true;
                        s.leaks = true;
                        s.drop_panics = true;
                        s.ping = false;
                        s.calls = true;
                        v.push(s);
                    }
                }
            }
            // constructors of every kind, also through the global allocator
            let mut s = Space::base("constructors", vec![], 2, 3);
            for k in [Kind::Once, Kind::Mut, Kind::Fn] {
                for c in [Small, ZstDrop] {
                    for ctor in 0..6 {
                        s.recipes.push(r(k, c, 0, 0, ctor));
                    }
                    for ctor in 6..10 {
                        s.recipes.push(recipe(&rows, k, c, 0, Handle::Global, 0, ctor));
                    }
                }
            }
            s.leaks = true;
            v.push(s);
            // interplay of instances, destructors that use the library
            let mut s = Space::base(
                "destructors",
                vec![r(Kind::Fn, Small, 0, 0, 0), r(Kind::Mut, ZstDrop, 0, 0, 0), r(Kind::Once, Byte, 0, 0, 0)],
                3,
                5 + deep - 2 * shallow,
            );
            s.inner_recipes = vec![0, 1, 2];
            s.nested_drops = true;
            s.nested_calls = true;
            s.drop_panics = true;
            s.leaks = true;
            v.push(s);
            // other threads
            let mut s = Space::base(
                "threads",
                vec![r(Kind::Fn, Small, 3, 0, 0), r(Kind::Mut, Big, 1, 0, 0), r(Kind::Once, Byte, 1, 0, 0), r(Kind::Mut, ZstDrop, 3, 0, 0)],
                2,
                3,
            );
            s.threads = true;
            s.conversions = !small;
            s.leaks = true;
            v.push(s);
        }
        "C04" => {
            // two allocators of one type and one of another handle, interleaved
            let mut s = Space::base(
                "allocators",
                vec![
                    r(Kind::Fn, Small, 0, 0, 0),
                    r(Kind::Mut, Big, 0, 1, 4),
                    recipe(&rows, Kind::Fn, Small, 0, Handle::Rc, 2, 1),
                    r(Kind::Fn, ZstDrop, 0, 1, 0),
                ],
                3,
                7 + deep - 3 * shallow,
            );
            s.leaks = true;
            both(&mut v, s);
            // every handle and constructor
            for h in [Handle::Direct, Handle::Ref, Handle::Rc, Handle::Arc, Handle::Box, Handle::Custom, Handle::Global] {
                let mut s = Space::base(Box::leak(format!("handles-{h:?}").into_boxed_str()), vec![], 2, 3 + deep);
                for k in [Kind::Once, Kind::Mut, Kind::Fn] {
                    for c in [Small, ZstDrop] {
                        for ctor in 0..if h == Handle::Global { 10 } else { 6 } {
                            s.recipes.push(recipe(&rows, k, c, 0, h, (ctor % 3) as usize, ctor));
                        }
                    }
                }
                s.leaks = true;
                s.ping = false;
                v.push(s);
            }
            // conversions, panicking destructors, nesting
            let mut s = Space::base(
                "endings",
                vec![r(Kind::Fn, Small, 3, 0, 0), r(Kind::Mut, Byte, 1, 1, 5), r(Kind::Once, Big, 3, 0, 2)],
                2,
                5 + deep - 2 * shallow,
            );
            s.inner_recipes = vec![0, 1];
            s.conversions = true;
            s.nested_drops = true;
            s.nested_calls = true;
            s.drop_panics = true;
            s.leaks = true;
            s.ping = false;
            v.push(s);
        }
        "C05" => {
            // every constructor, closure class, kind and storage bound, every failing call
            let mut recipes = vec![];
            for row in rows.iter() {
                for ctor in 0..if row.handle == Handle::Global { 10 } else { 6 } {
                    if row.class == Refused && ctor != 4 && ctor != 5 {
                        continue;
                    }
                    recipes.push(Recipe { row: *row, mem: 0, ctor });
                }
            }
            for (n, c) in recipes.chunks(if thorough { 80 } else { 24 }).enumerate() {
                let mut s = Space::base(Box::leak(format!("points-{n}").into_boxed_str()), c.to_vec(), 2, 2 - shallow);
                s.fail_points = 5;
                s.drop_panics = true;
                v.push(s);
            }
            // failures in the middle of histories
            let mut rec = vec![r(Kind::Fn, Small, 0, 0, 0), r(Kind::Mut, Big, 0, 1, 5), recipe(&rows, Kind::Once, Small, 0, Handle::Rc, 0, 4)];
            if rows.iter().any(|x| x.class == Refused) {
                rec.push(r(Kind::Fn, Refused, 0, 0, 5));
            }
            let mut s = Space::base("histories", rec, 2, 4 + deep - shallow);
            s.fail_points = 5;
            s.leaks = true;
            s.drop_panics = true;
            both(&mut v, s);
        }
        "C19" => {
            let mut s = Space::base("mixed", vec![], 3, 3 + deep - shallow);
            for (n, h) in [Handle::Direct, Handle::Ref, Handle::Rc, Handle::Arc, Handle::Box, Handle::Custom, Handle::Global].into_iter().enumerate() {
                for m in 0..3 {
                    if h == Handle::Global && m > 0 {
                        continue;
                    }
                    let k = [Kind::Fn, Kind::Mut, Kind::Once][(n + m) % 3];
                    s.recipes.push(recipe(&rows, k, Small, 0, h, m, ((n + m) % 6) as u8));
                }
            }
            s.leaks = true;
            s.fail_points = 0;
            v.push(s);
        }
        _ => engine("unknown property"),
    }
    for s in v.iter_mut() {
        s.id = s.name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    }
    if v.iter().any(|s| s.recipes.len() > 200) {
        engine("too many recipes in one space");
    }
    v
}

// ---------------------------------------------------------------- adapters

struct Custom(Mem);
impl Deref for Custom {
    type Target = Mem;
    fn deref(&self) -> &Mem {
        &self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Alloc(usize),
    AllocErr(usize),
    AllocPanic(usize),
    Release(u8),
    ReleaseErr(u8),
    ReleasePanic(u8),
    /// block, offset, length, execute
    Protect(u8, usize, usize, bool),
    Flush(u8, usize, usize),
}

#[derive(Debug, PartialEq)]
enum Out {
    Ptrs(usize, usize),
    Done,
    Err,
    Panic,
    Skip,
}

fn apply(a: &dyn JitAlloc, op: Op, live: &mut Vec<usize>) -> Out {
    let fault = match op {
        Op::AllocErr(_) | Op::ReleaseErr(_) => Some((0, Fault::Err)),
        Op::AllocPanic(_) | Op::ReleasePanic(_) => Some((0, Fault::Panic)),
        _ => None,
    };
    sh().calls = 0;
    sh().fault = fault;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        match op {
            Op::Alloc(n) | Op::AllocErr(n) | Op::AllocPanic(n) => match a.alloc(n) {
                Ok((rx, rw)) => {
                    live.push(rx as usize);
                    Out::Ptrs(rx as usize, rw as usize)
                }
                Err(_) => Out::Err,
            },
            Op::Release(b) | Op::ReleaseErr(b) | Op::ReleasePanic(b) => {
                if b as usize >= live.len() {
                    return Out::Skip;
                }
                match a.release(live.remove(b as usize) as *const u8) {
                    Ok(()) => Out::Done,
                    Err(_) => Out::Err,
                }
            }
            Op::Protect(b, off, n, x) => {
                let Some(p) = live.get(b as usize) else { return Out::Skip };
                a.protect_jit_memory(
                    (p + off) as *const u8,
                    n,
                    if x { ProtectJitAccess::ReadExecute } else { ProtectJitAccess::ReadWrite },
                );
                Out::Done
            }
            Op::Flush(b, off, n) => {
                let Some(p) = live.get(b as usize) else { return Out::Skip };
                a.flush_instruction_cache((p + off) as *const u8, n);
                Out::Done
            }
        }
    }));
    sh().fault = None;
    r.unwrap_or(Out::Panic)
}

/// Every sequence of raw operations gives the same results and the same effects through every
/// adapter as on the allocator itself.
pub fn adapters(shard: (u64, u64), tier: &str) {
    let ops = [
        Op::Alloc(1),
        Op::Alloc(40),
        Op::Alloc(333),
        Op::AllocErr(40),
        Op::AllocPanic(40),
        Op::Release(0),
        Op::Release(1),
        Op::ReleaseErr(0),
        Op::ReleasePanic(0),
        Op::Protect(0, 0, 1, false),
        Op::Protect(0, 0, 1, true),
        Op::Protect(1, 3, 30, false),
        Op::Protect(1, 2, 31, true),
        Op::Flush(0, 0, 1),
        Op::Flush(1, 5, 17),
    ];
    let depth = match tier {
        "thorough" => 5,
        "small" => 3,
        _ => 4,
    };
    type Mk = fn() -> Box<dyn JitAlloc>;
    let adapters: Vec<(&str, usize, Mk)> = vec![
        ("&T", 1, || Box::new(&MEMS[1])),
        ("&&T", 1, || {
            static R: &Mem = &MEMS[1];
            Box::new(&R)
        }),
        ("&mut T", 1, || Box::new(Box::leak(Box::new(Mem(1))))),
        ("Box<T>", 1, || Box::new(Box::new(Mem(1)))),
        ("Rc<T>", 1, || Box::new(Rc::new(Mem(1)))),
        ("Arc<T>", 1, || Box::new(Arc::new(Mem(1)))),
        ("Pin<Box<T>>", 1, || Box::new(Box::pin(Mem(1)))),
        ("Pin<&T>", 1, || Box::new(Pin::new(&MEMS[1]))),
        ("ManuallyDrop<T>", 1, || Box::new(ManuallyDrop::new(Mem(1)))),
        ("Rc<Arc<Box<T>>>", 1, || Box::new(Rc::new(Arc::new(Box::new(Mem(1)))))),
        ("custom", 1, || Box::new(Custom(Mem(1)))),
        ("AssertUnwindSafe<T>", 1, || Box::new(std::panic::AssertUnwindSafe(Mem(1)))),
        ("GlobalJitAlloc", 0, || Box::new(GlobalJitAlloc)),
        ("&GlobalJitAlloc", 0, || Box::new(&GlobalJitAlloc)),
    ];
    let mut idx = vec![0usize; depth];
    let total = (ops.len() as u64).pow(depth as u32);
    for code in 0..total {
        if code % shard.1 != shard.0 {
            continue;
        }
        let mut c = code;
        for x in idx.iter_mut() {
            *x = (c % ops.len() as u64) as usize;
            c /= ops.len() as u64;
        }
        let seq: Vec<Op> = idx.iter().map(|i| ops[*i]).collect();
        let mut reference: [Option<(Vec<Out>, Vec<Ev>)>; 2] = [None, None];
        for m in 0..2 {
            mem::reset();
            let mut live = vec![];
            let out: Vec<Out> = seq.iter().map(|o| apply(&MEMS[m], *o, &mut live)).collect();
            reference[m] = Some((out, sh().log.clone()));
        }
        // an operation on a block that is not there is not a case
        if reference[0].as_ref().unwrap().0.contains(&Out::Skip) {
            continue;
        }
        let rep = reference.each_ref().map(|r| r.as_ref().unwrap());
        for (name, m, mk) in &adapters {
            set_case(&format!("adapter {name}: {seq:?}"));
            mem::reset();
            let a = mk();
            let mut live = vec![];
            let out: Vec<Out> = seq.iter().map(|o| apply(&*a, *o, &mut live)).collect();
            stats().histories += 1;
            stats().transitions += seq.len() as u64;
            if out != rep[*m].0 {
                viol("C19", &format!("results {out:?} differ from direct use {:?}", rep[*m].0));
            }
            if sh().log != rep[*m].1 {
                viol("C19", &format!("effects {:?} differ from direct use {:?}", sh().log, rep[*m].1));
            }
        }
        stats().states.insert(code | 1 << 60);
    }
    let n = stats().histories;
    stats().spaces.push(("adapters".into(), n));
}
