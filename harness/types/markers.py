"""Thread-safety markers: the whole table of wrapper kinds, storage bounds, allocators, closures and
routes, each entry decided by the compiler and compared with the rule stated by the property."""
from compile import Program

PRELUDE = r'''
#![cfg_attr(feature = "unstable", feature(unsize))]
extern crate std;
extern crate mc_types;
pub use mc_types::closure_ffi::{self, *, traits::*, jit_alloc::*, cc, thunk_factory as tf};
pub use std::{marker::PhantomData, rc::Rc, sync::Arc, boxed::Box, prelude::v1::*};
#[derive(Clone)] pub struct Ne(pub PhantomData<*mut ()>);
#[derive(Clone)] pub struct Se(pub PhantomData<std::cell::Cell<()>>);
#[derive(Clone)] pub struct Sy(pub PhantomData<std::sync::MutexGuard<'static, ()>>);
#[derive(Clone)] pub struct Bo(pub PhantomData<()>);
pub trait Mk: Clone { fn mk() -> Self; }
impl Mk for Ne { fn mk() -> Self { Ne(PhantomData) } }
impl Mk for Se { fn mk() -> Self { Se(PhantomData) } }
impl Mk for Sy { fn mk() -> Self { Sy(PhantomData) } }
impl Mk for Bo { fn mk() -> Self { Bo(PhantomData) } }
impl Mk for GlobalJitAlloc { fn mk() -> Self { Default::default() } }
#[cfg(feature = "std")]
impl Mk for ThreadJitAlloc { fn mk() -> Self { Default::default() } }
macro_rules! alloc { ($($t:ty)*) => { $(
    impl JitAlloc for $t {
        fn alloc(&self, _: usize) -> Result<(*const u8, *mut u8), JitAllocError> { Err(JitAllocError) }
        unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> { Ok(()) }
        unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
        unsafe fn flush_instruction_cache(&self, _: *const u8, _: usize) {}
    }
)* } }
alloc! { Ne Se Sy Bo }
pub fn get<T>() -> T { unimplemented!() }
pub fn send<T: Send>() {}
pub fn sync<T: Sync>() {}
pub fn send_v<T: Send>(_: T) {}
pub fn sync_v<T: Sync>(_: &T) {}
pub trait Custom {}
impl<T> Custom for T {}
pub type B = unsafe extern "C" fn(u32) -> u32;
pub type BRc = unsafe extern "C" fn(Rc<u8>) -> *mut u8;
'''

# marker sets as (Send, Sync)
CLOSURES = {"Ne": (0, 0), "Se": (1, 0), "Sy": (0, 1), "Bo": (1, 1)}
STORES = {"dyn Any": (0, 0), "dyn Send": (1, 0), "dyn Sync": (0, 1), "dyn Send + Sync": (1, 1)}
MORE_STORES = {"dyn Custom": (0, 0), "dyn Custom + Send": (1, 0), "dyn Custom + Sync": (0, 1),
               "dyn Custom + Send + Sync": (1, 1)}
KINDS = ("Once", "Mut", "")


def allocators(std):
    out = {"GlobalJitAlloc": (1, 1)}
    if std:
        out["ThreadJitAlloc"] = (0, 0)
    for a, (se, sy) in CLOSURES.items():
        out[a] = (se, sy)
        out["&'static " + a] = (sy, sy)
        out["Rc<%s>" % a] = (0, 0)
        out["Arc<%s>" % a] = (se & sy, se & sy)
        out["Box<%s>" % a] = (se, sy)
    return out


def covers(have, want):
    return have[0] >= want[0] and have[1] >= want[1]


def wrapper_markers(kind, s, a):
    """What the wrapper's own markers must be, from those of its storage bound and its allocator."""
    return (s[0] & a[0], s[1] if kind == "" else s[0])


def programs(std, unstable):
    stores = dict(STORES)
    if unstable:
        stores.update(MORE_STORES)
    out = []

    def add(group, case, code, expect):
        out.append(Program(group, "%s: %s" % (group, case), "pub fn f() { %s }" % code, expect))

    # markers of allocator handles
    for a, (se, sy) in allocators(std).items():
        add("allocator handle", a + " Send", "send::<%s>();" % a, bool(se))
        add("allocator handle", a + " Sync", "sync::<%s>();" % a, bool(sy))

    # markers of the wrapper types themselves
    for kind in KINDS:
        for sname, s in stores.items():
            for aname, a in allocators(std).items():
                m = wrapper_markers(kind, s, a)
                for ty in ("BareFn%sAny<B, %s, %s>" % (kind, sname, aname), "BareFn%sAny<BRc, %s, %s>" % (kind, sname, aname),
                           "UntypedBareFn%s<%s, %s>" % (kind, sname, aname)):
                    add("wrapper type Send", ty, "send::<%s>();" % ty, bool(m[0]))
                    add("wrapper type Sync", ty, "sync::<%s>();" % ty, bool(m[1]))
        for aname, a in allocators(std).items():
            for alias, s in (("BareFn%s<'static, B, %s>" % (kind, aname), (0, 0)),
                             ("BareFn%sSync<'static, B, %s>" % (kind, aname), (1, 1) if kind == "" else (1, 0))):
                m = wrapper_markers(kind, s, a)
                add("alias Send", alias, "send::<%s>();" % alias, bool(m[0]))
                add("alias Sync", alias, "sync::<%s>();" % alias, bool(m[1]))

    # closures into constructors
    shorthands = ["rust", "c", "system", "efiabi"] + (["sysv64"] if "x86_64" in TRIPLE else [])
    for kind in KINDS:
        for cname, c in CLOSURES.items():
            clo = "let m = %s::mk(); let f = move |x: u32| -> u32 { let _ = &m; x };" % cname
            pclo = "let m = %s::mk(); let f = move |(x,): (u32,)| -> u32 { let _ = &m; x };" % cname
            for sname, s in stores.items():
                ok = covers(c, s)
                w = "BareFn%sAny::<_, %s, _>" % (kind, sname)
                wb = "BareFn%sAny::<B, %s, _>" % (kind, sname)
                routes = [("new", wb + "::new(f)"), ("new_in", wb + "::new_in(f, Bo::mk())"),
                          ("with_cc", w + "::with_cc(cc::C, f)"), ("with_cc_in", w + "::with_cc_in(cc::C, f, Bo::mk())"),
                          ("try_with_cc_in", w + "::try_with_cc_in(cc::C, f, Bo::mk()).ok()")]
                for h in shorthands:
                    routes.append(("new_" + h, "%s::new_%s(f)" % (w, h)))
                    routes.append(("new_%s_in" % h, "%s::new_%s_in(f, Bo::mk())" % (w, h)))
                for r, expr in routes:
                    add("constructor " + r, "%s closure %s storage %s" % (kind or "Fn", cname, sname), "%s let w = %s;" % (clo, expr), ok)
                # thunks handed to the wrapper
                thunks = [("plain pair", clo, "(cc::C, f)", (1, 1)),
                          ("FnPtr::make", pclo, "<B as FnPtr>::make%s_thunk(f)" % {"Once": "_once", "Mut": "_mut", "": ""}[kind], None)]
                for suffix, promise in (("", None), ("_send", (1, 0)), ("_sync", (0, 1)), ("_send_sync", (1, 1))):
                    fac = "make%s%s" % ({"Once": "_once", "Mut": "_mut", "": ""}[kind], suffix)
                    thunks.append((fac, pclo, "tf::%s::<B, _>(f)" % fac, promise))
                for t, pre, expr, promise in thunks:
                    if t == "plain pair":
                        want = ok
                    elif not ok:
                        want = False            # never a closure lacking a marker of the storage
                    elif promise is not None and not covers(c, promise):
                        want = False            # the factory itself must refuse the closure
                    elif covers(promise or (0, 0), s):
                        want = True
                    else:
                        want = None             # the factory promises less than the storage asks for
                    for r in ("with_thunk(%s)", "with_thunk_in(%s, Bo::mk())", "try_with_thunk_in(%s, Bo::mk()).ok()"):
                        add("thunk route %s %s" % (t, r.split("(")[0]), "%s closure %s storage %s" % (kind or "Fn", cname, sname),
                            "%s let w = %s::%s;" % (pre, wb, r % expr), want)

            # markers of the thunks
            for suffix, promise in (("", (0, 0)), ("_send", (1, 0)), ("_sync", (0, 1)), ("_send_sync", (1, 1))):
                fac = "make%s%s" % ({"Once": "_once", "Mut": "_mut", "": ""}[kind], suffix)
                expr = "tf::%s::<B, _>(f)" % fac
                made = covers(c, promise)
                add("factory " + fac, "closure %s" % cname, "%s let t = %s;" % (pclo, expr), made)
                for i, mark in enumerate(("send_v(t)", "sync_v(&t)")):
                    want = True if made and promise[i] else None if made and c[i] else False
                    add("factory result " + mark, "%s closure %s" % (fac, cname), "%s let t = %s; %s;" % (pclo, expr, mark), want)
            fac = "make%s_thunk" % {"Once": "_once", "Mut": "_mut", "": ""}[kind]
            for i, mark in enumerate(("send_v(t)", "sync_v(&t)")):
                add("made thunk " + mark, "%s closure %s" % (fac, cname), "%s let t = <B as FnPtr>::%s(f); %s;" % (pclo, fac, mark),
                    None if c[i] else False)

    # the factories in generic code, where only the declared bounds are known
    for kind in KINDS:
        tr = {"Once": "PackedFnOnce", "Mut": "PackedFnMut", "": "PackedFn"}[kind]
        for bounds, c in (("", (0, 0)), ("Send +", (1, 0)), ("Sync +", (0, 1)), ("Send + Sync +", (1, 1))):
            for suffix, promise in (("", (0, 0)), ("_send", (1, 0)), ("_sync", (0, 1)), ("_send_sync", (1, 1))):
                fac = "make%s%s" % ({"Once": "_once", "Mut": "_mut", "": ""}[kind], suffix)
                made = covers(c, promise)
                for mark in ("", "send_v(t)", "sync_v(&t)"):
                    i = {"": None, "send_v(t)": 0, "sync_v(&t)": 1}[mark]
                    want = made if i is None else True if made and promise[i] else None if made and c[i] else False
                    out.append(Program("generic factory " + mark, "%s with closure bound '%s'" % (fac, bounds),
                                       "pub fn f<P: FnPtr, F>(f: F) where F: %s for<'x, 'y, 'z> %s<'x, 'y, 'z, P> { let t = tf::%s::<P, _>(f); %s; }"
                                       % (bounds, tr, fac, mark), want))

    # conversions between storage bounds
    for kind in KINDS:
        for s1, m1 in stores.items():
            for s2, m2 in stores.items():
                if "Custom" in s2 and "Custom" not in s1:
                    continue
                # the trait of the object itself may only be given up for the empty one
                ok = covers(m1, m2) if not ("Custom" in s1) else (covers(m1, m2) if "Custom" in s2 else None if covers(m1, m2) else False)
                if unstable and "Custom" not in s1 + s2 and ok and s1 != s2:
                    ok = None
                for r, code in (
                    ("typed upcast", "let w: BareFn%sAny<B, %s> = get(); let u = w.upcast::<%s>();" % (kind, s1, s2)),
                    ("untyped upcast", "let w: UntypedBareFn%s<%s> = get(); let u = w.upcast::<%s>();" % (kind, s1, s2)),
                    ("From", "let w: BareFn%sAny<B, %s> = get(); let u = UntypedBareFn%s::<%s, _>::from(w);" % (kind, s1, kind, s2)),
                ):
                    add("conversion " + r, "%s %s to %s" % (kind or "Fn", s1, s2), code, ok)
            # conversions without an explicit change of bound keep it
            add("into_untyped", "%s %s" % (kind, s1), "let w: BareFn%sAny<B, %s> = get(); let u: UntypedBareFn%s<%s> = w.into_untyped();" % (kind, s1, kind, s1), True)
            for s2, m2 in stores.items():
                if not covers(m1, m2):
                    add("into_untyped changes bound", "%s %s to %s" % (kind, s1, s2),
                        "let w: BareFn%sAny<B, %s> = get(); let u: UntypedBareFn%s<%s> = w.into_untyped();" % (kind, s1, kind, s2), False)
    return out
