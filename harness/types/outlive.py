"""Lifetimes and ownership: for every wrapper kind, form and storage bound, programs in which the
wrapper is used within, or beyond, the life of what its closure or allocator borrows."""
from compile import Program

PRELUDE = r'''
#![cfg_attr(feature = "unstable", feature(unsize))]
extern crate std;
extern crate mc_types;
pub use mc_types::closure_ffi::{self, *, traits::*, jit_alloc::*, cc, thunk_factory as tf};
pub use std::{marker::PhantomData, rc::Rc, sync::Arc, boxed::Box, prelude::v1::*, cell::Cell, sync::atomic::{AtomicU32, Ordering::SeqCst}};
pub struct Al(pub u32);
impl JitAlloc for Al {
    fn alloc(&self, _: usize) -> Result<(*const u8, *mut u8), JitAllocError> { Err(JitAllocError) }
    unsafe fn release(&self, _: *const u8) -> Result<(), JitAllocError> { Ok(()) }
    unsafe fn protect_jit_memory(&self, _: *const u8, _: usize, _: ProtectJitAccess) {}
    unsafe fn flush_instruction_cache(&self, _: *const u8, _: usize) {}
}
pub type B = unsafe extern "C" fn(u32) -> u32;
pub fn touch<T>(_: &T) {}
pub fn need_static<T: 'static>(_: T) {}
pub fn need_clone<T: Clone>() {}
pub fn need_copy<T: Copy>() {}
pub fn need_default<T: Default>() {}
'''

STORES = ("dyn Any", "dyn Send", "dyn Sync", "dyn Send + Sync")
KINDS = ("Once", "Mut", "")


def life(store, lt):
    return "%s + %s" % (store, lt)


def forms(kind, store, lt):
    """(name, type, conversion from the typed wrapper `w`)"""
    s = life(store, lt)
    return [
        ("typed", "BareFn%sAny<B, %s, A>" % (kind, s), "w"),
        ("untyped", "UntypedBareFn%s<%s, A>" % (kind, s), "w.into_untyped()"),
        ("from", "UntypedBareFn%s<%s, A>" % (kind, s), "UntypedBareFn%s::<%s, _>::from(w)" % (kind, s)),
        ("upcast", "BareFn%sAny<B, %s, A>" % (kind, s), "w.upcast::<%s>()" % s),
        ("untyped upcast", "UntypedBareFn%s<%s, A>" % (kind, s), "w.into_untyped().upcast::<%s>()" % s),
    ]


def routes(kind, store, alloc):
    """(name, is the closure packed, expression making a wrapper from `f`)"""
    any_ = "BareFn%sAny::<B, %s, _>" % (kind, life(store, "'_"))
    pre = {"Once": "_once", "Mut": "_mut", "": ""}[kind]
    suf = {"dyn Any": "", "dyn Send": "_send", "dyn Sync": "_sync", "dyn Send + Sync": "_send_sync"}[store]
    if alloc == "GlobalJitAlloc":
        return [("new", 0, any_ + "::new(f)"), ("new_c", 0, any_ + "::new_c(f)"), ("with_cc", 0, any_ + "::with_cc(cc::C, f)"),
                ("with_thunk pair", 0, any_ + "::with_thunk((cc::C, f))"),
                ("with_thunk made", 1, any_ + "::with_thunk(tf::make%s%s::<B, _>(f))" % (pre, suf))]
    return [("new_in", 0, any_ + "::new_in(f, al)"), ("new_c_in", 0, any_ + "::new_c_in(f, al)"),
            ("with_cc_in", 0, any_ + "::with_cc_in(cc::C, f, al)"), ("try_with_cc_in", 0, any_ + "::try_with_cc_in(cc::C, f, al).ok().unwrap()"),
            ("with_thunk_in pair", 0, any_ + "::with_thunk_in((cc::C, f), al)"),
            ("with_thunk_in made", 1, any_ + "::with_thunk_in(tf::make%s%s::<B, _>(f), al)" % (pre, suf)),
            ("try_with_thunk_in", 0, any_ + "::try_with_thunk_in((cc::C, f), al).ok().unwrap()")]


def programs(std, unstable):
    out = []

    def add(group, case, code, expect):
        out.append(Program(group, "%s: %s" % (group, case), code, expect))

    for kind in KINDS:
        for store in STORES:
            where = "%s %s" % (kind or "Fn", store)
            for alloc in ("GlobalJitAlloc", "&'static Al"):
                al = "" if alloc == "GlobalJitAlloc" else "static AL: Al = Al(0); let al: &'static Al = &AL; "
                for rname, packed, make in routes(kind, store, alloc):
                    body = "{ x.fetch_add(1, SeqCst) }"
                    head = "|(n,): (u32,)| -> u32" if packed else "|n: u32| -> u32"
                    borrow = "let x = &x; let f = move %s %s;" % (head, body)
                    own = "let x = AtomicU32::new(1); let f = move %s %s;" % (head, body)
                    for fname, ty, conv in forms(kind, store, "'_"):
                        if fname not in ("typed", "untyped") and rname not in ("new", "new_in", "with_thunk made"):
                            continue
                        ty = ty.replace(", A>", ", %s>" % alloc)
                        tyl = ty.replace("'_", "'l")
                        tys = ty.replace("'_", "'static")
                        case = "%s %s %s" % (where, rname, fname)
                        mk = "let w = %s; let w = %s;" % (make, conv)
                        # the data outlives the wrapper
                        add("used within the borrow", case, "pub fn f() { %s let x = AtomicU32::new(1); { %s %s touch(&w); } touch(&x); }" % (al, borrow, mk), True)
                        # the wrapper is kept beyond the data
                        add("kept beyond the borrow", case, "pub fn f() { %s let keep; { let x = AtomicU32::new(1); %s %s keep = w; } touch(&keep); }" % (al, borrow, mk), False)
                        # dropped after the data: also an access, by the closure's destructor
                        add("dropped beyond the borrow", case, "pub fn f() { %s let keep; let x = AtomicU32::new(1); %s %s keep = w; }" % (al, borrow, mk), False)
                        # data taken away while the wrapper lives
                        add("data moved while borrowed", case, "pub fn f() { %s let x = AtomicU32::new(1); let y = &x; { let x = y; %s %s drop(*Box::new(&x)); touch(&w); } touch(&x); }" % (al, borrow, mk), True)
                        add("data moved while borrowed", case + " (moved)", "pub fn f() { %s let z = AtomicU32::new(1); let w = { let x = &z; let f = move %s %s; %s w }; drop(z); touch(&w); }" % (al, head, body, mk), False)
                        # returned from a function
                        add("returned", case + " own", "pub fn f() -> %s { %s %s %s w }" % (tys, al, own, mk), True)
                        add("returned", case + " local borrow", "pub fn f<'l>() -> %s { %s let x = AtomicU32::new(1); %s %s w }" % (tyl, al, borrow, mk), False)
                        add("returned", case + " argument borrow", "pub fn f<'l>(x: &'l AtomicU32) -> %s { %s let f = move %s %s; %s w }" % (tyl, al, head, body, mk), True)
                        add("returned", case + " shorter borrow", "pub fn f<'l, 'm>(_: &'l u8, x: &'m AtomicU32) -> %s { %s let f = move %s %s; %s w }" % (tyl, al, head, body, mk), False)
                        add("returned", case + " static from borrow", "pub fn f<'l>(x: &'l AtomicU32) -> %s { %s let f = move %s %s; %s w }" % (tys, al, head, body, mk), False)
                        # leaking is for closures that own everything
                        add("leaked", case + " own", "pub fn f() { %s %s %s w.leak(); }" % (al, own, mk), True)
                        add("leaked", case + " borrow", "pub fn f() { %s let x = AtomicU32::new(1); %s %s w.leak(); }" % (al, borrow, mk), False)
                        # used after being given away
                        add("used after leak", case, "pub fn f() { %s %s %s w.leak(); touch(&w); }" % (al, own, mk), False)
                        add("used after drop", case, "pub fn f() { %s %s %s drop(w); touch(&w); }" % (al, own, mk), False)
                        # a bare function without giving up the wrapper, where calls may repeat
                        add("bare", case, "pub fn f() { %s %s %s let b = w.bare(); touch(&w); }" % (al, own, mk), kind != "Once")
                        # only one owner
                    # exclusive borrows
                    excl = "let f = |(n,): (u32,)| -> u32 { x += n; x };" if packed else "let f = |n: u32| -> u32 { x += n; x };"
                    if kind != "":
                        add("exclusive borrow", where + " " + rname, "pub fn f() { %s let mut x = 1u32; %s let w = %s; drop(w); x += 1; }" % (al, excl, make), True)
                        add("exclusive borrow", where + " " + rname + " while alive", "pub fn f() { %s let mut x = 1u32; %s let w = %s; x += 1; touch(&w); }" % (al, excl, make), False)
                        add("exclusive borrow", where + " " + rname + " until drop", "pub fn f() { %s let mut x = 1u32; %s let w = %s; x += 1; }" % (al, excl, make), False)
                    else:
                        add("mutating closure as Fn", where + " " + rname, "pub fn f() { %s let mut x = 1u32; %s let w = %s; }" % (al, excl, make), False)
                    # consuming closures
                    eat = "let s = String::new(); let f = move %s { drop(s); 0 };" % head
                    add("consuming closure", where + " " + rname, "pub fn f() { %s %s let w = %s; }" % (al, eat, make), kind == "Once")
            # allocators that are borrowed
            for fname, ty, conv in forms(kind, store, "'_"):
                own = "let x = AtomicU32::new(1); let f = move |n: u32| -> u32 { x.fetch_add(n, SeqCst) };"
                mk = "let w = BareFn%sAny::<B, %s, _>::new_in(f, al); let w = %s;" % (kind, life(store, "'_"), conv)
                case = where + " " + fname
                add("borrowed allocator", case + " within", "pub fn f() { let a = Al(0); { let al = &a; %s %s touch(&w); } touch(&a); }" % (own, mk), True)
                add("borrowed allocator", case + " beyond", "pub fn f() { let keep; { let a = Al(0); let al = &a; %s %s keep = w; } touch(&keep); }" % (own, mk), False)
                add("borrowed allocator", case + " dropped beyond", "pub fn f() { let keep; let a = Al(0); let al = &a; %s %s keep = w; }" % (own, mk), False)
                add("borrowed allocator", case + " moved away", "pub fn f() { let a = Al(0); let al = &a; %s %s drop(a); touch(&w); }" % (own, mk), False)
                add("borrowed allocator", case + " returned", "pub fn f<'l>() -> %s { let a = Al(0); let al = &a; %s %s w }" % (ty.replace("'_", "'static").replace(", A>", ", &'l Al>"), own, mk), False)
                add("borrowed allocator", case + " leaked", "pub fn f() { let a = Al(0); let al = &a; %s %s w.leak(); }" % (own, mk), False)
                add("borrowed allocator", case + " leaked static", "pub fn f() { static AL: Al = Al(0); let al = &AL; %s %s w.leak(); }" % (own, mk), True)
            # wrappers cannot be duplicated or made out of nothing
            for fname, ty, _ in forms(kind, store, "'static")[:2]:
                ty = ty.replace(", A>", ", GlobalJitAlloc>")
                for need in ("need_clone", "need_copy", "need_default"):
                    add("duplication", "%s %s %s" % (where, fname, need), "pub fn f() { %s::<%s>(); }" % (need, ty), False)
            # the bound can be shortened, never lengthened
            for l1, l2, ok in (("'long", "'short", True), ("'short", "'long", False), ("'short", "'static", False), ("'static", "'short", True), ("'static", "'static", True)):
                for fname, ty, _ in forms(kind, store, l1)[:2]:
                    ty = ty.replace(", A>", ", GlobalJitAlloc>")
                    s2 = life(store, l2)
                    case = "%s %s %s to %s" % (where, fname, l1, l2)
                    # where shortening is needed nothing promises the conversion; lengthening is never allowed
                    want = True if l1 == l2 else None if ok else False
                    if not unstable and ok:
                        want = True
                    add("upcast of lifetimes", case, "pub fn f<'short, 'long: 'short>(w: %s) { let u = w.upcast::<%s>(); }" % (ty, s2), want)
                    if fname == "typed":
                        add("From with lifetimes", case, "pub fn f<'short, 'long: 'short>(w: %s) { let u = UntypedBareFn%s::<%s, GlobalJitAlloc>::from(w); }" % (ty, kind, s2), want)
                    if not ok:
                        ret = ty.replace(l1, l2)
                        add("lifetime changed by coercion", case, "pub fn f<'short, 'long: 'short>(w: %s) -> %s { w }" % (ty, ret), False)
                        add("lifetime changed by coercion", case + " (ref)", "pub fn f<'short, 'long: 'short, 'r>(w: &'r %s) -> &'r %s { w }" % (ty, ret), False)
                        if fname == "typed":
                            add("lifetime changed by into_untyped", case, "pub fn f<'short, 'long: 'short>(w: %s) -> UntypedBareFn%s<%s> { w.into_untyped() }" % (ty, kind, s2), False)
    # kinds of closures follow the kinds of wrappers in conversions: no route between kinds
    for k1 in KINDS:
        for k2 in KINDS:
            if k1 != k2:
                add("kind conversion", "%s to %s" % (k1 or "Fn", k2 or "Fn"),
                    "pub fn f(w: BareFn%sAny<B, dyn Any>) { let u = UntypedBareFn%s::<dyn Any, _>::from(w); }" % (k1, k2), False)
            else:
                add("kind conversion", "%s to %s" % (k1 or "Fn", k2 or "Fn"),
                    "pub fn f(w: BareFn%sAny<B, dyn Any>) { let u = UntypedBareFn%s::<dyn Any, _>::from(w); }" % (k1, k2), True)
    return out
