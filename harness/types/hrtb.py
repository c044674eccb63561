"""bare_hrtb!: a grammar of function-pointer aliases, each one expanded by the real macro, compiled,
wrapped around closures by every route, and called; plus programs that must not compile."""
import os
import re
import subprocess
import tempfile

import compile as comp
from compile import Program

PRELUDE = r'''
#![no_std]
extern crate std as stdlib; // nothing generated may rely on a crate called std
extern crate mc_types;
pub use mc_types::closure_ffi::{self, *, traits::*, jit_alloc::*, cc, thunk_factory as tf, bare_closure::bare_hrtb};
pub use stdlib::{cell::{Cell, RefCell}, marker::PhantomData, mem, rc::Rc, boxed::Box, prelude::v1::*, format, string::*, vec::*, vec};
#[derive(Clone, Copy)] #[repr(C)] pub struct Pair<'l>(pub &'l u32, pub u64);
#[derive(Clone, Copy)] #[repr(C)] pub struct Two<'l, 'm>(pub &'l u32, pub &'m u64);
#[derive(Clone, Copy)] #[repr(C)] pub struct Big(pub [u64; 3]);
#[derive(Clone, Copy)] #[repr(C)] pub struct Zst;
#[repr(C)] pub struct RefMut<'l, T>(pub &'l mut T);
#[derive(Clone, Copy)] #[repr(C)] pub struct F(pub u32);
pub trait Tr { type Out: Copy + V; fn id(&self) -> u64; }
impl Tr for u32 { type Out = u16; fn id(&self) -> u64 { *self as u64 } }
impl Tr for u64 { type Out = f64; fn id(&self) -> u64 { *self } }
pub type Nested = for<'z> unsafe extern "C" fn(&'z u32) -> &'z u32;
unsafe extern "C" fn nested(x: &u32) -> &u32 { x }
pub fn leak<T>(t: T) -> &'static mut T { Box::leak(Box::new(t)) }
/// Values to pass: made from a number, and recognised again by it.
pub trait V { fn mk(n: u32) -> Self; fn dig(&self) -> u64; }
macro_rules! ints { ($($t:ty)*) => { $( impl V for $t { fn mk(n: u32) -> Self { (n as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) as $t } fn dig(&self) -> u64 { *self as u64 } } )* } }
ints! { u8 i8 u16 i16 u32 i32 u64 i64 usize u128 }
impl V for f32 { fn mk(n: u32) -> Self { n as f32 + 0.5 } fn dig(&self) -> u64 { self.to_bits() as u64 } }
impl V for f64 { fn mk(n: u32) -> Self { n as f64 + 0.25 } fn dig(&self) -> u64 { self.to_bits() } }
impl V for bool { fn mk(n: u32) -> Self { n % 2 == 0 } fn dig(&self) -> u64 { *self as u64 } }
impl V for () { fn mk(_: u32) -> Self {} fn dig(&self) -> u64 { 7 } }
impl V for Zst { fn mk(_: u32) -> Self { Zst } fn dig(&self) -> u64 { 9 } }
impl V for F { fn mk(n: u32) -> Self { F(n) } fn dig(&self) -> u64 { self.0 as u64 } }
impl V for Big { fn mk(n: u32) -> Self { Big([n as u64, n as u64 + 1, !(n as u64)]) } fn dig(&self) -> u64 { self.0[0] ^ self.0[1].rotate_left(8) ^ self.0[2].rotate_left(16) } }
impl V for *const u8 { fn mk(n: u32) -> Self { n as usize as *const u8 } fn dig(&self) -> u64 { *self as usize as u64 } }
impl V for Nested { fn mk(_: u32) -> Self { nested } fn dig(&self) -> u64 { *self as usize as u64 } }
impl<T: V + 'static> V for &T { fn mk(n: u32) -> Self { leak(T::mk(n)) } fn dig(&self) -> u64 { T::dig(self) ^ (*self as *const T as usize as u64) << 1 } }
impl<T: V + 'static> V for &mut T { fn mk(n: u32) -> Self { leak(T::mk(n)) } fn dig(&self) -> u64 { T::dig(self) ^ (&**self as *const T as usize as u64) << 1 } }
impl V for &str { fn mk(n: u32) -> Self { leak(format!("s{n}")) } fn dig(&self) -> u64 { self.as_ptr() as usize as u64 ^ (self.len() as u64) << 56 } }
impl V for &[u16] { fn mk(n: u32) -> Self { leak(vec![n as u16; n as usize % 5 + 1]) } fn dig(&self) -> u64 { self.as_ptr() as usize as u64 ^ (self.len() as u64) << 56 } }
impl<T: V> V for Option<T> { fn mk(n: u32) -> Self { if n % 3 == 0 { None } else { Some(T::mk(n)) } } fn dig(&self) -> u64 { self.as_ref().map_or(3, |t| t.dig()) } }
impl<T: V> V for Box<T> { fn mk(n: u32) -> Self { Box::new(T::mk(n)) } fn dig(&self) -> u64 { T::dig(self) ^ (&**self as *const T as usize as u64) << 1 } }
impl<T: V, const N: usize> V for [T; N] { fn mk(n: u32) -> Self { stdlib::array::from_fn(|i| T::mk(n + i as u32)) } fn dig(&self) -> u64 { self.iter().fold(5, |a, t| a.rotate_left(7) ^ t.dig()) } }
impl V for Pair<'_> { fn mk(n: u32) -> Self { Pair(leak(n), !(n as u64)) } fn dig(&self) -> u64 { self.0 as *const u32 as usize as u64 ^ self.1 } }
impl V for Two<'_, '_> { fn mk(n: u32) -> Self { Two(leak(n), leak(n as u64)) } fn dig(&self) -> u64 { self.0 as *const u32 as usize as u64 ^ (self.1 as *const u64 as usize as u64) << 3 } }
impl<T: V + 'static> V for RefMut<'_, T> { fn mk(n: u32) -> Self { RefMut(leak(T::mk(n))) } fn dig(&self) -> u64 { T::dig(self.0) ^ (&*self.0 as *const T as usize as u64) << 1 } }
pub struct Dyn; impl Tr for Dyn { type Out = u16; fn id(&self) -> u64 { 11 } }
impl V for &dyn Tr<Out = u16> { fn mk(n: u32) -> Self { leak(n) } fn dig(&self) -> u64 { self.id() ^ (*self as *const dyn Tr<Out = u16> as *const u8 as usize as u64) << 1 } }
stdlib::thread_local! { pub static LOG: RefCell<Vec<u64>> = RefCell::new(Vec::new()); pub static STEP: Cell<u64> = Cell::new(0); pub static NOW: RefCell<String> = RefCell::new(String::new()); }
pub fn log(d: Vec<u64>) { LOG.with(|l| *l.borrow_mut() = d) }
pub fn taken() -> Vec<u64> { LOG.with(|l| mem::take(&mut *l.borrow_mut())) }
pub fn same<T: PartialEq + stdlib::fmt::Debug>(what: &str, got: T, want: T) { STEP.with(|s| s.set(s.get() + 1)); if got != want { panic!("{what}: {got:?} instead of {want:?}") } }
stdlib::thread_local! { pub static SEEN: Cell<u64> = Cell::new(0); pub static DROPS: Cell<u64> = Cell::new(0); }
pub struct Cap(pub u64, pub u64); impl Drop for Cap { fn drop(&mut self) { DROPS.with(|d| d.set(d.get() + self.1)) } }
pub fn seen(v: u64) { SEEN.with(|s| s.set(v)) }
pub fn fresh() { DROPS.with(|d| d.set(0)); seen(0) }
pub fn now(s: &str) { NOW.with(|n| *n.borrow_mut() = s.to_string()) }
'''

ABIS = ["", 'extern "C" ', 'extern "C-unwind" ', 'extern "system" ', 'extern "system-unwind" ', 'extern "efiapi" ', 'extern "Rust" ', "extern "]
ABIS_X64 = ['extern "sysv64" ', 'extern "sysv64-unwind" ', 'extern "win64" ', 'extern "win64-unwind" ']


class Alias:
    """One alias: its text, and the instance of it that is exercised."""

    def __init__(self, space, text, args, ret, lts=0, name="A", inst="", use_ret=None):
        self.space, self.text, self.args, self.ret = space, text, args, ret
        self.lts, self.name, self.inst = lts, name, inst
        self.use_ret = use_ret

    def code(self, body=True):
        """A module body: the alias, and a function `run` exercising it."""
        ty = self.name + (self.inst and "::" + self.inst)
        n = len(self.args)
        names = ["a%d" % i for i in range(n)]
        digs = "vec![%s]" % ", ".join("V::dig(&%s)" % x for x in names)
        # the value to return: an argument when the type is borrowed, else made anew
        ret = names[self.use_ret] if self.use_ret is not None else "V::mk(77)" if self.ret else "()"
        packed = "(%s)" % "".join(x + "," for x in names)
        clo = lambda pre, pat: "move |%s| { %s log(%s); %s }" % (pat, pre, digs, ret)
        plain = ", ".join(names)
        # a fresh set of arguments for every call; digests taken before they are passed
        call = lambda e: ("{ %s let want = %s; let r = %s; %s let got = taken(); same(\"arguments\", got, want); }" % (
            " ".join("let %s%s = V::mk(%d + 10 * STEP.with(|s| s.get() as u32 %% 7));" % (x, "", i + 1) for i, x in enumerate(names)),
            digs, e,
            "same(\"result\", V::dig(&r), want[%d]);" % self.use_ret if self.use_ret is not None else
            "same(\"result\", V::dig(&r), { let x = V::mk(77); let mut y = r; let z = V::dig(&y); y = x; let _ = z; V::dig(&y) });" if self.ret and self.boxed() is False else
            ""))
        ann = self.annotated()
        out = [self.text]
        if not body:
            return "\n".join(out)
        P = ann
        out.append("pub fn run() { unsafe {")
        out.append("type P = %s; type T = %s;" % (P, self.name + self.inst))
        for kind, fac in (("Once", "_once"), ("Mut", "_mut"), ("", "")):
            routes = [("new", "BareFn%s::<T>::new(%s)" % (kind, clo("CAP", plain))),
                      ("with_cc", "BareFn%s::<T>::with_cc(T::cc(), %s)" % (kind, clo("CAP", plain))),
                      ("new_in", "BareFn%s::<T, _>::new_in(%s, GlobalJitAlloc)" % (kind, clo("CAP", plain))),
                      ("make", "BareFn%sAny::<T, dyn Any>::with_thunk(<T as FnPtr>::make%s_thunk(%s))" % (kind, fac, clo("CAP", packed))),
                      ("make_send", "BareFn%sAny::<T, dyn Send>::with_thunk(tf::make%s_send::<T, _>(%s))" % (kind, fac, clo("CAP", packed)))]
            for rname, expr in routes:
                for cap in (0, 1):
                    # every route with one convention, two of them elsewhere
                    if not (self.space == "relation" or self.space == "convention" and 'extern "C" ' in self.text) and (rname, cap) not in (("new", 1), ("make", 0)):
                        continue
                    now = "now(\"%s %s %s\");" % (kind or "Fn", rname, "capturing" if cap else "plain")
                    # the captured value counts its calls (FnMut), and how often it is dropped
                    setup = "let %sc = Cap(5, 1);" % ("mut " if kind == "Mut" else "") if cap else ""
                    pre = {"Once": "let c = c; seen(c.0);", "Mut": "let c = &mut c; c.0 += 1; seen(c.0);", "": "let c = &c; seen(c.0);"}[kind] if cap else ""
                    e = expr.replace("CAP", pre)
                    state = lambda k: "same(\"state\", SEEN.with(|s| s.get()), %d);" % (5 + (k if kind == "Mut" else 0)) if cap else ""
                    end = "same(\"drops\", DROPS.with(|d| d.get()), %d);" % cap
                    if kind == "Once":
                        out.append("{ fresh(); %s %s let w = %s; let b: P = w.leak().into(); %s %s %s }" % (now, setup, e, call("b(%s)" % plain), state(0), end))
                    else:
                        out.append("{ fresh(); %s %s { let w = %s; let a: T = w.bare(); let b: P = a.into(); %s same(\"drops\", DROPS.with(|d| d.get()), 0); } %s }" % (
                            now, setup, e, " ".join(call(c) + state(k + 1) for k, c in enumerate((
                                "b(%s)" % plain, "(a.0)(%s)" % plain, "(*a)(%s)" % plain, "FnPtr::call(a, %s)" % packed))), end))
            if "unwind" in self.text or "Rust" in self.text or "extern" not in self.text:
                # panics travel to the caller
                route = "BareFn%s::<T>::new(move |%s| { let _c = &c; %s log(vec![]); if SEEN.with(|s| s.get()) == 0 { stdlib::panic::panic_any(41u8) } %s })" % (kind, plain, "".join("let _ = &%s;" % x for x in names), ret)
                out.append("{ fresh(); now(\"%s panic\"); { let c = Cap(5, 1); let w = %s; let b: P = w.%s().into();" % (kind or "Fn", route, "leak" if kind == "Once" else "bare"))
                out.append("%s let r = stdlib::panic::catch_unwind(stdlib::panic::AssertUnwindSafe(move || { b(%s); })); same(\"panic\", r.err().and_then(|e| e.downcast_ref::<u8>().copied()), Some(41)); } %s }" % (
                    " ".join("let %s = V::mk(%d);" % (x, i + 1) for i, x in enumerate(names)), plain, "same(\"drops\", DROPS.with(|d| d.get()), 1);"))
        # closures of one word, without a destructor, that change in calls
        for kind, decl, pre in (("", "c", "c.set(c.get() + 1); seen(c.get() as u64);"), ("Mut", "mut c", "let c = &mut c; c.set(c.get() + 1); seen(c.get() as u64);")):
            out.append("{ fresh(); now(\"%s word\"); let %s = stdlib::cell::Cell::new(5usize); let w = BareFn%s::<T>::new(%s); let b: P = w.bare().into(); %s }" % (
                kind or "Fn", decl, kind, clo(pre, plain),
                " ".join(call("b(%s)" % plain) + "same(\"state\", SEEN.with(|s| s.get()), %d);" % k for k in (6, 7))))
        # the thunks of packed closures, called without a wrapper
        pre = {"once": "let c = c; seen(c.0);", "mut": "let c = &mut c; c.0 += 1; seen(c.0);", "": "let c = &c; seen(c.0);"}
        for kind, fac in (("once", "make_once_thunk"), ("mut", "make_mut_thunk"), ("", "make_thunk")):
            ways = [("FnOnceThunk", "call_once", "t")]
            if kind != "once":
                ways.insert(0, ("FnMutThunk", "call_mut", "&mut t"))
            if kind == "":
                ways.insert(0, ("FnThunk", "call", "&t"))
            out.append("{ fresh(); now(\"%s thunk\"); let %sc = Cap(5, 1); #[allow(unused_mut)] let mut t = <T as FnPtr>::%s(%s);" % (
                kind or "Fn", "mut " if kind == "mut" else "", fac, clo(pre[kind], packed)))
            for k, (tr, m, recv) in enumerate(ways):
                out.append(call("%s::<T>::%s(%s, %s)" % (tr, m, recv, packed)) + "same(\"state\", SEEN.with(|s| s.get()), %d);" % (5 + (k + 1 if kind == "mut" else 0)))
            out.append("same(\"drops\", DROPS.with(|d| d.get()), 1); }")
        # the alias and the pointer are interchangeable
        out.append("now(\"conversions\");")
        out.append("let w = BareFn::<T>::new(%s); let t: T = w.bare(); let p: P = t.into(); let t2 = T::from(p); let t3 = t2; let t4 = t2.clone();" % clo("", plain))
        out.append("same(\"address\", p as usize, t3.0 as usize); same(\"address\", t4.to_ptr() as usize, p as usize); same(\"address\", (*t3) as usize, p as usize);")
        out.append("same(\"address\", T::from_ptr(p as *const ()).0 as usize, p as usize); same(\"bits\", mem::transmute::<T, P>(t) as usize, p as usize);")
        out.append("same(\"bits\", mem::transmute::<P, T>(p).to_ptr() as usize, p as usize);")
        out.append("same(\"layout\", [mem::size_of::<T>(), mem::align_of::<T>(), mem::size_of::<Option<T>>()], [mem::size_of::<P>(), mem::align_of::<P>(), mem::size_of::<Option<P>>()]);")
        out.append("same(\"debug\", format!(\"{t:?}\"), format!(\"%s({p:?})\"));" % self.name)
        out.append(call("t(%s)" % plain))
        out.append("} }")
        return "\n".join(out)

    def boxed(self):
        return any(x in self.ret for x in ("&", "Box", "Pair", "Two", "RefMut"))

    def annotated(self):
        """The plain pointer type of the instance."""
        return self.pointer


def make(space, abi, unsafe, lts, args, ret, generics="", where="", vis="", attrs="", inst="", name="A", concrete=None, use_ret=None):
    names = ["'a", "'b", "'c", "'d"][:lts]
    fl = "for<%s> " % ", ".join(names) if lts else ""
    def ptr(un, sub):
        a = ", ".join(args)
        r = " -> " + ret if ret else ""
        s = "%s%s%sfn(%s)%s" % (fl, "unsafe " if un else "", abi, a, r)
        for k, v in sub:
            s = re.sub(r"(?<![\w'])%s(?!\w)" % re.escape(k), v, s) if k.isalnum() else s.replace(k, v)
        return s
    if where == "":
        text = "bare_hrtb! { %s %s type %s%s = %s; }" % (attrs, vis, name, generics, ptr(unsafe, ()))
    else:
        text = "bare_hrtb! { %s %s type %s%s where %s = %s; }" % (attrs, vis, name, generics, where, ptr(unsafe, ()))
    al = Alias(space, text, args, ret, lts, name, inst, use_ret)
    al.pointer = ptr(True, concrete or ())
    return al


def atoms(l):
    """Argument types that mention the lifetime l."""
    return ["&%s u32" % l, "&%s mut u64" % l, "Option<&%s u16>" % l, "Pair<%s>" % l, "&%s str" % l, "&%s [u16]" % l, "&%s &'static u8" % l,
            "RefMut<%s, u32>" % l, "Option<Pair<%s>>" % l, "&%s dyn Tr<Out = u16>" % l, "Box<&%s u32>" % l]


PLAIN = ["u8", "i16", "u32", "i64", "f32", "f64", "*const u8", "Big", "Zst", "Nested", "u128", "bool", "Option<f32>", "F", "Box<u8>", "()"]


def aliases(x64, tier):
    out = []
    abis = ABIS + (ABIS_X64 if x64 else [])
    lt = ["'a", "'b", "'c"]
    # conventions, safety, number of lifetimes
    for abi in abis:
        for unsafe in (False, True):
            for lts in range(4):
                args = ["u32", "f64"] + ["&%s u32" % l for l in lt[:lts]] + ["Big"]
                out.append(make("convention", abi, unsafe, lts, args, "u64"))
                for k in range(lts):
                    out.append(make("convention", abi, unsafe, lts, args, "&%s u32" % lt[k], use_ret=2 + k))
            out.append(make("convention", abi, unsafe, 0, [], ""))
            out.append(make("convention", abi, unsafe, 1, ["&'a mut u64"], ""))
    # arities
    for n in range(13):
        for shift in range(0, 8 if tier == "thorough" else 3):
            cyc = [atoms("'a")[0], PLAIN[3], atoms("'b")[3], PLAIN[5], atoms("'c")[4], PLAIN[7], PLAIN[0], atoms("'a")[1], PLAIN[4], PLAIN[6], atoms("'b")[2]]
            args = [cyc[(i + 4 * shift) % len(cyc)] for i in range(n)]
            lts = 3
            used = {l for l in lt if any(l in a for a in args)}
            # a lifetime the signature does not mention is legal as well
            out.append(make("arity", 'extern "C" ', shift % 2 == 0, lts, args, "u64" if n % 2 else ""))
    # every type in every role
    for i, t in enumerate(PLAIN):
        out.append(make("type", 'extern "C" ', False, 0, [t], t, use_ret=0))
        out.append(make("type", 'extern "C" ', False, 1, ["&'a u32", t], t if t != "()" else "", use_ret=None))
        out.append(make("type", 'extern "C-unwind" ', True, 2, [t, "&'a " + t, "&'b mut " + t] if t != "()" else [t], "&'a " + t if t != "()" else "", use_ret=1 if t != "()" else None))
    for l in range(3):
        for t in atoms(lt[l]):
            out.append(make("type", 'extern "C" ', False, l + 1, [t], t, use_ret=0))
            out.append(make("type", 'extern "C" ', True, l + 1, ["u8", t, "f64"], "u8"))
    if tier == "thorough":
        for t in atoms("'a") + PLAIN:
            for u in atoms("'b") + PLAIN:
                out.append(make("pair", 'extern "C" ', False, 2, [t, u], t, use_ret=0))
                out.append(make("pair", 'extern "C" ', False, 2, [t, u], u, use_ret=1))
    # relations between lifetimes
    for args, ret, use in ((["Two<'a, 'b>"], "Two<'a, 'b>", 0), (["Two<'a, 'b>", "Two<'b, 'a>"], "Two<'b, 'a>", 1), (["&'a u32", "&'b u32", "&'c u32"], "&'c u32", 2),
                           (["&'a &'b u32"], "&'a u32", None), (["&'a &'b u32"], "&'b u32", None), (["&'a Pair<'b>"], "Pair<'b>", None)):
        if use is not None:
            out.append(make("relation", 'extern "C" ', False, 3, args, ret, use_ret=use))
    # generic parameters
    C = 'extern "C" '
    T = "T"
    for tname in ("T", "X", "F", "U0"):
        s = ((tname, "u32"),)
        g = lambda b: "<%s%s>" % (tname, b)
        out.append(make("generic", C, False, 0, [tname, "u8"], tname, generics=g(""), inst="<u32>", concrete=s, use_ret=0))
        out.append(make("generic", C, False, 1, ["&'a " + tname, tname], "&'a " + tname, generics=g(": 'static"), inst="<u32>", concrete=s, use_ret=0))
        out.append(make("generic", C, True, 1, ["RefMut<'a, %s>" % tname, "f64"], "u8", generics=g(": Copy + 'static"), inst="<u64>", concrete=((tname, "u64"),)))
        out.append(make("generic", C, False, 2, ["&'a " + tname, "&'b u8"], "&'b u8", generics=g(""), where="%s: 'static" % tname, inst="<u32>", concrete=s, use_ret=1))
        out.append(make("generic", C, False, 1, ["&'a u32", "<%s as Tr>::Out" % tname], "<%s as Tr>::Out" % tname, generics=g(": Tr"), inst="<u32>", concrete=s, use_ret=1))
        out.append(make("generic", C, False, 1, ["&'a u32", "<%s as Tr>::Out" % tname], "u8", generics=g(""), where="%s: Tr" % tname, inst="<u64>", concrete=((tname, "u64"),)))
        out.append(make("generic", C, False, 1, ["&'a u32", "%s::Out" % tname], "u8", generics=g(""), where="%s: Tr + Copy" % tname, inst="<u64>", concrete=((tname + "::", "<u64 as Tr>::"),)))
    out.append(make("generic", C, False, 1, ["&'a [u8; N]", "[u8; N]"], "&'a [u8; N]", generics="<const N: usize>", inst="<4>", concrete=(("N]", "4]"),), use_ret=0))
    out.append(make("generic", C, False, 0, ["[u16; N]"], "[u16; N]", generics="<const N: usize>", inst="<3>", concrete=(("N]", "3]"),), use_ret=0))
    out.append(make("generic", C, False, 1, ["&'a [T; N]", "T"], "T", generics="<T: Copy + 'static, const N: usize>", inst="<u32, 5>", concrete=(("N]", "5]"), ("T", "u32")), use_ret=1))
    out.append(make("generic", C, False, 1, ["&'a [T; N]", "T"], "T", generics="<T, const N: usize>", where="T: Copy + 'static", inst="<u32, 5>", concrete=(("N]", "5]"), ("T", "u32")), use_ret=1))
    out.append(make("generic", C, False, 1, ["&'a T", "U", "V"], "V", generics="<T: 'static, U, V>", inst="<u32, f64, u8>", concrete=(("T", "u32"), ("U", "f64"), ("V", "u8")), use_ret=2))
    out.append(make("generic", C, False, 1, ["&'a u8", "T"], "T", generics="<T = u32>", inst="<u32>", concrete=(("T", "u32"),), use_ret=1))
    out.append(make("generic", C, False, 1, ["&'a u8", "T"], "T", generics="<T: Copy = u32>", inst="<u16>", concrete=(("T", "u16"),), use_ret=1))
    out.append(make("generic", C, False, 1, ["&'a u8", "[T; N]"], "T", generics="<T: Copy = u32, const N: usize = 2>", inst="", concrete=(("N]", "2]"), ("T", "u32")), use_ret=None))
    for lts in range(4):
        own = ["&%s u32" % l for l in lt[:lts]]
        out.append(make("alias lifetime", C, False, lts, ["&'g u32"] + own, "&'g u32", generics="<'g>", inst="<'static>", concrete=(("'g", "'static"),), use_ret=0))
        out.append(make("alias lifetime", C, False, lts, ["Two<'g, 'h>"] + own, "Two<'g, 'h>", generics="<'g, 'h>", inst="<'static, 'static>", concrete=(("'g", "'static"), ("'h", "'static")), use_ret=0))
        out.append(make("alias lifetime", C, False, lts, ["&'g T"] + own, "&'g T", generics="<'g, T: 'g>", inst="<'static, u32>", concrete=(("'g", "'static"), ("T", "u32")), use_ret=0))
        out.append(make("alias lifetime", C, False, lts, ["&'g T"] + own, "&'g T", generics="<'g, T>", where="T: 'g", inst="<'static, u32>", concrete=(("'g", "'static"), ("T", "u32")), use_ret=0))
        out.append(make("alias lifetime", C, False, lts, ["&'g &'h u32"] + own, "&'g &'h u32", generics="<'g, 'h: 'g>", inst="<'static, 'static>", concrete=(("'g", "'static"), ("'h", "'static")), use_ret=0))
        out.append(make("alias lifetime", C, False, lts, ["&'g [T; N]"] + own, "&'g [T; N]", generics="<'g, T: 'g, const N: usize>", inst="<'static, u32, 2>", concrete=(("'g", "'static"), ("N]", "2]"), ("T", "u32")), use_ret=0))
    # visibility, attributes, names
    for vis in ("", "pub", "pub(crate)", "pub(super)", "pub(in super)"):
        for attrs in ("", "/// doc", "#[doc = \"x\"]", "#[allow(dead_code)] #[derive(PartialEq)]", "#[cfg(all())]"):
            a = make("form", C, False, 1, ["&'a u32"], "&'a u32", vis=vis, attrs=attrs + "\n", use_ret=0)
            out.append(a)
    for name in ("A", "MyFn", "FF", "Thunk", "thunk_t", "B", "CC"):
        out.append(make("name", C, False, 2, ["&'a u32", "&'b u8"], "&'b u8", name=name, use_ret=1))
    # named parameters
    for args in (["x: &'a u32", "y: u8"], ["_: &'a u32", "_: u8"], ["closure: &'a u32", "fun: u8"], ["a1: &'a u32", "a0: u8"]):
        a = make("parameter names", C, False, 1, args, "u8", use_ret=1)
        out.append(a)
    return out


def rejects():
    """Programs that must not compile, each beside a twin that must."""
    out = []

    def add(group, case, code, expect):
        out.append(Program(group, "%s: %s" % (group, case), code, expect))

    # more than three lifetimes
    for n in range(1, 7):
        names = ["'l%d" % i for i in range(n)]
        add("number of lifetimes", "%d" % n, "bare_hrtb! { type A = for<%s> extern \"C\" fn(%s); }" % (", ".join(names), ", ".join("&%s u8" % x for x in names)), n <= 3)
        add("number of lifetimes", "%d unused" % n, "bare_hrtb! { type A = for<%s> extern \"C\" fn(u8); }" % ", ".join(names), n <= 3)
        add("number of lifetimes", "%d with alias lifetimes" % n, "bare_hrtb! { type A<'g, 'h> = for<%s> extern \"C\" fn(%s, &'g u8, &'h u8); }" % (", ".join(names), ", ".join("&%s u8" % x for x in names)), n <= 3)
    # implicit lifetimes
    for case, arg, good in (("reference", "&u8", "&'a u8"), ("mutable reference", "&mut u8", "&'a mut u8"), ("underscore", "&'_ u8", "&'a u8"), ("path", "Pair<'_>", "Pair<'a>"),
                            ("hidden path", "Pair", "Pair<'a>"), ("nested", "Option<&u8>", "Option<&'a u8>"), ("inner reference", "&'a &u8", "&'a &'static u8"), ("tuple", "(u8, &u8)", "(u8, &'a u8)"),
                            ("array", "[&u8; 2]", "[&'a u8; 2]"), ("raw", "*const &u8", "*const &'a u8"), ("slice", "&[&'a u8]", "&'a [&'a u8]"), ("trait object", "&dyn Tr<Out = u16>", "&'a dyn Tr<Out = u16>")):
        for pos in ("argument", "second argument", "result"):
            sig = {"argument": "fn(%s)", "second argument": "fn(&'a u8, %s)", "result": "fn(&'a u8) -> %s"}[pos]
            if pos == "result" and case == "inner reference":
                continue
            add("implicit lifetimes", "%s %s" % (case, pos), "bare_hrtb! { type A = for<'a> extern \"C\" %s; }" % (sig % arg), False)
            add("implicit lifetimes", "%s %s named" % (case, pos), "bare_hrtb! { type A = for<'a> extern \"C\" %s; }" % (sig % good), True)
    # not a function pointer
    for t in ("u32", "&'static u8", "Box<dyn Fn()>", "Option<extern \"C\" fn()>", "(extern \"C\" fn(),)", "*const u8", "Nested"):
        add("not a function pointer", t, "bare_hrtb! { type A = %s; }" % t, False)
    add("not a function pointer", "control", "bare_hrtb! { type A = extern \"C\" fn(); }", True)
    # not a type alias
    for t in ("struct A;", "type A;", "fn a();", ""):
        add("not an alias", repr(t), "bare_hrtb! { %s }" % t, False)
    # variable arguments cannot be handed to a closure
    for sig in ("fn(u32, ...)", "fn(&'a u32, ...) -> u32", "fn(f64, ...)"):
        add("variadic", sig, "bare_hrtb! { type A = for<'a> extern \"C\" %s; }" % sig, False)
        add("variadic", sig + " control", "bare_hrtb! { type A = for<'a> extern \"C\" %s; }" % sig.replace(", ...", ""), True)
    # parameters that would have to outlive every lifetime
    for case, g, args in (("reference", "T", "&'a T"), ("RefMut", "T", "RefMut<'a, T>"), ("two", "T, U: 'static", "&'a T, &'a U")):
        add("static bound", case, "bare_hrtb! { type A<%s> = for<'a> extern \"C\" fn(%s); }" % (g, args), None)
        add("static bound", case + " given", "bare_hrtb! { type A<%s> = for<'a> extern \"C\" fn(%s); }" % (g.replace("T,", "T: 'static,") if "," in g else "T: 'static", args), True)
    # what closures may do with the lifetimes
    for kind, fac in (("Once", "_once"), ("Mut", "_mut"), ("", "")):
        for route, lhs in (("new", "BareFn%s::<A>::new(|%%s| %%s)" % kind), ("with_cc", "BareFn%s::with_cc(A_CC, |%%s| %%s)" % kind), ("new_in", "BareFn%s::<A, _>::new_in(|%%s| %%s, GlobalJitAlloc)" % kind),
                           ("make", "BareFn%sAny::<A, dyn Any>::with_thunk(<A as FnPtr>::make%s_thunk(|(%%s,)| %%s))" % (kind, fac)),
                           ("make_send", "BareFn%sAny::<A, dyn Send>::with_thunk(tf::make%s_send::<A, _>(|(%%s,)| %%s))" % (kind, fac))):
            two = "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'%s u32; }\npub fn f() { let w = %s; }"
            for r in "ab":
                for x in "ab":
                    add("closure result", "%s %s returns %s for '%s" % (kind or "Fn", route, x, r), two % (r, lhs % ("a, b", x)), r == x)
            add("closure result", "%s %s static" % (kind or "Fn", route), two % ("a", lhs % ("a, b", "&7")), True)
            add("closure result", "%s %s captured static" % (kind or "Fn", route), "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'a u32; }\npub fn f(s: &'static u32) { let w = %s; }" % (lhs % ("a, b", "s")).replace("|", "move |", 1), True)
            add("closure result", "%s %s captured borrow" % (kind or "Fn", route), "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'a u32; }\npub fn f<'l>(s: &'l u32) { let w = %s; }" % (lhs % ("a, b", "s")).replace("|", "move |", 1), False)
            if kind != "":
                esc = "bare_hrtb! { type A = for<'a> extern \"C\" fn(&'a u32, u8); }\npub fn f() { let mut keep: Option<&%s u32> = None; let w = %s; }"
                add("argument kept", "%s %s" % (kind, route), esc % ("'static", lhs % ("a, b", "{ keep = Some(a); }")), False)
                val = "bare_hrtb! { type A = for<'a> extern \"C\" fn(&'a u32, u8); }\npub fn f() { let mut keep: Option<u32> = None; let w = %s; }"
                add("argument kept", "%s %s by value" % (kind, route), val % (lhs % ("a, b", "{ keep = Some(*a); }")), True)
            nest = "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(Two<'a, 'b>, u8) -> &'b u64; }\npub fn f() { let w = %s; }"
            add("closure result", "%s %s field" % (kind or "Fn", route), nest % (lhs % ("a, b", "a.1")), True)
            # (implied bounds of &'a &'b)
            imp = "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a &'b u32, u8) -> &'%s u32; }\npub fn f() { let w = %s; }"
            add("closure result", "%s %s inner" % (kind or "Fn", route), imp % ("b", lhs % ("a, b", "*a")), None)
            add("closure result", "%s %s outer as inner" % (kind or "Fn", route), ("bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'b u32; }\npub fn f() { let w = %s; }") % (lhs % ("a, b", "a")), False)
    # what callers may do with the lifetimes
    for call in ("w.bare()(&x, &y)", "(w.bare().0)(&x, &y)", "P::from(w.bare())(&x, &y)", "FnPtr::call(w.bare(), (&x, &y))"):
        src = ("bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'%s u32; }\ntype P = for<'a, 'b> unsafe extern \"C\" fn(&'a u32, &'b u32) -> &'%s u32;\n"
               "pub unsafe fn f(w: BareFn<'static, A>) { let r; let %s = 1u32; { let %s = 2u32; r = %s; } let _ = *r; }")
        for r in "ab":
            for short in "xy":
                ok = (r == "a") == (short == "y")
                if "FnPtr::call" in call and ok:
                    ok = None  # the tuple has one type for the whole call
                add("caller", "%s '%s %s short" % (call, r, short), src % (r, r, "y" if short == "x" else "x", short, call), ok)
    # conversions to and from pointers with other lifetimes
    base = "bare_hrtb! { type A = for<'a, 'b> extern \"C\" fn(&'a u32, &'b u32) -> &'a u32; }\n"
    for case, p, ok in (("same", "for<'a, 'b> unsafe extern \"C\" fn(&'a u32, &'b u32) -> &'a u32", True), ("renamed", "for<'x, 'y> unsafe extern \"C\" fn(&'x u32, &'y u32) -> &'x u32", True),
                        ("swapped", "for<'a, 'b> unsafe extern \"C\" fn(&'a u32, &'b u32) -> &'b u32", False),
                        ("other convention", "for<'a, 'b> unsafe extern \"C-unwind\" fn(&'a u32, &'b u32) -> &'a u32", False), ("other type", "for<'a, 'b> unsafe extern \"C\" fn(&'a u32, &'b u32) -> &'a u16", False)):
        add("conversion from pointer", case, base + "pub fn f(p: %s) { let a = A::from(p); }" % p, ok)
        add("conversion to pointer", case, base + "pub fn f(a: A) { let p: %s = a.into(); }" % p, ok)
    add("conversion to pointer", "one lifetime for both", base + "pub fn f(a: A) { let p: for<'x> unsafe extern \"C\" fn(&'x u32, &'x u32) -> &'x u32 = <for<'a, 'b> unsafe extern \"C\" fn(&'a u32, &'b u32) -> &'a u32>::from(a); }", True)
    add("conversion from pointer", "one lifetime for both", base + "pub fn f(p: for<'x> unsafe extern \"C\" fn(&'x u32, &'x u32) -> &'x u32) { let a = A::from(p); }", False)
    # safety of the pointer
    add("calls are unsafe", "safe alias outside unsafe", base + "pub fn f(a: A) { let r = (a.0)(&1, &2); }", False)
    add("calls are unsafe", "in unsafe", base + "pub fn f(a: A) { let r = unsafe { (a.0)(&1, &2) }; }", True)
    # names of the caller's do not get in the way
    for shadow in ("mod core {}", "mod std {}", "mod alloc {}", "mod closure_ffi {}", "mod traits {}", "mod arch {}", "mod mem {}", "struct Clone; struct Copy; struct Debug; struct Default; struct Deref; struct From; struct Sized;",
                   "struct Result; struct Option; struct Box; struct FnPtr; struct FnThunk; struct PackedFn;", "#[allow(non_camel_case_types)] struct u8; #[allow(non_camel_case_types)] struct usize;",
                   "fn thunk() {} fn coerce() {} fn fmt() {} fn drop() {}", "pub struct Self_; pub struct T; pub struct F; pub struct Fun; pub struct B; pub struct CC; pub struct Args; pub struct Ret;",
                   "macro_rules! asm { () => {} } macro_rules! panic { () => {} }"):
        for sig in ("for<'a> extern \"C\" fn(&'a u32) -> &'a u32", "fn(u32)", "for<'a, 'b, 'c> unsafe extern \"C\" fn(&'a u32, &'b u32, &'c u32) -> &'b u32"):
            add("names in scope", "%s %s" % (shadow, sig), "mod inner { %s mc_types_root::bare_hrtb! { pub type A = %s; } }".replace("mc_types_root", "super::super::closure_ffi") % (shadow, sig), True)
    # markers and copies
    for b in ("Copy", "Clone", "Send", "Sync", "stdlib::fmt::Debug"):
        add("traits", b, base + "pub fn need<T: %s>() {}\npub fn f() { need::<A>(); }" % b, True)
        add("traits", b + " generic", "bare_hrtb! { type A<T> = for<'a> extern \"C\" fn(&'a u8, T) -> T; }\npub fn need<T: %s>() {}\npub fn f() { need::<A<Rc<u8>>>(); }" % b, True)
        if b != "stdlib::fmt::Debug" and b not in ("Send", "Sync"):
            add("traits", "marker " + b, base + "pub fn need<T: %s>() {}\npub fn f() { need::<A_CC>(); }" % b, True)
    return out


def explore(cc, o, k, n):
    every = [a for a in aliases("x86_64" in o.triple, o.tier) if not o.spaces or a.space in o.spaces.split(",")]
    progs = []
    for a in every:
        p = Program("alias " + a.space, "alias: " + a.text, a.code(), True)
        progs.append(p)
    table = [] if o.spaces else rejects()
    # what to build and run, and what only to decide
    mine = (progs + table)[k::n]
    cc.decide(PRELUDE, mine)
    viols = []
    for p, why in comp.judge(mine):
        viols.append("%s :: %s" % (p.case, why))
    live = [p for p in mine if p.group.startswith("alias ") and not p.errors]
    steps, runs = run(cc, live, viols, o)
    groups = {}
    for p in mine:
        groups.setdefault(p.group, [0, 0])[1 if p.errors else 0] += 1
    for v in viols:
        print("VIOL " + " ".join(v.split()))
    import json
    print("RESULT " + json.dumps({
        "states": len(mine), "transitions": steps, "accepted": sum(not p.errors for p in mine),
        "rejected": sum(bool(p.errors) for p in mine), "compiler_runs": cc.runs, "executed_aliases": runs, "spaces": groups,
        "samples": ["%s => %s" % (p.case, (p.errors[:1] or ["accepted"])[0]) for p in mine[:: max(1, len(mine) // 2)]][:2],
    }))
    return 1 if viols else 0


def run(cc, live, viols, o):
    """Builds the accepted aliases into one executable and runs every one of them."""
    if not live:
        return 0, 0
    with tempfile.TemporaryDirectory(prefix="mc-hrtb-") as tmp:
        src, owner = PRELUDE.split("\n"), {}
        for i, p in enumerate(live):
            body = ["pub mod p%d { use super::*;" % i] + p.code.split("\n") + ["}"]
            owner.update({len(src) + 1 + j: p for j in range(len(body))})
            src += body
        src.append("fn main() { stdlib::panic::set_hook(Box::new(|_| {})); let only = stdlib::env::args().nth(1).map(|a| a.parse::<usize>().unwrap()).unwrap_or(0);")
        src.append("let all: &[fn()] = &[%s];" % ", ".join("p%d::run" % i for i in range(len(live))))
        src.append("for (i, f) in all.iter().enumerate().skip(only) { stdlib::println!(\"CASE {i}\"); if let Err(e) = stdlib::panic::catch_unwind(f) {")
        src.append("let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); stdlib::println!(\"FAIL {i} {}: {m}\", NOW.with(|n| n.borrow().clone())); } }")
        src.append("stdlib::println!(\"DONE {}\", STEP.with(|s| s.get())); }")
        path = os.path.join(tmp, "hrtb.rs")
        with open(path, "w") as f:
            f.write("\n".join(src))
        exe = os.path.join(tmp, "hrtb")
        ok, errors = cc.rustc(path, ["--crate-type", "bin", "-C", "opt-level=1", "-C", "panic=unwind", "-o", exe] + o.link)
        if not ok:
            for m in errors:
                for p in {owner[x] for x in comp.own_lines(m, path) if x in owner}:
                    p.errors = ["while generating code: " + m["message"]]
                    viols.append("%s :: %s" % (p.case, p.errors[0]))
            rest = [p for p in live if not p.errors]
            if len(rest) < len(live):
                return run(cc, rest, viols, o)
            raise comp.EngineError("accepted aliases do not build: " + errors[0]["message"] + " " + str(errors[0].get("rendered"))[:2000])
        start, steps, runs = 0, 0, 0
        while True:
            p = subprocess.run(o.runner + [exe, str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
            last = None
            for line in p.stdout.splitlines():
                w = line.split(" ", 2)
                if w[0] == "CASE":
                    last = int(w[1])
                    runs += 1
                elif w[0] == "FAIL":
                    viols.append("%s :: %s" % (live[int(w[1])].case, w[2]))
                elif w[0] == "DONE":
                    steps += int(w[1])
                    last = None
            if p.returncode == 0 and last is None:
                return steps, runs
            if last is None:
                raise comp.EngineError("hrtb executable: exit %s %s" % (p.returncode, p.stderr[-1000:]))
            viols.append("%s :: the program was killed (%s) %s" % (live[last].case, p.returncode, p.stderr[-300:]))
            start = last + 1
