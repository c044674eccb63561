//! Emission protocol: blocks between guard pages, access rights exactly as announced, every
//! placement of the block, both fill patterns (so that every written byte shows).

use crate::mem::{self, check_sealed, sh, Ev, Mem, MEMS};
use crate::report::{set_case, stats, viol};
use crate::world::{mix, w};
use crate::wrap::*;
use closure_ffi::{bare_closure::*, cc, traits::Any};

fn last_block() -> Option<(usize, usize)> {
    sh().log.iter().rev().find_map(|e| match e {
        Ev::Alloc { mem, slot, .. } => Some((*mem, *slot)),
        _ => None,
    })
}

struct Placement {
    mem: usize,
    skew: usize,
    right: bool,
    fill: u8,
}
fn place(p: &Placement) {
    mem::reset();
    sh().calls = 0;
    for st in &mut sh().st {
        st.skew = p.skew;
        st.right_aligned = p.right;
        st.fill = p.fill;
    }
}
fn sealed(entry: *const ()) {
    stats().checks += 1;
    for st in &sh().st {
        if let Some(b) = &st.bad {
            viol("C06", b);
        }
    }
    let Some((m, s)) = last_block() else {
        viol("C06", "no block was requested");
        return;
    };
    if let Err(e) = check_sealed(m, s, entry as usize) {
        viol("C06", &e);
    }
}
fn snapshot() -> Vec<u8> {
    let (m, s) = last_block().unwrap();
    let sl = &sh().st[m].slots[s];
    mem::content(sl.rw, sl.size).to_vec()
}

/// Signatures whose compiled prologues differ: argument counts, stack arguments, aggregates
/// returned through memory, floating point, stack realignment.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Agg([u64; 9]);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(64))]
pub struct Wide([u64; 8]);

#[inline(never)]
fn use_stack(x: &mut Wide, n: u64) {
    x.0[0] = x.0[0].wrapping_add(n);
}

macro_rules! sig {
    ($p:expr, $label:literal, $cap:expr, fn($($a:ident: $t:ty = $v:expr),*) -> $r:ty, |$c:ident| $body:expr) => {{
        type F = unsafe extern "C" fn($($t),*) -> $r;
        let p: &Placement = $p;
        let case = format!("signature {} allocator {} skew {} right {} fill {:#x}", $label, p.mem, p.skew, p.right, p.fill);
        set_case(&case);
        place(p);
        stats().histories += 1;
        stats().constructions += 1;
        let f = {
            let $c = $cap;
            move |$($a: $t),*| -> $r { let $c = &$c; $body }
        };
        $(let $a: $t = $v;)*
        let want = f($($a),*);
        let b: BareFnAny<F, dyn Any, &'static Mem> = BareFnAny::with_cc_in(cc::C, f, &MEMS[p.mem]);
        sealed(b.bare() as *const ());
        let before = snapshot();
        let got = unsafe { (b.bare())($($a),*) };
        stats().calls += 1;
        stats().transitions += sh().log.len() as u64;
        if got != want {
            viol("C06", "the emitted code misbehaves at this placement");
        }
        if before != snapshot() {
            viol("C06", "the emitted code changed when it ran");
        }
        drop(b);
        stats().states.insert(fx(&case));
    }};
}
fn fx(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn signatures(p: &Placement) {
    sig!(p, "()", 7u64, fn() -> u64, |c| *c);
    sig!(p, "(u8)", 7u8, fn(a: u8 = 3) -> u8, |c| c.wrapping_add(a));
    sig!(p, "(12 words)", 7u64,
        fn(a: u64 = 1, b: u64 = 2, d: u64 = 3, e: u64 = 4, f: u64 = 5, g: u64 = 6, h: u64 = 7, i: u64 = 8, j: u64 = 9, k: u64 = 10, l: u64 = 11, m: u64 = 12) -> u64,
        |c| c ^ a ^ b << 4 ^ d << 8 ^ e << 12 ^ f << 16 ^ g << 20 ^ h << 24 ^ i << 28 ^ j << 32 ^ k << 36 ^ l << 40 ^ m << 44);
    sig!(p, "(floats)", 0.5f64, fn(a: f64 = 1.0, b: f32 = 2.0, d: f64 = 3.0) -> f64, |c| c + a + b as f64 * d);
    sig!(p, "(aggregate) -> aggregate", 7u64, fn(a: Agg = Agg([5; 9]), n: u64 = 3) -> Agg, |c| Agg(core::array::from_fn(|i| a.0[i] * n + *c)));
    sig!(p, "aligned locals", Wide([9; 8]), fn(n: u64 = 3) -> u64, |c| {
        let mut x = *c;
        use_stack(&mut x, n);
        if (&x as *const _ as usize) % 64 != 0 { viol("C06", "misaligned stack") }
        x.0[0] ^ x.0[7]
    });
    sig!(p, "constants", [1u64; 4], fn(n: u64 = 3, z: f64 = 1.5) -> f64, |c| (c[0] + n) as f64 * 3.25 + z * 0.1);
    sig!(p, "table", [1u64; 2], fn(n: u32 = 3) -> u32, |c| {
        static T: [u32; 8] = [3, 1, 4, 1, 5, 9, 2, 6];
        T[(n as usize + c[0] as usize) % 8]
    });
    sig!(p, "large frame", [3u8; 100], fn(n: u32 = 70) -> u32, |c| {
        let mut buf = [0u8; 6000];
        for (i, x) in buf.iter_mut().enumerate() { *x = c[i % 100].wrapping_add(i as u8); }
        core::hint::black_box(&mut buf)[n as usize] as u32
    });
}

pub fn run(shard: (u64, u64), tier: &str) {
    let rows = all_rows();
    let skews: Vec<usize> = match tier {
        "small" => vec![0, 1, 2, 3, 4, 5, 7, 8, 12, 15],
        "thorough" => (0..512).collect(),
        _ => (0..64).collect(),
    };
    let mut placements = vec![];
    for mem in 0..3 {
        for fill in [0x5A, 0xA5] {
            for s in &skews {
                placements.push(Placement { mem, skew: *s, right: false, fill });
            }
            placements.push(Placement { mem, skew: 0, right: true, fill });
        }
    }
    for (n, p) in placements.iter().enumerate() {
        if n as u64 % shard.1 != shard.0 {
            continue;
        }
        signatures(p);
        for row in rows.iter().filter(|r| !r.class.zero_sized() && r.class != Class::Refused) {
            if row.form != 0 && p.skew % 16 != 0 {
                continue;
            }
            let mem = if row.handle == Handle::Global { 0 } else { p.mem };
            for ctor in 0..if row.handle == Handle::Global { 10 } else { 6 } {
                let rc = Recipe { row: *row, mem, ctor };
                let case = format!("{} skew {} right {} fill {:#x}", rc.name(), p.skew, p.right, p.fill);
                set_case(&case);
                place(p);
                w().counts = [0; crate::world::MAXI];
                w().drops = [0; crate::world::MAXI];
                w().addr = [0; crate::world::MAXI];
                stats().histories += 1;
                stats().constructions += 1;
                let Ok(x) = (row.make)(ctor, mem, 1) else {
                    viol("C06", "construction failed");
                    continue;
                };
                let before = snapshot();
                let (leaked, ptr) = if row.kind == Kind::Once { (None, x.leak_it()) } else { (Some(()), x.ptr()) };
                let _ = leaked;
                sealed(ptr);
                let f: B = unsafe { core::mem::transmute(ptr) };
                let got = unsafe { f(11, 22) };
                stats().calls += 1;
                if got != mix(1, 1, 11, 22) {
                    viol("C06", "the emitted code misbehaves at this placement");
                }
                if before != snapshot() {
                    viol("C06", "the emitted code changed when it ran");
                }
                stats().transitions += sh().log.len() as u64;
                stats().states.insert(fx(&case));
                if stats().samples.len() < 4 && stats().histories % 499 == 1 {
                    stats().samples.push(case.clone());
                }
            }
        }
    }
    let n = stats().histories;
    stats().spaces.push(("placements".into(), n));
}
