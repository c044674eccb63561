use crate::engine::*;
use std::sync::OnceLock;

pub const NAME: &str = "aarch64";
pub const CODE_BIT: usize = 0;
pub const SP: usize = 31;
pub const NREGS: usize = 32;
pub const REG_NAMES: [&str; 32] = [
    "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14",
    "x15", "x16", "x17", "x18", "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27",
    "x28", "x29", "x30", "sp",
];
pub const FLAG_MASK: usize = 0xF000_0000;
pub const STATES: usize = 2;
pub const NO_RED_ZONE: bool = false;
/// x17 holds the entry address when guest code is entered.
pub const ALWAYS_SCRATCH: u32 = 1 << 17;
pub const P: [usize; 16] = [0, 0, 0, 0, 4, 0, 0, 0, 8, 0, 0, 0, 12, 0, 0, 0];

core::arch::global_asm!(
    r#"
    .pushsection .text
    .balign 4
    .macro MCVEC op, base
        \op q0, q1, [\base, #0]
        \op q2, q3, [\base, #32]
        \op q4, q5, [\base, #64]
        \op q6, q7, [\base, #96]
        \op q8, q9, [\base, #128]
        \op q10, q11, [\base, #160]
        \op q12, q13, [\base, #192]
        \op q14, q15, [\base, #224]
        \op q16, q17, [\base, #256]
        \op q18, q19, [\base, #288]
        \op q20, q21, [\base, #320]
        \op q22, q23, [\base, #352]
        \op q24, q25, [\base, #384]
        \op q26, q27, [\base, #416]
        \op q28, q29, [\base, #448]
        \op q30, q31, [\base, #480]
    .endm
    .global mc_enter
    mc_enter:
        stp x29, x30, [sp, #-96]!
        stp x19, x20, [sp, #16]
        stp x21, x22, [sp, #32]
        stp x23, x24, [sp, #48]
        stp x25, x26, [sp, #64]
        stp x27, x28, [sp, #80]
        adrp x1, MC
        add x1, x1, :lo12:MC
        mov x2, sp
        str x2, [x1]
        str x0, [x1, #8]
        add x2, x1, #1568
        MCVEC stp, x2
        add x2, x1, #544
        MCVEC ldp, x2
        ldr x2, [x1, #16]
        msr nzcv, x2
        ldr x2, [x1, #280]
        mov sp, x2
        mov x17, x0
        ldr x0, [x1, #32]
        ldp x2, x3, [x1, #48]
        ldp x4, x5, [x1, #64]
        ldp x6, x7, [x1, #80]
        ldp x8, x9, [x1, #96]
        ldp x10, x11, [x1, #112]
        ldp x12, x13, [x1, #128]
        ldp x14, x15, [x1, #144]
        ldr x16, [x1, #160]
        ldp x18, x19, [x1, #176]
        ldp x20, x21, [x1, #192]
        ldp x22, x23, [x1, #208]
        ldp x24, x25, [x1, #224]
        ldp x26, x27, [x1, #240]
        ldp x28, x29, [x1, #256]
        ldr x30, [x1, #272]
        ldr x1, [x1, #40]
        br x17
    .global mc_collect
    mc_collect:
        stp x16, x17, [sp, #-16]!
        adrp x16, MC
        add x16, x16, :lo12:MC
        stp x0, x1, [x16, #288]
        stp x2, x3, [x16, #304]
        stp x4, x5, [x16, #320]
        stp x6, x7, [x16, #336]
        stp x8, x9, [x16, #352]
        stp x10, x11, [x16, #368]
        stp x12, x13, [x16, #384]
        stp x14, x15, [x16, #400]
        ldp x0, x1, [sp], #16
        stp x0, x1, [x16, #416]
        stp x18, x19, [x16, #432]
        stp x20, x21, [x16, #448]
        stp x22, x23, [x16, #464]
        stp x24, x25, [x16, #480]
        stp x26, x27, [x16, #496]
        add x0, x16, #288
        stp x28, x29, [x0, #224]
        mov x1, sp
        stp x30, x1, [x0, #240]
        mrs x0, nzcv
        str x0, [x16, #24]
        add x0, x16, #1056
        MCVEC stp, x0
        mov x0, #0
        b 3f
    .global mc_recover
    mc_recover:
        mov x0, #1
    3:
        adrp x16, MC
        add x16, x16, :lo12:MC
        add x2, x16, #1568
        MCVEC ldp, x2
        ldr x1, [x16]
        mov sp, x1
        ldp x19, x20, [sp, #16]
        ldp x21, x22, [sp, #32]
        ldp x23, x24, [sp, #48]
        ldp x25, x26, [sp, #64]
        ldp x27, x28, [sp, #80]
        ldp x29, x30, [sp], #96
        ret
    .popsection
    "#
);

pub unsafe fn redirect(uc: *mut libc::c_void, to: usize) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.pc = to as u64;
}
pub fn trap_fill(b: &mut [u8]) {
    b.fill(0)
}
extern "C" {
    fn __clear_cache(a: *const u8, b: *const u8);
}
pub fn flush(p: *const u8, n: usize) {
    unsafe { __clear_cache(p, p.add(n)) }
}
pub fn branch_to(at: usize, to: usize) -> Vec<u8> {
    (0x1400_0000u32 | ((to.wrapping_sub(at) >> 2) as u32 & 0x3FF_FFFF)).to_le_bytes().to_vec()
}
pub fn vec_view(v: &[u8; 512]) -> &[u8] {
    &v[..]
}
pub fn init_state(mc: &mut Mc, s: usize, sp: usize, data: usize) {
    for i in 0..32 {
        mc.in_regs[i] = 0x1111_0000_2222_0000usize.wrapping_mul(i + 1).wrapping_add(0x4080 + i * 3 + s);
    }
    mc.in_regs[SP] = sp;
    mc.in_regs[28] = data;
    mc.in_regs[9] = 3 + s;
    mc.in_regs[0] = if s == 0 { 0 } else { 0x8000_0001 };
    mc.in_flags = if s == 0 { 0 } else { 0x6000_0000 };
    for i in 0..512 {
        mc.in_vec[i] = (i * 31 + 17 + s) as u8;
    }
}

static TAILS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
static mut REGS: (usize, u32) = (usize::MAX, 0);
pub fn setup() {
    let _ = TAILS.set(crate::raw_tails().into_iter().map(|x| x.unwrap_or_default()).collect());
}
pub fn tail(at: usize, _var: usize) -> &'static [u8] {
    &TAILS.get().unwrap()[at % 16]
}
pub fn closure_reg(_: usize) -> usize {
    unsafe { REGS.0 }
}
pub fn scratch_mask(_: usize) -> u32 {
    unsafe { REGS.1 }
}
pub fn calibrate(ex: &mut Explorer) {
    let r = calibrate_one(ex, 0, &[0, 4, 8, 12]);
    unsafe { REGS = r };
}
pub fn must_accept(sp: &Space, seq: &[usize], _: usize) -> bool {
    seq.iter().all(|&i| sp.items[i].kind != Kind::Other)
}

macro_rules! stream {
    ($name:ident, $sym:literal, $($t:literal),* $(,)?) => {
        asm_stream!($sym, "", $($t),*);
        fn $name(pick: &[&str]) -> Vec<Item> {
            extern "C" { #[link_name = $sym] fn f(); }
            let meta = [$($t),*];
            let b = unsafe { parse_stream(f as *const u8, meta.len()) };
            meta.iter().zip(b).filter(|m| pick.is_empty() || pick.contains(m.0)).map(|(m, b)| Item::fixed(&m.replace('\n', " / "), b)).collect()
        }
    };
}
stream!(plain, "mc_plain",
    "nop",
    "hint #34", // bti c
    "paciasp",
    "stp x29, x30, [sp, #-16]!",
    "stp x19, x20, [sp, #-32]!",
    "sub sp, sp, #64",
    "sub sp, sp, #1, lsl #12\nadd sp, sp, #1, lsl #12",
    "mov x29, sp",
    "add x29, sp, #16",
    "str x0, [sp, #8]",
    "str x30, [sp, #-16]!",
    "str d8, [sp, #-16]!",
    "mov x0, x1",
    "mov w8, #5",
    "movz x9, #0x1234, lsl #16",
    "movk x9, #0x55",
    "add x2, x3, x4",
    "cmp x0, x1",
    "cset w3, eq",
    "csel x0, x1, x2, eq",
    "subs x9, x9, #1",
    "adc x0, x0, x1",
    "str x0, [x28]",
    "str x8, [x28, #16]",
    "str w1, [x28, #24]",
    "ldr x5, [x28, #8]",
    "ldr x16, [x28, #8]",
    "ldrb w6, [x28, #3]",
    "str q0, [x28, #32]",
    "stp q0, q1, [x28, #64]",
    "ldr d1, [x28, #8]",
    "fmov d0, x1",
    "fadd d2, d0, d1",
    "movi v3.16b, #7",
    "ldp x6, x7, [x28]",
    "ldr x0, [sp]",
    "mov x8, x0",
    "mov x29, sp\nand sp, x29, #0xffffffffffffffe0\nsub sp, sp, #32",
    "dmb ish",
    "ldar x11, [x28]",
    "ldaxr x12, [x28]\nclrex",
    "mul x0, x0, x1",
    "udiv x1, x2, x3",
    "rev x4, x5",
    "prfm pldl1keep, [x28]",
    "ccmp x0, #3, #4, ne",
    "mrs x8, nzcv",
    "mrs x10, tpidr_el0",
    "mrs x11, fpcr",
);
stream!(flow, "mc_flow",
    "b.eq 9f",
    "b.ne 7f\nmov x0, x1\n7:",
    "cbz x0, 9f",
    "cbnz w0, 7f\nmov x2, x1\n7:",
    "tbz x0, #0, 9f",
    "tbnz w0, #31, 7f\nmov x2, x1\n7:",
    "subs x9, x9, #1\nb.ne 8b",
    "cbz x0, 7f\nadr x3, .\n7:",
    "cbnz x0, 7f\nldr x3, 8b\n7:",
    "b.eq 7f\nadr x3, .\n7:",
    "b.ne 7f\nadr x3, .\n7:",
    "bl 9f",
    "bl 7f\nmov x0, x1\n7:",
    "mov x16, x30\nbl 7f\n7: mov x5, x30\nmov x30, x16",
    "msr nzcv, x8",
    "svc #0",
    "ret",
    "br x16",
    "blr x16",
    "b .",
);

/// PC-relative instruction with the immediate chosen so that it refers to arena offset `to`.
fn enc_adr(rd: u32, imm: i32, page: bool) -> u32 {
    (page as u32) << 31 | (imm as u32 & 3) << 29 | 0x1000_0000 | (imm as u32 >> 2 & 0x7FFFF) << 5 | rd
}
fn enc_lit(opc: u32, v: u32, rt: u32, imm19: i32) -> u32 {
    opc << 30 | 0x1800_0000 | v << 26 | (imm19 as u32 & 0x7FFFF) << 5 | rt
}
fn enc_b(imm26: i64) -> u32 {
    0x1400_0000 | (imm26 as u32 & 0x3FF_FFFF)
}
fn word(name: String, kind: Kind, f: impl Fn(&Ctx) -> Option<(u32, Option<(usize, usize)>)> + 'static) -> Item {
    Item {
        name,
        len: 4,
        kind,
        reads: 0,
        writes: 0,
        escapes: false,
        emit: Box::new(move |c| {
            f(c).map(|(w, touch)| Emitted {
                bytes: w.to_le_bytes().to_vec(),
                touch,
            })
        }),
    }
}
#[derive(Clone, Copy)]
enum To {
    Off(usize),
    Imm(i32),
}
fn adr(rd: u32, to: To) -> Item {
    let n = match to {
        To::Off(o) => format!("adr x{rd}, T{:+#x}", o as i64 - TPL_OFF as i64),
        To::Imm(i) => format!("adr x{rd}, #{i}"),
    };
    word(n, Kind::Pc, move |c| {
        let imm = match to {
            To::Off(o) => arena(o) as i64 - c.addr as i64,
            To::Imm(i) => i as i64,
        };
        (-(1 << 20)..1 << 20).contains(&imm).then(|| (enc_adr(rd, imm as i32, false), None))
    })
}
fn adrp(rd: u32, imm: i32) -> Item {
    word(format!("adrp x{rd}, #{imm}"), Kind::Pc, move |_| Some((enc_adr(rd, imm, true), None)))
}
/// opc 0: 32-bit, 1: 64-bit, 2: sign-extended 32-bit, 3: prefetch (general) / 0..=2 s,d,q (vector)
fn lit(opc: u32, v: u32, rt: u32, to: To) -> Item {
    let r = ["w", "x", "xs", "prfm ", "s", "d", "q", "v?"][(v * 4 + opc) as usize];
    let n = match to {
        To::Off(o) => format!("ldr {r}{rt}, T{:+#x}", o as i64 - TPL_OFF as i64),
        To::Imm(i) => format!("ldr {r}{rt}, #{i}*4"),
    };
    let size = if v == 1 { 4 << opc } else { [4, 8, 4, 0][opc as usize] };
    let kind = if v == 1 || opc == 3 { Kind::Other } else { Kind::Pc };
    word(n, kind, move |c| {
        let imm = match to {
            To::Off(o) => (arena(o) as i64 - c.addr as i64) >> 2,
            To::Imm(i) => i as i64,
        };
        let t = (c.addr as i64 + imm * 4) as usize;
        (-(1 << 18)..1 << 18).contains(&imm).then(|| (enc_lit(opc, v, rt, imm as i32), Some((t, t + size))))
    })
}
/// Unconditional branch over the next `n` items.
fn b_skip(n: isize) -> Item {
    let mut i = word(format!("b {n:+}"), Kind::Other, move |c| {
        Some((enc_b((c.label(n)? as i64 - c.addr as i64) / 4), None))
    });
    i.kind = Kind::Other;
    i
}
fn b_body() -> Item {
    let mut i = word("b body".into(), Kind::Other, move |c| {
        let ts = *c.addrs.last().unwrap();
        Some((enc_b(((ts + tail(ts, 0).len()) as i64 - c.addr as i64) / 4), None))
    });
    i.escapes = true;
    i
}
/// Branch into the middle of the closure-fetch block, skipping the load of the closure pointer.
fn b_tail(k: usize) -> Item {
    let mut i = word(format!("b fetch+{k}"), Kind::Other, move |c| {
        let ts = *c.addrs.last().unwrap() + k;
        Some((enc_b((ts as i64 - c.addr as i64) / 4), None))
    });
    i.escapes = true;
    i
}

/// All field values with at most two bits set, and their complements.
fn imm_set(bits: u32) -> Vec<i32> {
    let sx = |v: u32| ((v << (32 - bits)) as i32) >> (32 - bits);
    let mut v = vec![sx(0), sx(!0)];
    for i in 0..bits {
        v.push(sx(1 << i));
        v.push(sx(!(1 << i)));
        for j in 0..i {
            v.push(sx(1 << i | 1 << j));
            v.push(sx(!(1 << i | 1 << j)));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn pcrel() -> Vec<Item> {
    let mut a = vec![];
    for rd in [0u32, 8, 16, 30, 31] {
        a.push(adr(rd, To::Off(DATA_HI + 20)));
        a.push(adrp(rd, 3));
    }
    a.push(adr(0, To::Off(DATA_LO + 9)));
    a.push(adrp(0, -3));
    a.push(adr(9, To::Imm(0)));
    a.push(adr(9, To::Imm(-4)));
    for rd in [0u32, 8, 16, 30, 31] {
        a.push(lit(0, 0, rd, To::Off(DATA_HI + 12)));
        a.push(lit(1, 0, rd, To::Off(DATA_HI + 24)));
        a.push(lit(2, 0, rd, To::Off(DATA_HI + 36)));
    }
    a.push(lit(1, 0, 1, To::Off(DATA_LO + 24)));
    a.push(lit(0, 0, 2, To::Off(DATA_LO + 24)));
    a.push(lit(1, 0, 1, To::Imm(0)));
    a.push(lit(1, 0, 1, To::Imm(-1)));
    for opc in 0..3 {
        a.push(lit(opc, 1, 0, To::Off(DATA_HI + 16)));
        a.push(lit(opc, 1, 7, To::Off(DATA_LO + 16)));
    }
    a.push(lit(3, 0, 0, To::Off(DATA_HI)));
    a
}
fn branches() -> Vec<Item> {
    let mut a: Vec<Item> = (0..4).map(b_skip).collect();
    a.extend([b_skip(-2), b_skip(-3), b_body(), b_tail(4), b_tail(8)]);
    a
}
fn core_items() -> Vec<Item> {
    let mut a = plain(&[
        "stp x29, x30, [sp, #-16]!", "sub sp, sp, #64", "mov x29, sp", "str x8, [x28, #16]", "ldr x16, [x28, #8]", "cmp x0, x1", "csel x0, x1, x2, eq",
    ]);
    a.extend([
        adr(8, To::Off(DATA_HI + 20)),
        adrp(8, 3),
        adrp(0, -3),
        lit(1, 0, 8, To::Off(DATA_HI + 24)),
        lit(0, 0, 0, To::Off(DATA_LO + 12)),
        lit(2, 0, 16, To::Off(DATA_HI + 36)),
        b_skip(0),
        b_skip(1),
        b_skip(2),
    ]);
    a
}

pub fn spaces(_accept: bool) -> Vec<Space> {
    let all = || {
        let mut a = plain(&[]);
        a.extend(pcrel());
        a.extend(branches());
        a.extend(flow(&[]).into_iter().map(Item::other));
        a
    };
    let mut v = vec![];
    // every address-forming immediate with at most two (un)set bits
    let mut imm = vec![];
    for i in imm_set(21) {
        imm.push(adr(3, To::Imm(i)));
        imm.push(adrp(3, i));
    }
    v.push(Space::new("adr-imm", imm, 1, 1, &[0, 4]));
    let mut imm = vec![];
    for i in imm_set(19) {
        for opc in 0..3 {
            imm.push(lit(opc, 0, 5, To::Imm(i)));
        }
    }
    v.push(Space::new("ldr-imm", imm, 1, 1, &[0, 4]));
    // every destination register
    let mut regs = vec![];
    for r in 0..32 {
        if r == 17 {
            continue;
        }
        regs.push(adr(r, To::Off(DATA_HI + 4)));
        regs.push(adrp(r, 5));
        for opc in 0..3 {
            regs.push(lit(opc, 0, r, To::Off(DATA_HI + 8)));
            regs.push(lit(opc, 1, r, To::Off(DATA_HI + 8)));
        }
    }
    v.push(Space::new("regs", regs, 1, 1, &[0, 4]));
    v.push(Space::new("pairs", all(), 0, 2, &[0, 4]));
    v.push(Space::new("triples", core_items(), 3, 3, &[0, 4, 8, 12]));
    v.push(Space::new("len4", core_items(), 4, 4, &[0]).thorough());
    v.push(Space::new("alltriples", all(), 3, 3, &[0]).thorough());
    let tiny = || {
        let mut a = plain(&["nop", "str x8, [x28, #16]"]);
        a.extend([adr(8, To::Off(DATA_HI + 20)), lit(1, 0, 8, To::Off(DATA_HI + 24))]);
        a
    };
    v.push(Space::new("len6", tiny(), 4, 6, &[0]));
    for n in [12usize, 24] {
        let mut r = Space::new(if n == 12 { "long12" } else { "long24" }, tiny(), 0, 4, &[0]);
        r.pre = vec![1; n - 6];
        r.post = vec![0; 3];
        v.push(r);
    }
    // prologues around the 1 MB reach of the literal loads the relocator emits
    let fill = |n: usize| {
        let mut bytes = (0x1400_0000u32 + n as u32 + 1).to_le_bytes().to_vec();
        bytes.extend([0x1f, 0x20, 0x03, 0xd5].repeat(n));
        Item::fixed(&format!("b over nop x {n}"), bytes).other()
    };
    for (name, item) in [("far-adr", adr(8, To::Imm(-33))), ("far-ldr", lit(1, 0, 8, To::Off(DATA_LO + 24)))] {
        let mut far = vec![item];
        far.extend((262_124..262_150).chain([262_200]).map(fill));
        let mut r = Space::new(name, far, 1, 1, &[0]).far();
        r.pre = vec![0];
        v.push(r);
    }
    v
}
