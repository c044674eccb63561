use crate::engine::*;
use std::sync::OnceLock;

#[cfg(thumb)]
pub const NAME: &str = "thumb";
#[cfg(not(thumb))]
pub const NAME: &str = "arm";
pub const THUMB: bool = cfg!(thumb);
pub const CODE_BIT: usize = THUMB as usize;
pub const SP: usize = 13;
pub const NREGS: usize = 15;
pub const REG_NAMES: [&str; 15] =
    ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr"];
pub const FLAG_MASK: usize = 0xF800_0000;
pub const STATES: usize = 2;
pub const NO_RED_ZONE: bool = false;
pub const ALWAYS_SCRATCH: u32 = 0;
#[cfg(thumb)]
pub const P: [usize; 16] = [0, 0, 2, 0, 4, 0, 6, 0, 8, 0, 10, 0, 12, 0, 14, 0];
#[cfg(not(thumb))]
pub const P: [usize; 16] = [0, 0, 0, 0, 4, 0, 0, 0, 8, 0, 0, 0, 12, 0, 0, 0];

core::arch::global_asm!(
    r#"
    .pushsection .text.mc,"ax"
    .fpu neon
    .arm
    .balign 4
    .global mc_enter
    .type mc_enter, %function
    mc_enter:
        push {{r4-r11, lr}}
        vpush {{d8-d15}}
        movw r1, #:lower16:MC
        movt r1, #:upper16:MC
        str sp, [r1]
        str r0, [r1, #4]
        add r2, r1, #272
        vldm r2!, {{d0-d15}}
        vldm r2!, {{d16-d31}}
        ldr r2, [r1, #8]
        msr APSR_nzcvq, r2
        ldr sp, [r1, #68]
        movw r3, #4092
        sub r3, sp, r3
        str r0, [r3]
        ldr r0, [r1, #16]
        add r1, r1, #24
        ldm r1, {{r2-r12}}
        ldr lr, [r1, #48]
        ldr r1, [r1, #-4]
        ldr pc, [sp, #-4092]
    .global mc_collect
    .type mc_collect, %function
    mc_collect:
        str r0, [sp, #-4088]
        str r1, [sp, #-4084]
        movw r0, #:lower16:MC
        movt r0, #:upper16:MC
        add r1, r0, #152
        stm r1, {{r2-r12}}
        str sp, [r0, #196]
        str lr, [r0, #200]
        ldr r1, [sp, #-4088]
        str r1, [r0, #144]
        ldr r1, [sp, #-4084]
        str r1, [r0, #148]
        mrs r1, APSR
        str r1, [r0, #12]
        add r1, r0, #784
        vstm r1!, {{d0-d15}}
        vstm r1!, {{d16-d31}}
        mov r0, #0
        b 3f
    .global mc_recover
    .type mc_recover, %function
    mc_recover:
        mov r0, #1
    3:
        movw r1, #:lower16:MC
        movt r1, #:upper16:MC
        ldr sp, [r1]
        vpop {{d8-d15}}
        pop {{r4-r11, pc}}
    .popsection
    "#
);

pub unsafe fn redirect(uc: *mut libc::c_void, to: usize) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.arm_pc = to as _;
    uc.uc_mcontext.arm_cpsr &= !(1 << 5 | 0x0600_FC00);
}
pub fn trap_fill(b: &mut [u8]) {
    for c in b.chunks_mut(4) {
        c.copy_from_slice(if THUMB { &[0x00, 0xDE, 0x00, 0xDE] } else { &[0xF0, 0x00, 0xF0, 0xE7] });
    }
}
extern "C" {
    fn __clear_cache(a: *const u8, b: *const u8);
}
pub fn flush(p: *const u8, n: usize) {
    unsafe { __clear_cache(p, p.add(n)) }
}
pub fn branch_to(at: usize, to: usize) -> Vec<u8> {
    let mut v = vec![];
    if THUMB {
        if at % 4 == 2 {
            v.extend_from_slice(&[0x00, 0xBF]);
        }
        v.extend_from_slice(&[0xDF, 0xF8, 0x00, 0xF0]);
    }
    else {
        v.extend_from_slice(&0xE51F_F004u32.to_le_bytes());
    }
    v.extend_from_slice(&to.to_le_bytes());
    v
}
pub fn vec_view(v: &[u8; 512]) -> &[u8] {
    &v[..256]
}
pub fn init_state(mc: &mut Mc, s: usize, sp: usize, data: usize) {
    for i in 0..15 {
        mc.in_regs[i] = 0x1111_2200usize.wrapping_mul(i + 1).wrapping_add(0x4080 + i * 3 + s);
    }
    mc.in_regs[SP] = sp;
    mc.in_regs[9] = data;
    mc.in_regs[6] = 3 + s; // loop counter
    mc.in_regs[0] = if s == 0 { 0 } else { 0x8000_0001 };
    mc.in_regs[1] = 0x100 * (1 + s); // index for register-offset loads
    mc.in_flags = if s == 0 { 0 } else { 0x6000_0000 };
    for i in 0..256 {
        mc.in_vec[i] = (i * 31 + 17 + s) as u8;
    }
}

static TAILS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
static mut REGS: (usize, u32) = (usize::MAX, 0);
pub fn setup() {
    let _ = TAILS.set(crate::raw_tails().into_iter().map(|x| x.unwrap_or_default()).collect());
}
pub fn tail(at: usize, _var: usize) -> &'static [u8] {
    &TAILS.get().unwrap()[at % 16]
}
pub fn closure_reg(_: usize) -> usize {
    unsafe { REGS.0 }
}
pub fn scratch_mask(_: usize) -> u32 {
    unsafe { REGS.1 }
}
pub fn calibrate(ex: &mut Explorer) {
    let r = calibrate_one(ex, 0, if THUMB { &[0, 2, 4, 8] } else { &[0, 4, 8, 12] });
    unsafe { REGS = r };
}
pub fn must_accept(sp: &Space, seq: &[usize], _: usize) -> bool {
    seq.iter().all(|&i| sp.items[i].kind != Kind::Other)
}

macro_rules! stream {
    ($name:ident, $sym:literal, $pre:literal, $($t:literal),* $(,)?) => {
        asm_stream!($sym, $pre, $($t),*);
        fn $name(pick: &[&str]) -> Vec<Item> {
            extern "C" { #[link_name = $sym] fn f(); }
            let meta = [$($t),*];
            let b = unsafe { parse_stream((f as usize & !1) as *const u8, meta.len()) };
            meta.iter().zip(b).filter(|m| pick.is_empty() || pick.contains(m.0)).map(|(m, b)| Item::fixed(&m.replace('\n', " / "), b)).collect()
        }
    };
}
#[cfg(not(thumb))]
stream!(plain, "mc_plain", ".arm\n.fpu neon\n.syntax unified",
    "nop",
    "push {{r4, r5, r11, lr}}",
    "push {{r0, r1, r2, r3}}",
    "add r11, sp, #8",
    "sub sp, sp, #24",
    "bfc sp, #0, #3",
    "str r0, [sp, #4]",
    "str lr, [sp, #-4]!",
    "vpush {{d8, d9}}",
    "mov r0, r2",
    "mov r12, #5",
    "movw r3, #0x1234",
    "movt r3, #0x5678",
    "add r2, r3, r4",
    "cmp r0, r2",
    "moveq r3, r2",
    "addne r4, r4, #1",
    "subs r6, r6, #1",
    "adc r0, r0, r2",
    "str r0, [r9]",
    "str r12, [r9, #16]",
    "strh r2, [r9, #24]",
    "strd r2, r3, [r9, #32]",
    "ldr r5, [r9, #8]",
    "ldrb r7, [r9, #3]",
    "ldrd r4, r5, [r9, #8]",
    "ldr r5, [r9, r1]",
    "ldrne r5, [r9, #8]",
    "stm r9, {{r0, r2, r3}}",
    "vldr d1, [r9, #8]",
    "vstr d0, [r9, #40]",
    "vst1.64 {{d2, d3}}, [r9]",
    "vmov r7, s0",
    "vadd.f32 s1, s2, s3",
    "vmov.i32 q8, #7",
    "dmb ish",
    "mov r8, r0",
    "ldr r0, [sp]",
    "mul r0, r0, r2",
    "clz r4, r5",
    "mrs r7, APSR",
    "ldrex r5, [r9]\nclrex",
    "and r0, r0, r0, lsl #3",
    "tst r0, #1",
);
#[cfg(not(thumb))]
stream!(odd, "mc_odd", ".arm\n.fpu neon\n.syntax unified",
    "add r0, pc, r1",
    "add r1, pc, r1",
    "add r0, pc, r1, lsl #1",
    "sub r0, pc, r1",
    "mov r0, pc",
    "mov r12, pc",
    "add r0, r1, pc",
    "adds r0, pc, #4",
    "subs r0, pc, #4",
    "adc r0, pc, #4",
    "and r0, pc, #0xff0",
    "bic r0, pc, #3",
    "orr r0, pc, #3",
    "eor r0, pc, #3",
    "rsb r0, pc, #0",
    "mvn r0, pc",
    "cmp pc, r1",
    "cmp r1, pc",
    "tst pc, #4",
    "addeq r0, pc, #4",
    "subne r0, pc, #4",
    "ldr r0, [pc, r1]",
    "ldr r0, [pc, -r1]",
    "ldr r2, [pc, r1, lsl #2]",
    "ldrb r0, [pc, r1]",
    "ldrh r0, [pc, r1]",
    "ldrsb r0, [pc, r1]",
    "ldrsh r0, [pc, -r1]",
    "ldrd r2, r3, [pc, r1]",
    "ldreq r0, [pc, #-8]",
    "ldrne r0, [pc, #-8]",
    "ldrbne r0, [pc, #-8]",
    "vldr d0, [pc, #-16]",
    "vldr s3, [pc, #-8]",
    "vldr d0, [pc, #64]",
    "ldm pc, {{r2, r3}}",
    "str pc, [r9, #4]",
    "push {{pc}}",
    "stm r9, {{r0, pc}}",
    "str r0, [pc, #2048]",
    "strb r0, [pc, #2048]",
    "strh r0, [pc, #-128]",
    "str pc, [pc, #2048]",
    "pld [pc, #8]",
    "ldrd r2, r3, [pc, #-16]",
    "add pc, pc, #-4",
    "mov pc, lr",
    "ldr pc, [r9]",
    "pop {{pc}}",
    "ldm sp, {{r0, pc}}",
    "bx lr",
    "blx r0",
    "bl 9f",
    "bl 7f\nmov r0, r2\n7:",
    "beq 9f",
    "beq 7f\nmov r0, r2\n7:",
    "bne 7f\nmov r0, r2\n7:",
    "bne 7f\nadd r3, pc, #4\n7:",
    "beq 7f\nadd r3, pc, #4\n7:",
    "bne 7f\nldr r3, [pc, #-8]\n7:",
    "subs r6, r6, #1\nbne 8b",
    "mov r5, lr\nbl 7f\n7: mov r7, lr\nmov lr, r5",
    "svc #0",
    "vmrs r2, fpscr",
    "mrc p15, 0, r2, c13, c0, 3",
    "b .",
);
#[cfg(thumb)]
stream!(plain, "mc_plain", ".thumb\n.fpu neon\n.syntax unified",
    "nop",
    "nop.w",
    "push {{r4, r5, r7, lr}}",
    "push.w {{r8, r11}}",
    "push {{r0, r1, r2, r3}}",
    "add r7, sp, #8",
    "sub sp, #24",
    "sub.w sp, sp, #32",
    "str r0, [sp, #4]",
    "str lr, [sp, #-4]!",
    "vpush {{d8, d9}}",
    "movs r0, #3",
    "mov r0, r2",
    "mov r12, #5",
    "movw r3, #0x1234",
    "movt r3, #0x5678",
    "adds r2, r3, r4",
    "add r2, r8",
    "cmp r0, r2",
    "it eq\nmoveq r3, r2",
    "itt ne\naddne r4, #1\nmovne r5, r2",
    "ite eq\nmoveq r3, r2\nldrne r3, [r9]",
    "subs r6, #1",
    "adcs r0, r2",
    "str.w r0, [r9]",
    "str.w r12, [r9, #16]",
    "strh.w r2, [r9, #24]",
    "strd r2, r3, [r9, #32]",
    "ldr.w r5, [r9, #8]",
    "ldrb.w r7, [r9, #3]",
    "ldrd r4, r5, [r9, #8]",
    "ldr.w r5, [r9, r1]",
    "stm.w r9, {{r0, r2, r3}}",
    "vldr d1, [r9, #8]",
    "vstr d0, [r9, #40]",
    "vst1.64 {{d2, d3}}, [r9]",
    "vmov r7, s0",
    "vadd.f32 s1, s2, s3",
    "vmov.i32 q8, #7",
    "dmb ish",
    "mov r8, r0",
    "ldr r0, [sp]",
    "muls r0, r2, r0",
    "clz r4, r5",
    "mrs r7, APSR",
    "ldrex r5, [r9]\nclrex",
    "tst r0, r2",
    "mov r4, sp\nbfc r4, #0, #4\nmov sp, r4",
);
#[cfg(thumb)]
stream!(odd, "mc_odd", ".thumb\n.fpu neon\n.syntax unified",
    "add r0, pc",
    "add r1, pc",
    "add r12, pc",
    "mov r0, pc",
    "mov r12, pc",
    "mov.w r2, r3\nmov r3, pc",
    "cmp r1, pc",
    "it eq\naddeq r0, pc",
    "it ne\nmovne r0, pc",
    ".inst.n 0xbf08\n.inst.n 0x4b00", // it eq; ldreq r3, [pc, #0]
    ".inst.n 0xbf18\n.inst.n 0x4b00", // it ne; ldrne r3, [pc, #0]
    ".inst.n 0xbf08\n.inst.n 0xa300", // it eq; adreq r3, [pc, #0]
    ".inst.n 0xbf08\n.inst.w 0xf85f3008", // it eq; ldreq.w r3, [pc, #-8]
    ".inst.n 0xbf18\n.inst.w 0xf2af0308", // it ne; adrne.w r3, -8
    "vldr d0, [pc, #-16]",
    "vldr s3, [pc, #-8]",
    "vldr d0, [pc, #64]",
    "pld [pc, #8]",
    "pld [pc, #-8]",
    "pli [pc, #8]",
    "tbb [pc, r1]",
    "tbh [pc, r1, lsl #1]",
    "mov pc, lr",
    "ldr pc, [r9]",
    "ldr.w pc, [pc, #-8]",
    "pop {{pc}}",
    "pop.w {{r4, pc}}",
    "ldm.w sp, {{r0, pc}}",
    "bx lr",
    "blx r0",
    "bl 9f",
    "bl 7f\nmov r0, r2\n7:",
    "beq.n 7f\nnop\n7:",
    "beq 7f\nmov r0, r2\n7:",
    "bne 7f\nmov r0, r2\n7:",
    "bne.w 7f\nmov r0, r2\n7:",
    "beq.w 7f\nmov r0, r2\n7:",
    "bne 7f\nldr.w r3, [pc, #-8]\n7:",
    "beq 7f\nldr.w r3, [pc, #-8]\n7:",
    "cbz r0, 7f\nmov r2, r3\n7:",
    "cbnz r0, 7f\nmov r2, r3\n7:",
    "cbz r0, 7f\nldr.w r3, [pc, #-8]\n7:",
    "subs r6, #1\nbne 8b",
    "mov r5, lr\nbl 7f\n7: mov r7, lr\nmov lr, r5",
    "svc #0",
    "vmrs r2, fpscr",
    "mrc p15, 0, r2, c13, c0, 3",
    "b .",
    "b.w .",
);

// ---------------------------------------------------------------- PC-relative encoders

#[derive(Clone, Copy)]
enum To {
    Off(usize),
    Imm(i64),
}
#[derive(Clone, Copy, PartialEq)]
enum Ld {
    W,
    B,
    H,
    SB,
    SH,
    D,
}
fn item(name: String, len: usize, kind: Kind, f: impl Fn(&Ctx) -> Option<(Vec<u8>, Option<(usize, usize)>)> + 'static) -> Item {
    Item {
        name,
        len,
        kind,
        reads: 0,
        writes: 0,
        escapes: false,
        emit: Box::new(move |c| f(c).map(|(bytes, touch)| Emitted { bytes, touch })),
    }
}
fn pc_of(c: &Ctx) -> i64 {
    (if THUMB { (c.addr + 4) & !3 } else { c.addr + 8 }) as i64
}
fn rel(c: &Ctx, to: To) -> i64 {
    match to {
        To::Off(o) => arena(o) as i64 - pc_of(c),
        To::Imm(i) => i,
    }
}
fn to_name(to: To) -> String {
    match to {
        To::Off(o) => format!("T{:+#x}", o as i64 - TPL_OFF as i64),
        // i64::MIN stands for minus zero
        To::Imm(i) if i == i64::MIN => "#-0".into(),
        To::Imm(i) => format!("#{i}"),
    }
}
fn sign(d: i64) -> (u32, u32) {
    if d == i64::MIN {
        (0, 0)
    }
    else {
        ((d >= 0) as u32, d.unsigned_abs() as u32)
    }
}
fn wide(hw1: u32, hw2: u32) -> Vec<u8> {
    let mut v = (hw1 as u16).to_le_bytes().to_vec();
    v.extend_from_slice(&(hw2 as u16).to_le_bytes());
    v
}
/// Literal load, 4-byte encoding.
fn lit(ld: Ld, rt: u32, to: To) -> Item {
    let (mn, size) = match ld {
        Ld::W => ("ldr", 4),
        Ld::B => ("ldrb", 1),
        Ld::H => ("ldrh", 2),
        Ld::SB => ("ldrsb", 1),
        Ld::SH => ("ldrsh", 2),
        Ld::D => ("ldrd", 8),
    };
    item(format!("{mn}{} r{rt}, {}", if THUMB { ".w" } else { "" }, to_name(to)), 4, Kind::Pc, move |c| {
        let d = rel(c, to);
        let (u, m) = sign(d);
        let t = (pc_of(c) + if u == 1 { m as i64 } else { -(m as i64) }) as usize;
        let bytes = if THUMB {
            if ld == Ld::D {
                if m > 1020 || m % 4 != 0 {
                    return None;
                }
                wide(0xE95F | u << 7, rt << 12 | (rt + 1) << 8 | m / 4)
            }
            else {
                if m > 4095 {
                    return None;
                }
                let op = match ld {
                    Ld::W => 0xF85F,
                    Ld::B => 0xF81F,
                    Ld::H => 0xF83F,
                    Ld::SB => 0xF91F,
                    _ => 0xF93F,
                };
                wide(op | u << 7, rt << 12 | m)
            }
        }
        else if matches!(ld, Ld::W | Ld::B) {
            if m > 4095 {
                return None;
            }
            (0xE51F_0000 | u << 23 | ((ld == Ld::B) as u32) << 22 | rt << 12 | m).to_le_bytes().to_vec()
        }
        else {
            if m > 255 {
                return None;
            }
            let op = match ld {
                Ld::H => 0xE15F_00B0,
                Ld::SB => 0xE15F_00D0,
                Ld::SH => 0xE15F_00F0,
                _ => 0xE14F_00D0u32,
            };
            (op | u << 23 | rt << 12 | (m >> 4) << 8 | m & 15).to_le_bytes().to_vec()
        };
        if ld == Ld::D && t % 4 != 0 || ld == Ld::W && THUMB && t % 4 != 0 {
            return None;
        }
        Some((bytes, Some((t, t + size))))
    })
}
/// Address computation, 4-byte encoding.
#[cfg(thumb)]
fn adr(rd: u32, to: To) -> Item {
    item(format!("adr.w r{rd}, {}", to_name(to)), 4, Kind::Pc, move |c| {
        let (u, m) = sign(rel(c, to));
        if m > 4095 {
            return None;
        }
        Some((
            wide(if u == 1 { 0xF20F } else { 0xF2AF } | (m >> 11) << 10, (m >> 8 & 7) << 12 | rd << 8 | m & 255),
            None,
        ))
    })
}
#[cfg(not(thumb))]
fn adr_rot(rd: u32, add: bool, rot: u32, imm8: u32) -> Item {
    item(format!("{} r{rd}, pc, #{imm8} ror {}", if add { "add" } else { "sub" }, rot * 2), 4, Kind::Pc, move |_| {
        let op = if add { 0xE28F_0000u32 } else { 0xE24F_0000 };
        Some(((op | rd << 12 | rot << 8 | imm8).to_le_bytes().to_vec(), None))
    })
}
#[cfg(not(thumb))]
fn adr(rd: u32, to: To) -> Item {
    let To::Imm(i) = to else { unreachable!() };
    adr_rot(rd, i >= 0, 0, i.unsigned_abs() as u32)
}
#[cfg(thumb)]
fn adr_n(rd: u32, imm8: u32) -> Item {
    item(format!("adr r{rd}, #{}", imm8 * 4), 2, Kind::Pc, move |_| {
        Some(((0xA000 | rd << 8 | imm8).to_le_bytes()[..2].to_vec(), None))
    })
}
#[cfg(thumb)]
fn ldr_n(rt: u32, imm8: u32) -> Item {
    item(format!("ldr r{rt}, #{}", imm8 * 4), 2, Kind::Pc, move |c| {
        let t = pc_of(c) as usize + imm8 as usize * 4;
        Some(((0x4800 | rt << 8 | imm8).to_le_bytes()[..2].to_vec(), Some((t, t + 4))))
    })
}

// ---------------------------------------------------------------- branches

fn enc_branch(cond: u32, wide_enc: bool, from: usize, to: usize) -> Option<Vec<u8>> {
    if !THUMB {
        let d = to as i64 - (from as i64 + 8);
        return Some((cond << 28 | 0x0A00_0000 | (d >> 2) as u32 & 0xFF_FFFF).to_le_bytes().to_vec());
    }
    let d = to as i64 - (from as i64 + 4);
    if !wide_enc {
        return if cond == 14 {
            (-2048..2048).contains(&d).then(|| (0xE000 | (d >> 1) as u32 & 0x7FF).to_le_bytes()[..2].to_vec())
        }
        else {
            (-256..256).contains(&d).then(|| (0xD000 | cond << 8 | (d >> 1) as u32 & 0xFF).to_le_bytes()[..2].to_vec())
        };
    }
    let x = d as i32 as u32;
    let s = x >> 31;
    if cond == 14 {
        let (j1, j2) = ((x >> 23 & 1) ^ 1 ^ s, (x >> 22 & 1) ^ 1 ^ s);
        Some(wide(0xF000 | s << 10 | x >> 12 & 0x3FF, 0x9000 | j1 << 13 | j2 << 11 | x >> 1 & 0x7FF))
    }
    else {
        Some(wide(
            0xF000 | s << 10 | cond << 6 | x >> 12 & 0x3F,
            0x8000 | (x >> 18 & 1) << 13 | (x >> 19 & 1) << 11 | x >> 1 & 0x7FF,
        ))
    }
}
fn br(cond: u32, w: bool, n: isize) -> Item {
    let nm = ["eq", "ne"].get(cond as usize).copied().unwrap_or("");
    item(format!("b{nm}{} {n:+}", if w { ".w" } else { "" }), if THUMB && !w { 2 } else { 4 }, Kind::Other, move |c| {
        Some((enc_branch(cond, w, c.addr, c.label(n)?)?, None))
    })
}
fn br_out(cond: u32, w: bool, body: bool) -> Item {
    let nm = ["eq", "ne"].get(cond as usize).copied().unwrap_or("");
    let mut i = item(
        format!("b{nm}{} {}", if w { ".w" } else { "" }, if body { "body" } else { "fetch+4" }),
        if THUMB && !w { 2 } else { 4 },
        Kind::Other,
        move |c| {
            let ts = *c.addrs.last().unwrap();
            let to = if body { ts + tail(ts, 0).len() } else { ts + 4 };
            Some((enc_branch(cond, w, c.addr, to)?, None))
        },
    );
    i.escapes = true;
    i
}

fn branches() -> Vec<Item> {
    let mut a = vec![];
    for cond in [14, 0, 1] {
        for n in 0..=3 {
            a.push(br(cond, false, n));
            if THUMB {
                a.push(br(cond, true, n));
            }
        }
        a.push(br_out(cond, false, true));
        a.push(br_out(cond, false, false));
    }
    a.push(br(14, true, -2));
    a.push(br(14, false, -2));
    a.push(br(14, false, -3));
    a
}
const LDS: [Ld; 6] = [Ld::W, Ld::B, Ld::H, Ld::SB, Ld::SH, Ld::D];
fn pcrel() -> Vec<Item> {
    let mut a = vec![];
    for ld in LDS {
        for to in [-8i64, -64, -200, 200, 248, 0] {
            a.push(lit(ld, 2, To::Imm(to)));
        }
        a.push(lit(ld, 6, To::Imm(-32)));
        a.push(lit(ld, 10, To::Imm(228)));
    }
    a.push(lit(Ld::W, 0, To::Off(NEAR_HI + 24)));
    a.push(lit(Ld::W, 12, To::Off(NEAR_LO + 24)));
    a.push(lit(Ld::W, 14, To::Off(NEAR_LO + 28)));
    a.push(lit(Ld::B, 3, To::Off(NEAR_HI + 21)));
    for to in [-8i64, -1, 4, 33, 255] {
        a.push(adr(3, To::Imm(to)));
        a.push(adr(12, To::Imm(to)));
    }
    a.push(adr(14, To::Imm(4)));
    #[cfg(not(thumb))]
    a.extend([adr_rot(0, true, 12, 3), adr_rot(0, false, 4, 0x81), adr_rot(1, true, 1, 0xFF)]);
    #[cfg(thumb)]
    for i in [0, 1, 50, 255] {
        a.push(adr_n(3, i));
        a.push(adr_n(0, i));
        a.push(ldr_n(3, i));
        a.push(ldr_n(0, i));
    }
    a
}

pub fn spaces(_accept: bool) -> Vec<Space> {
    let offs: &[usize] = if THUMB { &[0, 2] } else { &[0, 4] };
    let all = || {
        let mut a = plain(&[]);
        a.extend(pcrel());
        a.extend(branches());
        a.extend(odd(&[]).into_iter().map(Item::other));
        a
    };
    let mut v = vec![];
    // the complete immediate space of every supported form
    let mut imm = vec![];
    for ld in LDS {
        let max = match (THUMB, ld) {
            (true, Ld::D) => 1020,
            (true, _) | (false, Ld::W | Ld::B) => 4095,
            _ => 255,
        };
        for m in 0..=max {
            imm.push(lit(ld, 4, To::Imm(m)));
            imm.push(lit(ld, 4, To::Imm(if m == 0 { i64::MIN } else { -m })));
        }
    }
    #[cfg(not(thumb))]
    for add in [true, false] {
        for rot in 0..16 {
            for i in 0..=255 {
                imm.push(adr_rot(4, add, rot, i));
            }
        }
    }
    #[cfg(thumb)]
    {
        for m in 0..=4095 {
            imm.push(adr(4, To::Imm(m)));
            imm.push(adr(4, To::Imm(if m == 0 { i64::MIN } else { -m })));
        }
        for i in 0..=255 {
            imm.push(adr_n(4, i));
            imm.push(ldr_n(4, i));
        }
    }
    v.push(Space::new("imm", imm, 1, 1, offs));
    // every destination register
    let mut regs = vec![];
    for r in (0..15).filter(|r| *r != 13) {
        for ld in LDS {
            if ld != Ld::D || r % 2 == 0 && r < 12 {
                regs.push(lit(ld, r, To::Imm(-12)));
                regs.push(lit(ld, r, To::Imm(200)));
            }
        }
        regs.push(adr(r, To::Imm(12)));
        regs.push(adr(r, To::Imm(-12)));
    }
    v.push(Space::new("regs", regs, 1, 1, offs));
    v.push(Space::new("pairs", all(), 0, 2, offs));
    let core = || {
        let mut a = plain(&[
            "push {{r4, r5, r11, lr}}",
            "push {{r4, r5, r7, lr}}",
            "sub sp, sp, #24",
            "sub sp, #24",
            "movs r0, #3",
            "mov r0, r2",
            "cmp r0, r2",
            "moveq r3, r2",
            "it eq\nmoveq r3, r2",
            "str r12, [r9, #16]",
            "str.w r12, [r9, #16]",
        ]);
        a.extend([
            lit(Ld::W, 12, To::Imm(200)),
            lit(Ld::W, 3, To::Imm(-8)),
            lit(Ld::SH, 3, To::Imm(-16)),
            lit(Ld::D, 2, To::Imm(-16)),
            adr(12, To::Imm(-33)),
            br(14, false, 0),
            br(14, false, 1),
            br(14, false, 2),
            br(0, false, 1),
        ]);
        #[cfg(thumb)]
        a.extend([adr_n(3, 3), ldr_n(3, 50)]);
        a.extend(odd(&["add r0, pc, r1", "add r0, pc", "vldr d0, [pc, #-16]", "ldr r0, [pc, r1]"]).into_iter().map(Item::other));
        a
    };
    v.push(Space::new("triples", core(), 3, 3, offs));
    v.push(Space::new("len4", core(), 4, 4, &[0]).thorough());
    v.push(Space::new("alltriples", all(), 3, 3, &[0]).thorough());
    let tiny = || {
        let mut a = plain(&["nop", "str r12, [r9, #16]", "str.w r12, [r9, #16]"]);
        a.extend([adr(12, To::Imm(-33)), lit(Ld::W, 12, To::Imm(200))]);
        #[cfg(thumb)]
        a.extend([adr_n(3, 30), ldr_n(3, 50)]);
        a
    };
    v.push(Space::new("len5", tiny(), 4, 5, offs));
    for n in [12usize, 24] {
        let mut r = Space::new(if n == 12 { "long12" } else { "long24" }, tiny(), 0, 3, offs);
        r.pre = vec![1; n - 6];
        r.post = vec![0; 3];
        v.push(r);
    }
    // prologues around the 4 KB reach of the literal loads the relocator emits
    let nop: &[u8] = if THUMB { &[0x00, 0xbf] } else { &[0x00, 0xf0, 0x20, 0xe3] };
    let fill = |n: usize| Item::fixed(&format!("nop x {}", n / nop.len()), nop.repeat(n / nop.len())).other();
    let mut far = vec![adr(12, To::Imm(-33)), lit(Ld::W, 12, To::Imm(-200))];
    far.push(fill(8));
    far.extend((4040..4112).step_by(nop.len()).map(fill));
    v.push(Space::new("far", far, 2, 2, offs).far());
    v
}
