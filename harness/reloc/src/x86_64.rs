use crate::engine::*;
use std::sync::OnceLock;

pub const NAME: &str = "x86_64";
pub const CODE_BIT: usize = 0;
pub const SP: usize = 4;
pub const NREGS: usize = 16;
pub const REG_NAMES: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13",
    "r14", "r15",
];
pub const FLAG_MASK: usize = 0xCD5; // OF DF SF ZF AF PF CF
pub const STATES: usize = 2;
pub const NO_RED_ZONE: bool = false;
pub const ALWAYS_SCRATCH: u32 = 0;
pub const P: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

core::arch::global_asm!(
    r#"
    .pushsection .text
    .global mc_enter
    mc_enter:
        push rbx
        push rbp
        push r12
        push r13
        push r14
        push r15
        pushfq
        mov [rip + MC], rsp
        mov [rip + MC + 8], rdi
        fxsave64 [rip + MC + 544 + 1024]
        fxrstor64 [rip + MC + 544]
        push qword ptr [rip + MC + 16]
        popfq
        mov rsp, [rip + MC + 32 + 32]
        mov rax, [rip + MC + 32]
        mov rcx, [rip + MC + 40]
        mov rdx, [rip + MC + 48]
        mov rbx, [rip + MC + 56]
        mov rbp, [rip + MC + 72]
        mov rsi, [rip + MC + 80]
        mov rdi, [rip + MC + 88]
        mov r8, [rip + MC + 96]
        mov r9, [rip + MC + 104]
        mov r10, [rip + MC + 112]
        mov r11, [rip + MC + 120]
        mov r12, [rip + MC + 128]
        mov r13, [rip + MC + 136]
        mov r14, [rip + MC + 144]
        mov r15, [rip + MC + 152]
        jmp [rip + MC + 8]
    .global mc_collect
    mc_collect:
        mov [rip + MC + 288], rax
        mov [rip + MC + 296], rcx
        mov [rip + MC + 304], rdx
        mov [rip + MC + 312], rbx
        mov [rip + MC + 320], rsp
        mov [rip + MC + 328], rbp
        mov [rip + MC + 336], rsi
        mov [rip + MC + 344], rdi
        mov [rip + MC + 352], r8
        mov [rip + MC + 360], r9
        mov [rip + MC + 368], r10
        mov [rip + MC + 376], r11
        mov [rip + MC + 384], r12
        mov [rip + MC + 392], r13
        mov [rip + MC + 400], r14
        mov [rip + MC + 408], r15
        mov rsp, [rip + MC]
        pushfq
        pop qword ptr [rip + MC + 24]
        cld
        fxsave64 [rip + MC + 544 + 512]
        fxrstor64 [rip + MC + 544 + 1024]
        xor eax, eax
        jmp 3f
    .global mc_recover
    mc_recover:
        cld
        mov rsp, [rip + MC]
        fxrstor64 [rip + MC + 544 + 1024]
        mov eax, 1
    3:
        popfq
        pop r15
        pop r14
        pop r13
        pop r12
        pop rbp
        pop rbx
        ret
    .popsection
    "#
);

pub unsafe fn redirect(uc: *mut libc::c_void, to: usize) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.gregs[libc::REG_RIP as usize] = to as i64;
}
pub fn trap_fill(b: &mut [u8]) {
    b.fill(0xCC)
}
pub fn flush(_: *const u8, _: usize) {}
pub fn branch_to(at: usize, to: usize) -> Vec<u8> {
    let mut v = vec![0xE9];
    v.extend_from_slice(&((to as i64 - (at as i64 + 5)) as i32).to_le_bytes());
    v
}
pub fn vec_view(v: &[u8; 512]) -> &[u8] {
    &v[24..416]
}
pub fn init_state(mc: &mut Mc, s: usize, sp: usize, data: usize) {
    for i in 0..16 {
        mc.in_regs[i] = 0x1111_0000_2222_0000usize.wrapping_mul(i + 1).wrapping_add(0x4080 + i * 3 + s);
    }
    mc.in_regs[SP] = sp;
    mc.in_regs[1] = 5 + s; // rcx: loop counts
    mc.in_regs[7] = data; // rdi
    mc.in_regs[6] = 0xF00D_0000_1234_5601; // rsi
    mc.in_regs[0] = if s == 0 { 0xAAAA_BBBB_CCCC_0007 } else { 0xAAAA_BBBB_CCCC_0000 };
    mc.in_flags = if s == 0 { 0x2 } else { 0x2 | 0x8D5 };
    unsafe {
        // keep control words valid: start from the host's
        let host = &mut *(&raw mut MC.host_vec);
        core::arch::x86_64::_fxsave64(host.as_mut_ptr());
        mc.in_vec.copy_from_slice(host);
    }
    for i in 0..256 {
        mc.in_vec[160 + i] = (i * 31 + 17 + s) as u8;
    }
}

// ---------------------------------------------------------------- closure-fetch blocks

struct Tails {
    v: Vec<Vec<Vec<u8>>>, // [variant][residue]
}
static TAILS: OnceLock<Tails> = OnceLock::new();
static mut REGS: [(usize, u32); 8] = [(usize::MAX, 0); 8];

/// Closure registers tried besides the one the compiler picked.
const VARIANT_REGS: [u8; 5] = [1, 10, 3, 12, 13];

pub fn setup() {
    let raw: Vec<Vec<u8>> = crate::raw_tails().into_iter().map(|x| x.unwrap()).collect();
    let mut v = vec![raw.clone()];
    if raw.iter().all(|t| t[0] & 0xFB == 0x48 && t[1] == 0x8B && t[2] & 0xC7 == 0x05) {
        for r in VARIANT_REGS {
            v.push(
                raw.iter()
                    .map(|t| {
                        let mut t = t.clone();
                        t[0] = 0x48 | (r >> 3) << 2;
                        t[2] = 0x05 | (r & 7) << 3;
                        t
                    })
                    .collect(),
            );
        }
    }
    let _ = TAILS.set(Tails { v });
}
pub fn tail_variants() -> usize {
    TAILS.get().unwrap().v.len()
}
pub fn tail(at: usize, var: usize) -> &'static [u8] {
    &TAILS.get().unwrap().v[var][at % 16]
}
pub fn closure_reg(var: usize) -> usize {
    unsafe { REGS[var].0 }
}
pub fn scratch_mask(var: usize) -> u32 {
    unsafe { REGS[var].1 }
}

/// Find the registers the closure-fetch block itself changes, by running it alone.
pub fn calibrate(ex: &mut Explorer) {
    for var in 0..tail_variants() {
        let (c, m) = calibrate_one(ex, var, &[0, 1, 3, 8]);
        unsafe { REGS[var] = (c, m) };
    }
}

pub fn must_accept(sp: &Space, seq: &[usize], var: usize) -> bool {
    let items: Vec<_> = seq.iter().map(|&i| &sp.items[i]).collect();
    let cl = 1u32 << closure_reg(var);
    // registers whose next access is a full overwrite, walking backwards
    let mut dead: u32 = cl;
    let mut dead_at = vec![dead; items.len() + 1];
    for (i, it) in items.iter().enumerate().rev() {
        match it.kind {
            Kind::Other => return false,
            // over nothing that has to be changed; registers used by what is skipped do not count
            Kind::Skip(n) => {
                let Some(skipped) = items.get(i + 1..i + 1 + n)
                else {
                    return false;
                };
                if skipped.iter().any(|s| matches!(s.kind, Kind::Pc | Kind::Other)) {
                    return false;
                }
                dead &= dead_at[i + 1 + n];
                for s in skipped {
                    dead &= !(s.reads | s.writes);
                }
            }
            Kind::Plain => dead = (dead | it.writes) & !it.reads,
            Kind::Pc => {
                // the register written by the instruction itself may hold the address
                dead = (dead | it.writes) & !it.reads;
                if dead & !(1 << SP) == 0 {
                    return false;
                }
            }
        }
        dead_at[i] = dead;
    }
    true
}

// ---------------------------------------------------------------- alphabets

fn mask(s: &str) -> u32 {
    s.split_whitespace()
        .map(|r| 1u32 << REG_NAMES.iter().position(|n| *n == r).unwrap_or_else(|| panic!("{r}")))
        .sum()
}

macro_rules! stream {
    ($name:ident, $sym:literal, $(($t:literal, $r:literal, $w:literal)),* $(,)?) => {
        asm_stream!($sym, "", $($t),*);
        fn $name() -> Vec<(&'static str, &'static str, &'static str, Vec<u8>)> {
            extern "C" { #[link_name = $sym] fn f(); }
            let meta = [$(($t, $r, $w)),*];
            let b = unsafe { parse_stream(f as *const u8, meta.len()) };
            meta.iter().zip(b).map(|(m, b)| (m.0, m.1, m.2, b)).collect()
        }
    };
}

stream!(plain_all, "mc_plain",
    ("nop", "", ""),
    ("endbr64", "", ""),
    ("push rbx", "rbx rsp", ""),
    ("push rax", "rax rsp", ""),
    ("pop rcx", "rsp", "rcx"),
    ("mov rbp, rsp", "rsp", "rbp"),
    ("sub rsp, 40", "rsp", ""),
    ("and rsp, -32", "rsp", ""),
    ("mov [rsp + 8], rdi", "rsp rdi", ""),
    ("mov rax, rdi", "rdi", "rax"),
    ("mov eax, esi", "rsi", "rax"),
    ("mov al, sil", "rsi rax", ""),
    ("mov ah, 3", "rax", ""),
    ("mov cx, si", "rsi rcx", ""),
    ("xor eax, eax", "rax", ""),
    ("xor ecx, ecx", "rcx", ""),
    ("test al, al", "rax", ""),
    ("cmp rdi, rsi", "rdi rsi", ""),
    ("mov r11, 0x1234567", "", "r11"),
    ("mov r10, r11", "r11", "r10"),
    ("lea rax, [rdi + rsi]", "rdi rsi", "rax"),
    ("mov rcx, [rdi + 8]", "rdi", "rcx"),
    ("mov [rdi + 16], rcx", "rdi rcx", ""),
    ("cmove rax, rcx", "rax rcx", ""),
    ("cmove eax, ecx", "rax rcx", ""),
    ("sete cl", "rcx", ""),
    ("movzx eax, dil", "rdi", "rax"),
    ("movsxd rcx, esi", "rsi", "rcx"),
    ("xchg rax, rcx", "rax rcx", ""),
    ("cqo", "rax", "rdx"),
    ("imul rax, rcx", "rax rcx", ""),
    ("mul rcx", "rax rcx", "rdx"),
    ("bsf rax, rsi", "rax rsi", ""),
    ("shl rcx, 3", "rcx", ""),
    ("adc rax, 0", "rax", ""),
    ("inc r11", "r11", ""),
    ("movaps [rdi + 32], xmm0", "rdi", ""),
    ("movq rax, xmm0", "", "rax"),
    ("movq xmm1, rcx", "rcx", ""),
    ("stc", "", ""),
    ("mov rbx, rax", "rax", "rbx"),
    ("mov r12d, r13d", "r13", "r12"),
    ("mov r13, r12", "r12", "r13"),
    ("cmpxchg rcx, rdx", "rax rcx rdx", ""),
    ("mov rsp, rsp", "rsp", ""),
    ("enter 16, 0", "rsp rbp", ""),
    ("lahf", "rax", ""),
    ("bt rsi, 3", "rsi", ""),
    ("xadd rax, rcx", "rax rcx", ""),
    ("bswap rax", "rax", ""),
    ("mov edx, [rsp]", "rsp", "rdx"),
    ("pop r11", "rsp", "r11"),
    ("push -1", "rsp", ""),
    ("pushfq", "rsp", ""),
    ("neg rcx", "rcx", ""),
);

// displacement placeholder is replaced by the distance to the data window
stream!(rip_all, "mc_rip",
    ("mov rax, [rip + 0x11223344]", "", "rax"),
    ("mov rcx, [rip + 0x11223344]", "", "rcx"),
    ("mov rsi, [rip + 0x11223344]", "", "rsi"),
    ("mov rbp, [rip + 0x11223344]", "", "rbp"),
    ("mov r8, [rip + 0x11223344]", "", "r8"),
    ("mov r11, [rip + 0x11223344]", "", "r11"),
    ("mov r12, [rip + 0x11223344]", "", "r12"),
    ("mov r13, [rip + 0x11223344]", "", "r13"),
    ("mov eax, [rip + 0x11223344]", "", "rax"),
    ("mov r12d, [rip + 0x11223344]", "", "r12"),
    ("mov al, [rip + 0x11223344]", "rax", ""),
    ("mov cx, [rip + 0x11223344]", "rcx", ""),
    ("movzx edx, byte ptr [rip + 0x11223344]", "", "rdx"),
    ("movsx rcx, word ptr [rip + 0x11223344]", "", "rcx"),
    ("movsxd rax, dword ptr [rip + 0x11223344]", "", "rax"),
    ("lea rax, [rip + 0x11223344]", "", "rax"),
    ("lea rcx, [rip + 0x11223344]", "", "rcx"),
    ("lea r12, [rip + 0x11223344]", "", "r12"),
    ("lea r13, [rip + 0x11223344]", "", "r13"),
    ("lea edx, [rip + 0x11223344]", "", "rdx"),
    ("lea rdi, [rip + 0x11223344]", "", "rdi"),
    ("cmp byte ptr [rip + 0x11223344], 0", "", ""),
    ("cmp rax, [rip + 0x11223344]", "rax", ""),
    ("cmp [rip + 0x11223344], rcx", "rcx", ""),
    ("cmp dword ptr [rip + 0x11223344], 0x12345678", "", ""),
    ("test dword ptr [rip + 0x11223344], 0x1000", "", ""),
    ("add rax, [rip + 0x11223344]", "rax", ""),
    ("add [rip + 0x11223344], rax", "rax", ""),
    ("mov [rip + 0x11223344], rax", "rax", ""),
    ("mov [rip + 0x11223344], r12", "r12", ""),
    ("mov [rip + 0x11223344], r11", "r11", ""),
    ("mov [rip + 0x11223344], cl", "rcx", ""),
    ("mov dword ptr [rip + 0x11223344], 0x12345678", "", ""),
    ("mov qword ptr [rip + 0x11223344], -1", "", ""),
    ("inc dword ptr [rip + 0x11223344]", "", ""),
    ("lock inc qword ptr [rip + 0x11223344]", "", ""),
    ("movaps xmm0, [rip + 0x11223344]", "", ""),
    ("movups [rip + 0x11223344], xmm1", "", ""),
    ("movsd xmm2, [rip + 0x11223344]", "", ""),
    ("mulss xmm1, [rip + 0x11223344]", "", ""),
    ("xorps xmm8, [rip + 0x11223344]", "", ""),
    ("pshufb xmm0, [rip + 0x11223344]", "", ""),
    ("vpxor xmm3, xmm0, [rip + 0x11223344]", "", ""),
    ("push qword ptr [rip + 0x11223344]", "rsp", ""),
    ("pop qword ptr [rip + 0x11223344]", "rsp", ""),
    ("xchg [rip + 0x11223344], rax", "rax", ""),
    ("cmpxchg [rip + 0x11223344], rcx", "rax rcx", ""),
    ("xadd [rip + 0x11223344], rcx", "rcx", ""),
    ("imul rax, [rip + 0x11223344], 5", "", "rax"),
    ("imul rcx, [rip + 0x11223344]", "rcx", ""),
    ("mul qword ptr [rip + 0x11223344]", "rax", "rdx"),
    ("cmove rax, [rip + 0x11223344]", "rax", ""),
    ("cmove ecx, [rip + 0x11223344]", "rcx", ""),
    ("bt dword ptr [rip + 0x11223344], 3", "", ""),
    ("sete [rip + 0x11223344]", "", ""),
    ("sbb rax, [rip + 0x11223344]", "rax", ""),
    ("shl dword ptr [rip + 0x11223344], 3", "", ""),
    ("cvtsi2sd xmm0, qword ptr [rip + 0x11223344]", "", ""),
    ("cvttsd2si rcx, [rip + 0x11223344]", "", "rcx"),
    ("bsr rax, [rip + 0x11223344]", "rax", ""),
    ("prefetcht0 [rip + 0x11223344]", "", ""),
    ("movbe rax, [rip + 0x11223344]", "", "rax"),
    ("cs mov rax, [rip + 0x11223344]", "", "rax"),
    ("lea ecx, [eip + 0x11223344]", "", "rcx"),
    ("andn rax, rax, [rip + 0x11223344]", "rax", ""),
    ("andn rcx, rdx, [rip + 0x11223344]", "rdx", "rcx"),
    ("mulx rcx, rdx, [rip + 0x11223344]", "rdx", "rcx"),
    ("bextr rax, [rip + 0x11223344], rax", "rax", ""),
    ("shlx rcx, [rip + 0x11223344], rcx", "rcx", ""),
    ("rorx rax, [rip + 0x11223344], 3", "", "rax"),
    ("adcx rax, [rip + 0x11223344]", "rax", ""),
    ("popcnt rcx, [rip + 0x11223344]", "", "rcx"),
    ("crc32 rax, qword ptr [rip + 0x11223344]", "rax", ""),
    ("pinsrq xmm0, [rip + 0x11223344], 1", "", ""),
    ("pextrq [rip + 0x11223344], xmm1, 0", "", ""),
    ("lddqu xmm4, [rip + 0x11223344]", "", ""),
    ("shld [rip + 0x11223344], rax, cl", "rax rcx", ""),
    ("bts qword ptr [rip + 0x11223344], 9", "", ""),
    ("not byte ptr [rip + 0x11223344]", "", ""),
    ("mov word ptr [rip + 0x11223344], 0x1234", "", ""),
    ("mov byte ptr [rip + 0x11223344], 7", "", ""),
    ("mov [rip + 0x11223344], r13b", "r13", ""),
    ("mov [rip + 0x11223344], sil", "rsi", ""),
    ("lock cmpxchg [rip + 0x11223344], r11", "rax r11", ""),
    ("cmp sil, [rip + 0x11223344]", "rsi", ""),
    ("cmp word ptr [rip + 0x11223344], -1", "", ""),
    ("vmovdqu xmm9, [rip + 0x11223344]", "", ""),
    ("vfmadd231sd xmm0, xmm1, [rip + 0x11223344]", "", ""),
);

fn plain(pick: &[&str]) -> Vec<Item> {
    plain_all()
        .into_iter()
        .filter(|m| pick.is_empty() || pick.contains(&m.0))
        .map(|(t, r, w, b)| {
            let mut it = Item::fixed(t, b);
            it.reads = mask(r);
            it.writes = mask(w);
            it
        })
        .collect()
}

/// `target`: data window; a distinct 16-byte aligned slot per item keeps the addresses apart.
fn rip(pick: &[&str], target: usize) -> Vec<Item> {
    let mut k = 0;
    rip_all()
        .into_iter()
        .filter(|m| pick.is_empty() || pick.iter().any(|p| m.0.replace("[rip + 0x11223344]", "X") == *p))
        .map(|(t, r, w, b)| {
            let pos = b
                .windows(4)
                .position(|w| w == [0x44, 0x33, 0x22, 0x11])
                .expect("displacement placeholder");
            let slot = target + 16 * (k % 7);
            k += 1;
            let mut it = Item::fixed(&format!("{} @{:+#x}", t.replace("[rip + 0x11223344]", "X").replace("[eip + 0x11223344]", "X32"), slot as isize - TPL_OFF as isize), b.clone());
            it.reads = mask(r);
            it.writes = mask(w);
            // 32-bit address size: RIP-relative only in a sense, refusal is fine
            it.kind = if t.contains("[eip") { Kind::Other } else { Kind::Pc };
            it.emit = Box::new(move |c| {
                let mut b = b.clone();
                let next = c.addr + b.len();
                let d = (arena(slot) as i64 - next as i64) as i32;
                b[pos..pos + 4].copy_from_slice(&d.to_le_bytes());
                Some(Emitted {
                    touch: Some((arena(slot), arena(slot) + 16)),
                    bytes: b,
                })
            });
            it
        })
        .collect()
}

/// Conditional jump to the item `n` items further on.
fn jcc(cc: u8, name: &str, near: bool, n: isize) -> Item {
    let len = if near { 6 } else { 2 };
    Item {
        name: format!("{name}{} {n:+}", if near { ".near" } else { "" }),
        len,
        kind: usize::try_from(n).map_or(Kind::Other, Kind::Skip),
        reads: 0,
        writes: 0,
        escapes: false,
        emit: Box::new(move |c| {
            let to = c.label(n)?;
            let d = to as i64 - (c.addr + len) as i64;
            Some(if near {
                let mut v = vec![0x0F, 0x80 | cc];
                v.extend_from_slice(&(d as i32).to_le_bytes());
                v.into()
            }
            else {
                vec![0x70 | cc, i8::try_from(d).ok()? as u8].into()
            })
        }),
    }
}
/// Conditional jump that leaves the prologue: to the body, or below the template.
fn jcc_out(cc: u8, name: &str, delta: isize) -> Item {
    Item {
        name: format!("{name} out{delta:+}"),
        len: 6,
        kind: Kind::Other,
        reads: 0,
        writes: 0,
        escapes: true,
        emit: Box::new(move |c| {
            let tail_start = *c.addrs.last().unwrap();
            let to = if delta >= 0 {
                tail_start + tail(tail_start, 0).len()
            }
            else {
                c.addrs[0].wrapping_add_signed(delta)
            };
            let mut v = vec![0x0F, 0x80 | cc];
            v.extend_from_slice(&((to as i64 - (c.addr + 6) as i64) as i32).to_le_bytes());
            Some(v.into())
        }),
    }
}

stream!(flow_all, "mc_flow",
    ("dec cl\njnz 8b", "rcx", ""),
    ("jmp 9f", "", ""),
    ("call 9f\n", "", ""),
    ("call 7f\n7: pop rax", "", "rax"),
    ("jrcxz 9f", "", ""),
    ("loop 8b", "", ""),
    ("xor eax, eax\nje 7f\nmov rcx, [rdi]\n7:", "", ""),
    ("jne 7f\nmovaps [rdi], xmm0\nmovaps [rdi + 16], xmm1\n7:", "rdi", ""),
);
fn flow() -> Vec<Item> {
    flow_all()
        .into_iter()
        .map(|(t, _, _, b)| Item::fixed(&t.replace('\n', " / "), b).other())
        .collect()
}

fn jccs(full: bool) -> Vec<Item> {
    let mut v = vec![];
    for n in 0..=3 {
        v.push(jcc(4, "je", false, n));
        v.push(jcc(5, "jne", false, n));
        if full {
            v.push(jcc(4, "je", true, n));
            v.push(jcc(2, "jb", false, n));
            v.push(jcc(0xC, "jl", true, n));
        }
    }
    v.push(jcc_out(4, "je", 1));
    v.push(jcc_out(4, "je", -16));
    v
}

pub fn spaces(accept: bool) -> Vec<Space> {
    let nt = tail_variants();
    let core_plain: &[&str] = &[
        "push rbx", "mov rbp, rsp", "sub rsp, 40", "mov rax, rdi", "mov eax, esi", "mov al, sil", "xor ecx, ecx",
        "test al, al", "cmove rax, rcx", "mov rcx, [rdi + 8]", "mov [rdi + 16], rcx", "mul rcx", "cmpxchg rcx, rdx",
        "mov r11, 0x1234567", "xchg rax, rcx", "movaps [rdi + 32], xmm0",
    ];
    let core_rip: &[&str] = &[
        "mov rax, X", "mov rcx, X", "lea rax, X", "mov r12, X", "mov r13, X", "cmp byte ptr X, 0", "add rax, X", "mov X, rax", "mov al, X",
        "movaps xmm0, X", "cmp dword ptr X, 0x12345678", "cmove rax, X",
    ];
    let tiny_plain: &[&str] = &["push rbx", "mov rax, rdi", "mov al, sil", "test al, al", "mov [rdi + 16], rcx", "cmove rax, rcx"];
    let tiny_rip: &[&str] = &["mov rax, X", "lea rcx, X", "cmp byte ptr X, 0", "mov X, rax"];
    let mut v = vec![];
    // every instruction alone and in pairs, at every alignment and closure register
    let mut all = plain(&[]);
    all.extend(rip(&[], DATA_HI));
    all.extend(rip(&["mov rax, X", "lea rcx, X", "cmp byte ptr X, 0", "mov X, rax", "movaps xmm0, X"], DATA_LO));
    all.extend(flow());
    all.extend(jccs(true));
    v.push(Space::new("pairs", all, 0, 2, &[0]).tails(nt));
    let mut some = plain(core_plain);
    some.extend(rip(core_rip, DATA_HI));
    some.extend(rip(&["mov rax, X", "cmp byte ptr X, 0"], DATA_LO));
    some.extend(jccs(false));
    v.push(Space::new("align", some, 0, 2, &[0, 1, 2, 3, 4, 5, 8, 12, 15]).tails(2));
    let mut tri = plain(core_plain);
    tri.extend(rip(core_rip, DATA_HI));
    tri.extend(rip(&["mov rax, X", "cmp byte ptr X, 0"], DATA_LO));
    tri.extend(jccs(false));
    tri.extend(flow());
    v.push(Space::new("triples", tri, 3, 3, &[0]).tails(2));
    // longer prologues over a small alphabet
    let mut long = plain(tiny_plain);
    long.extend(rip(tiny_rip, DATA_HI));
    long.extend([jcc(4, "je", false, 1), jcc(5, "jne", true, 2)]);
    v.push(Space::new("len4", long, 4, 4, &[0]).tails(2));
    let mut tiny = plain(&["mov rax, rdi", "test al, al"]);
    tiny.extend(rip(&["lea rcx, X", "cmp byte ptr X, 0"], DATA_HI));
    v.push(Space::new("len8", tiny, 5, 8, &[0]).tails(2));
    // runs of up to 24 instructions around PC-relative ones
    let mut run = plain(&["nop", "mov rax, rdi"]);
    run.extend(rip(&["cmp byte ptr X, 0"], DATA_HI));
    for n in [12usize, 24] {
        let mut r = Space::new(if n == 12 { "long12" } else { "long24" }, clone_items(&run), 0, 5, &[0]).tails(2);
        r.pre = vec![1; n - 6];
        r.post = vec![0; 3];
        v.push(r);
    }
    if !accept {
        let mut all = plain(&[]);
        all.extend(rip(&[], DATA_HI));
        all.extend(jccs(true));
        v.push(Space::new("alltriples", all, 3, 3, &[0]));
    }
    let mut tri2 = plain(tiny_plain);
    tri2.extend(rip(tiny_rip, DATA_HI));
    tri2.extend([jcc(4, "je", false, 1), jcc(5, "jne", true, 2)]);
    v.push(Space::new("len5", tri2, 5, 5, &[0]).tails(3).thorough());
    if !accept {
        let mut four = plain(core_plain);
        four.extend(rip(core_rip, DATA_HI));
        four.extend(jccs(false));
        v.push(Space::new("core4", four, 4, 4, &[0]).tails(2).thorough());
    }
    v
}
fn clone_items(v: &[Item]) -> Vec<Item> {
    let names: Vec<String> = v.iter().map(|i| i.name.clone()).collect();
    let mut out = plain(&["nop", "mov rax, rdi"]);
    out.extend(rip(&["cmp byte ptr X, 0"], DATA_HI));
    assert_eq!(names, out.iter().map(|i| i.name.clone()).collect::<Vec<_>>());
    out
}
