use crate::engine::*;
use std::sync::OnceLock;

pub const NAME: &str = "x86_32";
pub const CODE_BIT: usize = 0;
pub const SP: usize = 4;
pub const NREGS: usize = 8;
pub const REG_NAMES: [&str; 8] = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"];
pub const FLAG_MASK: usize = 0xCD5;
pub const STATES: usize = 2;
pub const NO_RED_ZONE: bool = true;
pub const ALWAYS_SCRATCH: u32 = 0;
pub const P: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

core::arch::global_asm!(
    r#"
    .pushsection .text
    .global mc_enter
    mc_enter:
        mov eax, [esp + 4]
        push ebx
        push ebp
        push esi
        push edi
        pushfd
        mov [MC], esp
        mov [MC + 4], eax
        fxsave [MC + 272 + 1024]
        fxrstor [MC + 272]
        push dword ptr [MC + 8]
        popfd
        mov esp, [MC + 16 + 16]
        mov eax, [MC + 16]
        mov ecx, [MC + 20]
        mov edx, [MC + 24]
        mov ebx, [MC + 28]
        mov ebp, [MC + 36]
        mov esi, [MC + 40]
        mov edi, [MC + 44]
        jmp dword ptr [MC + 4]
    .global mc_collect
    mc_collect:
        mov [MC + 144], eax
        mov [MC + 148], ecx
        mov [MC + 152], edx
        mov [MC + 156], ebx
        mov [MC + 160], esp
        mov [MC + 164], ebp
        mov [MC + 168], esi
        mov [MC + 172], edi
        mov esp, [MC]
        pushfd
        pop dword ptr [MC + 12]
        cld
        fxsave [MC + 272 + 512]
        fxrstor [MC + 272 + 1024]
        xor eax, eax
        jmp 3f
    .global mc_recover
    mc_recover:
        cld
        mov esp, [MC]
        fxrstor [MC + 272 + 1024]
        mov eax, 1
    3:
        popfd
        pop edi
        pop esi
        pop ebp
        pop ebx
        ret
    .popsection
    "#
);

pub unsafe fn redirect(uc: *mut libc::c_void, to: usize) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.gregs[libc::REG_EIP as usize] = to as i32;
}
pub fn trap_fill(b: &mut [u8]) {
    b.fill(0xCC)
}
pub fn flush(_: *const u8, _: usize) {}
pub fn branch_to(at: usize, to: usize) -> Vec<u8> {
    let mut v = vec![0xE9];
    v.extend_from_slice(&to.wrapping_sub(at + 5).to_le_bytes());
    v
}
pub fn vec_view(v: &[u8; 512]) -> &[u8] {
    &v[24..288]
}
pub fn init_state(mc: &mut Mc, s: usize, sp: usize, data: usize) {
    for i in 0..8 {
        mc.in_regs[i] = 0x1111_2200usize.wrapping_mul(i + 1).wrapping_add(0x4080 + i * 3 + s);
    }
    mc.in_regs[SP] = sp;
    mc.in_regs[1] = 5 + s;
    mc.in_regs[7] = data;
    mc.in_regs[0] = if s == 0 { 0xCCCC_0007 } else { 0xCCCC_0000 };
    mc.in_flags = if s == 0 { 0x2 } else { 0x2 | 0x8D5 };
    unsafe {
        let host = &mut *(&raw mut MC.host_vec);
        core::arch::x86::_fxsave(host.as_mut_ptr());
        mc.in_vec.copy_from_slice(host);
    }
    for i in 0..128 {
        mc.in_vec[160 + i] = (i * 31 + 17 + s) as u8;
    }
}

static TAILS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
static mut REGS: (usize, u32) = (usize::MAX, 0);
pub fn setup() {
    let _ = TAILS.set(crate::raw_tails().into_iter().map(|x| x.unwrap()).collect());
}
pub fn tail(at: usize, _var: usize) -> &'static [u8] {
    &TAILS.get().unwrap()[at % 16]
}
pub fn closure_reg(_: usize) -> usize {
    unsafe { REGS.0 }
}
pub fn scratch_mask(_: usize) -> u32 {
    unsafe { REGS.1 }
}
pub fn calibrate(ex: &mut Explorer) {
    let r = calibrate_one(ex, 0, &[0, 1, 3, 8]);
    unsafe { REGS = r };
}
pub fn must_accept(sp: &Space, seq: &[usize], _: usize) -> bool {
    seq.iter().all(|&i| sp.items[i].kind != Kind::Other)
}

macro_rules! stream {
    ($name:ident, $sym:literal, $($t:literal),* $(,)?) => {
        asm_stream!($sym, "", $($t),*);
        fn $name() -> Vec<(String, Vec<u8>)> {
            extern "C" { #[link_name = $sym] fn f(); }
            let meta = [$($t),*];
            let b = unsafe { parse_stream(f as *const u8, meta.len()) };
            meta.iter().zip(b).map(|(m, b)| (m.replace('\n', " / "), b)).collect()
        }
    };
}
stream!(plain_all, "mc_plain",
    "nop",
    "push ebx",
    "push ebp",
    "push eax",
    "push edi",
    "push esi",
    "mov ebp, esp",
    "sub esp, 28",
    "and esp, -16",
    "mov eax, [esp + 4]",
    "mov ecx, [esp + 8]",
    "mov [esp + 8], eax",
    "mov eax, edi",
    "xor ecx, ecx",
    "xor ebx, ebx",
    "test al, al",
    "cmp eax, ebx",
    "mov ah, 3",
    "mov cx, si",
    "cmove eax, ecx",
    "sete cl",
    "lea eax, [ebx + ecx*2 + 4]",
    "lea ebx, [ebx + 0x1000]",
    "add ebx, 0x1234",
    "mov esi, ebx",
    "mov [MC_ARENA + 0x490000 + 8], ebx",
    "mov [MC_ARENA + 0x490000 + 12], eax",
    "movaps [MC_ARENA + 0x490000 + 32], xmm0",
    "movsd xmm1, [MC_ARENA + 0x490000 + 0]",
    "pop eax",
    "pop ecx",
    "xchg eax, ebx",
    "cdq",
    "imul eax, ecx",
    "adc eax, 0",
    "stc",
    "inc edx",
    "push -1",
    "pushfd",
    "enter 16, 0",
    "fld dword ptr [MC_ARENA + 0x490000 + 0]\nfstp dword ptr [MC_ARENA + 0x490000 + 4]",
    "lahf",
    "bswap eax",
    "mov eax, [MC + 0]",
    "push dword ptr [esp + 4]",
    "mov ebx, ebx",
);
// call-next/pop in every register, plain and with redundant prefixes
stream!(callpop_all, "mc_callpop",
    ".byte 0xe8,0,0,0,0\npop eax",
    ".byte 0xe8,0,0,0,0\npop ecx",
    ".byte 0xe8,0,0,0,0\npop edx",
    ".byte 0xe8,0,0,0,0\npop ebx",
    ".byte 0xe8,0,0,0,0\npop ebp",
    ".byte 0xe8,0,0,0,0\npop esi",
    ".byte 0xe8,0,0,0,0\npop edi",
);
stream!(flow_all, "mc_flow",
    ".byte 0xe8,0,0,0,0",
    ".byte 0xe8,0,0,0,0\nnop\npop ebx",
    ".byte 0xe8,0,0,0,0\nmov ebx, [esp]\nadd esp, 4",
    ".byte 0xe8,0,0,0,0\n.byte 0x8f,0xc3", // pop ebx, r/m form
    "mov edx, esp\n.byte 0xe8,0,0,0,0\npop esp\nxchg esp, edx",
    ".byte 0xe8,0,0,0,0\npop dword ptr [MC_ARENA + 0x490000 + 0]",
    ".byte 0xe8,0,0,0,0\n.byte 0x66\npop bx\nadd esp, 2",
    ".byte 0x2e,0xe8,0,0,0,0\npop ebx",
    ".byte 0xe8,0,0,0,0\n.byte 0x2e\npop ebx",
    ".byte 0xe8,0,0,0,0\npushfd\npop ecx\npop ebx",
    ".byte 0xe8,1,0,0,0\nnop\npop ebx",
    ".byte 0xe8,0,0,0,0\nadd dword ptr [esp], 4\npop ebx",
    "jmp 9f",
    "je 9f",
    "jne 7f\nmov eax, ebx\n7:",
    "jecxz 9f",
    "dec cl\njnz 8b",
    "je 7f\n.byte 0xe8,0,0,0,0\npop ebx\n7:",
    "jne 7f\n.byte 0xe8,0,0,0,0\npop ebx\n7:",
    "jmp 7f\nmov eax, ebx\n7:",
    "push ebx\ncall 7f\n7: pop ebx",
);

fn items(v: Vec<(String, Vec<u8>)>, pick: &[&str], kind: Kind) -> Vec<Item> {
    v.into_iter()
        .filter(|m| pick.is_empty() || pick.contains(&m.0.as_str()))
        .map(|(t, b)| {
            let mut it = Item::fixed(&t.replace(".byte 0xe8,0,0,0,0", "call next"), b);
            it.kind = kind;
            it
        })
        .collect()
}
/// call rel32 to somewhere else in the prologue, outside of it, or just past the next instruction.
fn call_rel(delta: i32) -> Item {
    Item {
        name: format!("call next{delta:+}"),
        len: 5,
        kind: Kind::Other,
        reads: 0,
        writes: 0,
        escapes: true,
        emit: Box::new(move |_| {
            let mut v = vec![0xE8];
            v.extend_from_slice(&delta.to_le_bytes());
            Some(v.into())
        }),
    }
}
fn jcc_out(short: bool) -> Item {
    let len = if short { 2 } else { 6 };
    Item {
        name: format!("je{} body", if short { " short" } else { "" }),
        len,
        kind: Kind::Other,
        reads: 0,
        writes: 0,
        escapes: true,
        emit: Box::new(move |c| {
            let ts = *c.addrs.last().unwrap();
            let d = (ts + tail(ts, 0).len()).wrapping_sub(c.addr + len);
            let mut v;
            if short {
                v = vec![0x74, i8::try_from(d as isize).ok()? as u8];
            }
            else {
                v = vec![0x0F, 0x84];
                v.extend_from_slice(&d.to_le_bytes());
            }
            Some(v.into())
        }),
    }
}

pub fn spaces(_accept: bool) -> Vec<Space> {
    let mut v = vec![];
    let all = || {
        let mut a = items(plain_all(), &[], Kind::Plain);
        a.extend(items(callpop_all(), &[], Kind::Pc));
        a.extend(items(flow_all(), &[], Kind::Other));
        a.extend([call_rel(1), call_rel(-5), call_rel(2), call_rel(0x40), jcc_out(true), jcc_out(false)]);
        a
    };
    v.push(Space::new("pairs", all(), 0, 2, &[0, 1, 2, 3, 4, 5, 8, 12, 15, 16]));
    v.push(Space::new("triples", all(), 3, 3, &[0]));
    let few = || {
        let mut a = items(plain_all(), &["push ebx", "sub esp, 28", "mov eax, [esp + 4]", "test al, al", "add ebx, 0x1234", "mov [MC_ARENA + 0x490000 + 8], ebx", "xchg eax, ebx", "push eax"], Kind::Plain);
        a.extend(items(callpop_all(), &[], Kind::Pc));
        a
    };
    v.push(Space::new("len4", few(), 4, 5, &[0, 3]));
    let tiny = || {
        let mut a = items(plain_all(), &["nop", "mov [MC_ARENA + 0x490000 + 8], ebx"], Kind::Plain);
        a.extend(items(callpop_all(), &[".byte 0xe8,0,0,0,0 / pop ebx", ".byte 0xe8,0,0,0,0 / pop eax"], Kind::Pc));
        a
    };
    v.push(Space::new("len8", tiny(), 6, 8, &[0]));
    for n in [12usize, 24] {
        let mut r = Space::new(if n == 12 { "long12" } else { "long24" }, tiny(), 0, 5, &[0]);
        r.pre = vec![1; n - 6];
        r.post = vec![0; 3];
        v.push(r);
    }
    v.push(Space::new("len6", few(), 6, 6, &[0]).thorough());
    v
}
