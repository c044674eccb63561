//! Reporting: violations carry the case being executed, so that they can be replayed.

use std::fmt::Write as _;

pub static mut PROP: &str = "";
static mut CASE: [u8; 4096] = [0; 4096];
static mut CASE_LEN: usize = 0;
pub static mut STATS: Option<Stats> = None;

#[derive(Default)]
pub struct Stats {
    pub histories: u64,
    pub transitions: u64,
    pub constructions: u64,
    pub calls: u64,
    pub checks: u64,
    pub faults: u64,
    pub states: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub spaces: Vec<(String, u64)>,
}
pub fn stats() -> &'static mut Stats {
    unsafe { (*(&raw mut STATS)).as_mut().unwrap() }
}

pub fn set_case(s: &str) {
    unsafe {
        let n = s.len().min(4096);
        (&mut *(&raw mut CASE))[..n].copy_from_slice(&s.as_bytes()[..n]);
        CASE_LEN = n;
        // far more than any case takes
        libc::alarm(100);
    }
}
pub fn prop() -> &'static str {
    unsafe { PROP }
}

/// A violation of the property being decided ends this part of the exploration: what follows it
/// is not trustworthy. Deviations that belong to other properties are their checks' business.
pub fn viol(prop_id: &str, what: &str) {
    if prop_id != prop() {
        return;
    }
    let case = unsafe { std::str::from_utf8(&(&*(&raw const CASE))[..CASE_LEN]).unwrap_or("?") };
    println!("VIOL {what} :: {case}");
    print_result();
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn engine(what: &str) -> ! {
    let case = unsafe { std::str::from_utf8(&(&*(&raw const CASE))[..CASE_LEN]).unwrap_or("?") };
    println!("ENGINE {what} :: {case}");
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(4) }
}

pub fn print_result() {
    let st = stats();
    let mut o = String::new();
    let _ = write!(
        o,
        "RESULT {{\"histories\":{},\"transitions\":{},\"constructions\":{},\"calls\":{},\"checks\":{},\"faults\":{},\"state_hashes\":[{}],\"spaces\":{{{}}},\"samples\":[{}]}}",
        st.histories,
        st.transitions,
        st.constructions,
        st.calls,
        st.checks,
        st.faults,
        st.states.iter().map(|h| format!("\"{h:x}\"")).collect::<Vec<_>>().join(","),
        st.spaces.iter().map(|(n, c)| format!("\"{n}\":{c}")).collect::<Vec<_>>().join(","),
        st.samples.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
    );
    println!("{o}");
}

unsafe fn put(b: &[u8]) {
    libc::write(1, b.as_ptr() as _, b.len());
}
extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let name: &[u8] = match sig {
            libc::SIGSEGV => b"SIGSEGV",
            libc::SIGBUS => b"SIGBUS",
            libc::SIGILL => b"SIGILL",
            libc::SIGTRAP => b"SIGTRAP",
            libc::SIGABRT => b"SIGABRT",
            libc::SIGALRM => b"endless execution",
            _ => b"signal",
        };
        put(b"VIOL execution ended by ");
        put(name);
        let mut a = (*info).si_addr() as usize;
        let mut hex = *b" at 0x0000000000000000";
        for i in (6..22).rev() {
            hex[i] = b"0123456789abcdef"[a & 15];
            a >>= 4;
        }
        put(&hex);
        put(b" :: ");
        put(&(&*(&raw const CASE))[..CASE_LEN]);
        put(b"\n");
        libc::_exit(3)
    }
}
pub fn install_signals() {
    unsafe {
        let n = 1 << 16;
        let stack = libc::mmap(core::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: n };
        libc::sigaltstack(&ss, core::ptr::null_mut());
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGABRT, libc::SIGALRM, libc::SIGFPE] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, core::ptr::null_mut());
        }
    }
}
