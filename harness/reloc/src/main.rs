#![allow(function_casts_as_integer, dead_code)]
mod engine;

macro_rules! asm_stream {
    ($sym:literal, $prefix:literal, $($t:literal),* $(,)?) => {
        ::core::arch::global_asm!(
            concat!(".pushsection .text.mcstream,\"ax\"\n.balign 4\n.global ", $sym, "\n", $sym, ":\n", $prefix, "\n"),
            $(concat!(".byte 9f-8f\n8:\n", $t, "\n9:\n")),*,
            ".popsection\n"
        );
    };
}

#[cfg_attr(target_arch = "x86_64", path = "x86_64.rs")]
#[cfg_attr(target_arch = "x86", path = "x86.rs")]
#[cfg_attr(target_arch = "aarch64", path = "aarch64.rs")]
#[cfg_attr(target_arch = "arm", path = "arm.rs")]
mod arch;

use engine::*;

mod tail_code {
    use ::core::arch::asm;
    #[inline(never)]
    pub unsafe extern "C" fn tail<const K: usize>() -> *const () {
        let p: *const ();
        asm!(
            ".balign 16",
            ".byte 0x4d,0x43,0x54,0x41,0x49,0x4c,0x53,0x54,0x4d,0x43,0x54,0x41,0x49,0x4c,0x53,0x54",
            ".fill {k}, 1, 0x90",
            k = const K
        );
        closure_ffi::arch::_thunk_asm!(p);
        asm!(
            ".byte 0x4d,0x43,0x54,0x41,0x49,0x4c,0x45,0x4e,0x4d,0x43,0x54,0x41,0x49,0x4c,0x45,0x4e",
            "/* {0} */", in(reg) p
        );
        p
    }
}

/// Closure-fetch block for each residue (mod 16) this architecture can have.
pub fn raw_tails() -> Vec<Option<Vec<u8>>> {
    use tail_code::tail;
    let fs: [(usize, unsafe extern "C" fn() -> *const ()); 16] = [
        (0, tail::<0>),
        (1, tail::<{ arch::P[1] }>),
        (2, tail::<{ arch::P[2] }>),
        (3, tail::<{ arch::P[3] }>),
        (4, tail::<4>),
        (5, tail::<{ arch::P[5] }>),
        (6, tail::<{ arch::P[6] }>),
        (7, tail::<{ arch::P[7] }>),
        (8, tail::<8>),
        (9, tail::<{ arch::P[9] }>),
        (10, tail::<{ arch::P[10] }>),
        (11, tail::<{ arch::P[11] }>),
        (12, tail::<12>),
        (13, tail::<{ arch::P[13] }>),
        (14, tail::<{ arch::P[14] }>),
        (15, tail::<{ arch::P[15] }>),
    ];
    fs.iter()
        .map(|&(k, f)| {
            (arch::P[k] == k).then(|| unsafe { extract_tail(f as usize & !arch::CODE_BIT, k) })
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut shard = (0u64, 1u64);
    let mut accept = false;
    let mut thorough = false;
    let mut only: Option<String> = None;
    let mut replay: Option<(String, Vec<usize>, usize, usize)> = None;
    let mut known = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--shard" => {
                let (a, b) = args[i + 1].split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
                i += 1;
            }
            "--accept" => accept = true,
            "--thorough" => thorough = true,
            "--space" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "--known" => {
                known.push(args[i + 1].clone());
                i += 1;
            }
            // --replay space 1,2,3 off tail
            "--replay" => {
                let items = args[i + 2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                replay = Some((args[i + 1].clone(), items, args[i + 3].parse().unwrap(), args[i + 4].parse().unwrap()));
                i += 4;
            }
            "--disasm" => {
                for s in arch::spaces(true) {
                    println!("space {} items {} len {}..={} offs {:?} tails {}", s.name, s.items.len(), s.min, s.max, s.offs, s.tails);
                    for (k, it) in s.items.iter().enumerate() {
                        println!("   {k}: {} ({:?})", it.name, it.kind);
                    }
                }
                return;
            }
            a => panic!("unknown argument {a}"),
        }
        i += 1;
    }
    let mut ex = Explorer::new(accept, shard);
    ex.known = known;
    arch::setup();
    arch::calibrate(&mut ex);
    for sp in arch::spaces(accept) {
        if let Some(o) = &only {
            if sp.name != o {
                continue;
            }
        }
        if let Some((name, items, off, tail)) = &replay {
            if sp.name == name {
                for k in 0..16 {
                    ex.program(&sp, items, *off, *tail, k);
                }
            }
            continue;
        }
        if sp.thorough_only && !thorough {
            continue;
        }
        ex.explore(&sp);
    }
    ex.finish();
    std::process::exit(if ex.st.violations > 0 { 1 } else { 0 });
}
