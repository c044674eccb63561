//! Generates the signature tables: convention x arity x argument pattern.
use std::{env, fmt::Write, fs, path::Path};

const CLASSES: &[&str] = &[
    "u8", "f64", "u64", "S3", "Big", "i16", "f32", "u128", "P16", "bool", "Mix", "i32", "F4", "A16", "char", "Empty",
    "Vec128", "OptRef", "D3", "i64", "A32", "usize", "F2", "i8", "Odd", "Slice", "()", "S1", "u16", "RustS",
];
const UNIFORM: &[&str] = &["u64", "f64", "u8", "Big", "u128", "F4", "f32", "P16"];

struct Conv {
    cc: &'static str,
    abi: &'static str,
    short: &'static str,
}
fn convs(arch: &str) -> Vec<Conv> {
    let mut v = vec![
        ("Rust", "Rust", "rust"),
        ("C", "C", "c"),
        ("CUnwind", "C-unwind", ""),
        ("System", "system", "system"),
        ("SystemUnwind", "system-unwind", ""),
        ("Efiapi", "efiapi", "efiabi"),
    ];
    match arch {
        "x86_64" => v.extend([
            ("Sysv64", "sysv64", "sysv64"),
            ("Sysv64Unwind", "sysv64-unwind", ""),
            ("Win64", "win64", ""),
            ("Win64Unwind", "win64-unwind", ""),
        ]),
        "x86" => v.extend([
            ("Fastcall", "fastcall", ""),
            ("FastcallUnwind", "fastcall-unwind", ""),
            ("Stdcall", "stdcall", ""),
            ("StdcallUnwind", "stdcall-unwind", ""),
            ("Cdecl", "cdecl", ""),
            ("CdeclUnwind", "cdecl-unwind", ""),
            ("Thiscall", "thiscall", ""),
            ("ThiscallUnwind", "thiscall-unwind", ""),
        ]),
        "arm" => v.extend([("Aapcs", "aapcs", "aapcs"), ("AapcsUnwind", "aapcs-unwind", "")]),
        _ => {}
    }
    v.into_iter().map(|(cc, abi, short)| Conv { cc, abi, short }).collect()
}
fn unwinds(c: &Conv) -> bool {
    c.cc == "Rust" || c.cc.ends_with("Unwind")
}
/// The argument types and result type of a pattern at an arity.
fn types(p: usize, n: usize, c: usize, arch: &str) -> (Vec<&'static str>, &'static str) {
    let k = CLASSES.len();
    if p < UNIFORM.len() {
        (vec![UNIFORM[p]; n], CLASSES[(p + 13 * n + 5 * c) % k])
    }
    else if p == UNIFORM.len() {
        let mut v = vec!["u64"; n];
        // ARM conventions pass aggregates as arrays of words, which takes the compiler minutes
        if n > 0 && (arch != "arm" || c == 0) {
            v[n / 2] = "Huge";
        }
        (v, if n % 2 == 0 { "Huge" } else { "u64" })
    }
    else {
        let q = p - UNIFORM.len() - 1;
        ((0..n).map(|i| CLASSES[(q + 7 * i + i * i) % k]).collect(), CLASSES[(7 * q + 11 * n + 3 * c) % k])
    }
}
fn args(ts: &[&str]) -> String {
    ts.iter().enumerate().map(|(i, t)| format!("a{i}: {t} = {i}")).collect::<Vec<_>>().join(", ")
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=MC_SIZE");
    println!("cargo:rustc-check-cfg=cfg(mc_thumb)");
    if env::var("TARGET").unwrap().starts_with("thumb") {
        println!("cargo:rustc-cfg=mc_thumb");
    }
    let arch = env::var("CARGO_CFG_TARGET_ARCH").unwrap();
    let size = env::var("MC_SIZE").unwrap_or_else(|_| "small".into());
    let all: Vec<usize> = (0..UNIFORM.len() + 1 + CLASSES.len()).collect();
    let patterns: Vec<usize> = match size.as_str() {
        "tiny" => vec![3, 8, 9, 20],
        "small" => vec![0, 3, 5, 8, 9, 16, 24, 33],
        "quick" => vec![0, 1, 3, 4, 5, 8, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36],
        _ => all,
    };
    let convs = convs(&arch);
    let out = env::var("OUT_DIR").unwrap();

    // call fidelity
    let (mut o, mut names) = (String::new(), vec![]);
    for (ci, c) in convs.iter().enumerate() {
        for n in 0..=12 {
            let mut seen = vec![];
            for (k, &p) in patterns.iter().enumerate() {
                // the small sizes alternate between the halves of their patterns
                if (size == "tiny" || size == "small") && (k + ci + n) % 2 != 0 {
                    continue;
                }
                let (ts, r) = types(p, n, ci, &arch);
                if seen.contains(&(ts.clone(), r)) {
                    continue;
                }
                seen.push((ts.clone(), r));
                let name = format!("c{ci}_{n}_{p}");
                let label = format!("{} fn({}) -> {r}", c.cc, ts.join(", "));
                writeln!(o, "mod {name} {{ use super::*; pub fn run(x: &mut X) {{ case!(x, {label:?}, {}, {:?}, [{}], {r}) }} }}", c.cc, c.abi, args(&ts)).unwrap();
                names.push(name);
            }
        }
        for n in [0, 3] {
            let (ts, r) = types(9 + 5 * n, n, ci, &arch);
            let name = format!("r{ci}_{n}");
            let label = format!("{} fn({}) -> {r}", c.cc, ts.join(", "));
            let short = if c.short.is_empty() { String::new() } else { format!("new_{0}, new_{0}_in", c.short) };
            writeln!(o, "mod {name} {{ use super::*; pub fn run(x: &mut X) {{ routes!(x, {label:?}, {}, {:?}, [{}], {r}, [{short}]) }} }}", c.cc, c.abi, args(&ts)).unwrap();
            names.push(name);
        }
    }
    writeln!(o, "static CASES: &[fn(&mut X)] = &[{}];", names.iter().map(|n| format!("{n}::run")).collect::<Vec<_>>().join(", ")).unwrap();
    fs::write(Path::new(&out).join("call.rs"), o).unwrap();

    // panics
    let (mut o, mut names) = (String::new(), vec![]);
    let unwinding: Vec<&Conv> = convs.iter().filter(|c| unwinds(c)).collect();
    writeln!(o, "fn inners(x: &mut X) {{").unwrap();
    for (i, c) in unwinding.iter().enumerate() {
        writeln!(o, "inner!(x, {i}, {}, {:?});", c.cc, c.abi).unwrap();
    }
    writeln!(o, "}}").unwrap();
    let patterns: &[&[&str]] = &[&["Tok<1>"], &["Tok<8>"], &["Tok<8>", "u64", "Tok<1>", "f64", "Tok<3>"]];
    for (ci, c) in unwinding.iter().enumerate() {
        for n in 0..=12 {
            for (p, pat) in patterns.iter().enumerate() {
                if n == 0 && p > 0 || size == "tiny" && p != ci % 3 {
                    continue;
                }
                let ts: Vec<&str> = (0..n).map(|i| pat[i % pat.len()]).collect();
                let r = ["Tok<1>", "u64", "Tok<8>", "f64"][(n + p + ci) % 4];
                let name = format!("p{ci}_{n}_{p}");
                let label = format!("{} fn({}) -> {r}", c.cc, ts.join(", "));
                let args = ts.iter().enumerate().map(|(i, t)| format!("a{i}: {t}")).collect::<Vec<_>>().join(", ");
                let half = (0..n).step_by(2).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", ");
                let all = n == 2;
                let depth = if n < 3 { 3 } else { 2 };
                writeln!(o, "mod {name} {{ use super::*; pub fn run(x: &mut X) {{ case!(x, {label:?}, {}, {:?}, {depth}, {all}, [{args}], [{half}], {r}) }} }}", c.cc, c.abi).unwrap();
                names.push(name);
            }
        }
    }
    writeln!(o, "static CASES: &[fn(&mut X)] = &[{}];", names.iter().map(|n| format!("{n}::run")).collect::<Vec<_>>().join(", ")).unwrap();
    fs::write(Path::new(&out).join("panic.rs"), o).unwrap();

    // thunks and function pointers
    let (mut o, mut names) = (String::new(), vec![]);
    for (ci, c) in convs.iter().enumerate() {
        for n in 0..=12 {
            for (k, p) in [9 + (3 * n + ci) % 28, 24].into_iter().enumerate() {
                if k > 0 && (size == "tiny" || size == "small" || n == 0) || size == "tiny" && (n + ci) % 2 != 0 {
                    continue;
                }
                let (ts, r) = types(p, n, ci, &arch);
                let name = format!("t{ci}_{n}_{p}");
                let label = format!("{} fn({}) -> {r}", c.cc, ts.join(", "));
                let factories = [0, 2, 12].contains(&n) && k == 0 && (ci % 3 == 0 || size == "full");
                writeln!(o, "mod {name} {{ use super::*; pub fn run(x: &mut X) {{ case!(x, {label:?}, {}, {:?}, [{}], {r}, {factories}) }} }}", c.cc, c.abi, args(&ts)).unwrap();
                names.push(name);
            }
        }
    }
    writeln!(o, "static CASES: &[fn(&mut X)] = &[{}];", names.iter().map(|n| format!("{n}::run")).collect::<Vec<_>>().join(", ")).unwrap();
    fs::write(Path::new(&out).join("thunk.rs"), o).unwrap();

    // variadics
    if env::var("CARGO_FEATURE_VARIADIC").is_ok() {
        variadic(&size, Path::new(&out));
    }
}

fn variadic(size: &str, out: &Path) {
    let letters = ["i", "l", "d", "p"];
    let depth = match size {
        "tiny" => 1,
        "small" => 2,
        _ => 3,
    };
    let (mut strings, mut last) = (vec![String::new()], vec![String::new()]);
    for _ in 0..depth {
        last = last.iter().flat_map(|s| letters.iter().map(move |l| format!("{s}{l}"))).collect();
        strings.extend(last.iter().cloned());
    }
    for k in if depth == 3 { (4..=13).collect() } else { vec![4, 9, 13] } {
        strings.extend(["i", "d", "id", "dl", "pid"].map(|p| p.repeat(k)[..k].to_string()));
    }
    let mut fixed: Vec<Vec<&str>> = (0..=12).map(|n| vec!["u64"; n]).collect();
    fixed.extend((1..=9).map(|n| vec!["f64"; n]));
    let mix = ["f64", "Big", "u8", "S3", "f32", "u128"];
    fixed.extend((1..=mix.len()).map(|n| mix[..n].to_vec()));
    let (mut o, mut names) = (String::new(), vec![]);
    for (k, ts) in fixed.iter().enumerate() {
        if size == "tiny" && k % 3 != 0 {
            continue;
        }
        let r = ["u64", "()", "f64", "Big", "u8", "S3"][k % 6];
        let name = format!("v{k}");
        let label = format!("C fn({}, ...) -> {r}", ts.join(", "));
        let n = ts.len();
        let fixed = ts.iter().enumerate().map(|(i, t)| format!("{t} = {i}")).collect::<Vec<_>>().join(", ");
        let sites = strings.iter().map(|s| {
            let vars = s.bytes().enumerate().map(|(i, c)| {
                let t = match c {
                    b'i' => "i32",
                    b'l' => "i64",
                    b'd' => "f64",
                    _ => "*const u8",
                };
                format!("{t} = {}", n + i)
            });
            format!("site!({s:?}, [{fixed}], [{}], {r})", vars.collect::<Vec<_>>().join(", "))
        });
        let sites = sites.collect::<Vec<_>>().join(", ");
        writeln!(o, "mod {name} {{ use super::*; pub fn run(x: &mut X) {{ case!(x, {label:?}, [{}], {r}, &[{sites}]) }} }}", args(ts)).unwrap();
        names.push(name);
    }
    writeln!(o, "static CASES: &[fn(&mut X)] = &[{}];", names.iter().map(|n| format!("{n}::run")).collect::<Vec<_>>().join(", ")).unwrap();
    fs::write(out.join("va.rs"), o).unwrap();
}
