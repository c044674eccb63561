#!/usr/bin/env python3
"""Driver of the checks.

    run.py CNN [--thorough]       run one check (quick tier unless VERIF_TIER=thorough or --thorough)
    run.py setup                  build everything once (the checks also do it themselves)

Every harness is an explorer binary that takes `--shard k/n`, enumerates its part of the space, and
prints `VIOL <what> :: <case>` lines, and one `RESULT {json}` line with counts. Exit 0: nothing
found; 1 or 3: violations; anything else, or no RESULT line: an engine error.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
STABLE, NIGHTLY = "1.99.1", "nightly-2026-10-29"
CORES = min(8, os.cpu_count() or 8)
RUN_LIMIT = int(os.environ.get("MC_RUN_LIMIT", "700"))

QEMU_A64 = ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]
QEMU_ARM = ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]
ARM_STD = ["-Zbuild-std"]
LANES = {
    # name: (triple, toolchain, extra cargo args, runner)
    "x86_64": ("x86_64-unknown-linux-gnu", STABLE, [], []),
    "i686": ("i686-unknown-linux-gnu", STABLE, [], []),
    "aarch64": ("aarch64-unknown-linux-gnu", STABLE, [], QEMU_A64),
    "armv7": ("armv7-unknown-linux-gnueabihf", NIGHTLY, ARM_STD, QEMU_ARM),
    "thumb": ("thumbv7neon-unknown-linux-gnueabihf", NIGHTLY, ARM_STD, QEMU_ARM),
}


# harnesses made of files of other ones
SHARED = {"conc-real": ("conc",)}


class EngineError(Exception):
    pass


class Rejected(EngineError):
    """The library compiles, and a harness that only uses documented items of it does not type-check."""


# what the compiler says when a documented use of an existing item is refused
REFUSALS = ("E0271", "E0277", "E0308", "E0309", "E0310", "E0597", "E0521", "E0515", "E0505", "E0716")


def refusal(out):
    """The compiler's message when the harness itself, not the library, has only refusals as errors."""
    failed = set(re.findall(r"could not compile `([^`]*)`", out))
    codes = re.findall(r"^error\[(E\d+)\]", out, re.M)
    plain = [l for l in re.findall(r"^error: .*", out, re.M) if not re.match(r"error: (could not compile|aborting due)", l)]
    if failed and all(f.startswith("mc-") for f in failed) and codes and not plain and all(c in REFUSALS for c in codes):
        return out[out.index("error["):][:1500]
    return None


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:" + env["HOME"] + "/.cargo/bin"
    env.update(
        CARGO_NET_OFFLINE="true",
        RUSTUP_AUTO_INSTALL="0",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="gcc-13",
        CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER="aarch64-linux-gnu-gcc",
        CC_aarch64_unknown_linux_gnu="aarch64-linux-gnu-gcc",
        CARGO_TARGET_ARMV7_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CARGO_TARGET_THUMBV7NEON_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CC_armv7_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
        CC_thumbv7neon_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
    )
    return env


# ------------------------------------------------------------------ building

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dirs, fs in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def repo_paths():
    out = [os.path.join(REPO, p) for p in ("src", "Cargo.toml", "build.rs", "build", "LICENSE", "README.md")]
    out += sorted(glob.glob(os.path.join(REPO, "*", "Cargo.toml")))
    out += sorted(d for d in glob.glob(os.path.join(REPO, "*", "src")))
    return [p for p in out if os.path.exists(p)]


class Build:
    """One cargo build of one harness; identical builds are shared between jobs."""

    def __init__(self, harness, lane, profile="release", features=(), rustflags=(), toolchain=None,
                 cargo_args=(), build_std=None, tag="", env=()):
        self.harness, self.lane, self.profile = harness, lane, profile
        self.features, self.rustflags = tuple(features), tuple(rustflags)
        self.toolchain, self.cargo_args, self.build_std = toolchain, tuple(cargo_args), build_std
        self.tag, self.env = tag, tuple(env)
        self.key = (harness, lane, profile, self.features, self.rustflags, toolchain, self.cargo_args, build_std, tag, self.env)

    def run(self, binary=None):
        triple, tc, extra, _ = LANES[self.lane]
        tc = self.toolchain or tc
        src = os.path.join(VERIF, "harness", self.harness)
        tdir = os.path.join(TARGET, self.harness, self.lane + self.tag)
        os.makedirs(tdir, exist_ok=True)
        stamp = os.path.join(tdir, "mc-source-hash")
        want = tree_hash(repo_paths() + [src] + [os.path.join(VERIF, "harness", h) for h in SHARED.get(self.harness, ())])
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if want != have:
            # never trust timestamps of a copied tree
            for f in glob.glob(os.path.join(tdir, "**", ".fingerprint", "*"), recursive=True):
                if re.match(r"(closure-ffi(-proc-macros)?-[0-9a-f]{16}$|mc-)", os.path.basename(f)):
                    shutil.rmtree(f, ignore_errors=True)
            # (the directory layout of newer cargo versions)
            for f in glob.glob(os.path.join(tdir, "**", "build", "*"), recursive=True):
                if re.match(r"(closure-ffi(-proc-macros)?|mc-[a-z-]+)$", os.path.basename(f)):
                    shutil.rmtree(f, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        env = base_env()
        env["CARGO_TARGET_DIR"] = tdir
        env.update(dict(self.env))
        if self.rustflags:
            env["RUSTFLAGS"] = " ".join(self.rustflags)
        cmd = ["cargo", "+" + tc, "build", "--offline", "--target", triple, "--profile", self.profile]
        cmd += extra if self.build_std is None else list(self.build_std)
        cmd += list(self.cargo_args)
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=1500)
        if p.returncode != 0:
            said = refusal(p.stdout)
            if said:
                raise Rejected("a program using the documented interface is rejected (%s): %s" % (self.lane, " ".join(said.split())))
            raise EngineError("build of %s for %s failed:\n%s" % (self.harness, self.lane, p.stdout[-6000:]))
        with open(stamp, "w") as f:
            f.write(want)
        pdir = "debug" if self.profile == "dev" else self.profile
        return os.path.join(tdir, triple, pdir)


class Job:
    """One exploration: a build, a binary of it, arguments, number of shards."""

    def __init__(self, build, binary, args=(), shards=CORES, label=None, runner=None, env=(), limit=None, script=None):
        self.build, self.binary, self.args, self.shards = build, binary, tuple(args), shards
        self.script = script
        self.label = label or " ".join([build.harness, build.lane, build.profile] + list(args))
        self.runner, self.env, self.limit = runner, tuple(env), limit or RUN_LIMIT
        self.extra_violations = None


def build_all(builds):
    """Build everything that is needed, in parallel; builds sharing a target directory in sequence."""
    groups = {}
    for b in builds:
        groups.setdefault((b.harness, b.lane, b.tag), {})[b.key] = b
    out = {}

    def do(group):
        got = {}
        for k, b in group.items():
            try:
                got[k] = b.run()
            except (EngineError, subprocess.SubprocessError, OSError) as e:
                # the other explorations can still decide
                got[k] = e
        return got

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for r in ex.map(do, groups.values()):
            out.update(r)
    return out


# ------------------------------------------------------------------ running

def run_shard(job, bindir, k):
    runner = LANES[job.build.lane][3] if job.runner is None else job.runner
    cmd = list(runner) + [os.path.join(bindir, job.binary or ""), "--shard", "%d/%d" % (k, job.shards)] + list(job.args)
    if job.script:
        # an explorer that compiles (and runs) programs against the library that was built
        triple, tc, _, runner = LANES[job.build.lane]
        host = os.path.join(os.path.dirname(os.path.dirname(bindir)), os.path.basename(bindir))
        cmd = ["python3", os.path.join(VERIF, job.script), "--lib", bindir, "--host", host,
               "--toolchain", job.build.toolchain or tc, "--triple", triple, "--runner", " ".join(runner),
               "--linker", base_env().get("CARGO_TARGET_%s_LINKER" % triple.upper().replace("-", "_"), ""),
               "--shard", "%d/%d" % (k, job.shards)] + list(job.args)
    env = base_env()
    env.update(dict(job.env))
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.limit, cwd="/tmp")
    except subprocess.TimeoutExpired:
        raise EngineError("%s shard %d/%d exceeded %d s" % (job.label, k, job.shards, job.limit))
    out = p.stdout.decode("utf-8", "replace")
    err = p.stderr.decode("utf-8", "replace")
    viols, result, engine = [], None, None
    for line in out.splitlines():
        if line.startswith("VIOL "):
            viols.append(line[5:])
        elif line.startswith("RESULT "):
            result = json.loads(line[7:])
        elif line.startswith("ENGINE "):
            engine = line
    where = "%s shard %d/%d" % (job.label, k, job.shards)
    if engine or p.returncode not in (0, 1, 3) or (result is None and not viols) or (p.returncode != 0 and not viols):
        if not viols:
            raise EngineError("%s: exit %s %s\n%s\n%s" % (where, p.returncode, engine or "", out[-2000:], err[-2000:]))
    return {"viols": [(where, " ".join(cmd), v) for v in viols], "result": result or {}, "wall": time.time() - t0}


def merge(total, d):
    for k, v in d.items():
        if isinstance(v, bool):
            total[k] = total.get(k, True) and v
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            if v and all(isinstance(x, int) for x in v) and isinstance(total.get(k, []), list):
                old = total.get(k) or [0] * len(v)
                total[k] = [a + b for a, b in zip(old, v)]
            else:
                total.setdefault(k, [])
                total[k] += v


def known_findings(prop):
    """Lines `finding: property=CNN match=<a && b> :: <what fails>` of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(([p.strip() for p in m.group(2).split("&&")], m.group(3)))
    return out


def run_check(prop, spec, tier):
    t0 = time.time()
    jobs = spec["jobs"](tier)
    dirs = build_all([j.build for j in jobs])
    t_built = time.time()
    totals, per_job, viols, shards = {}, {}, [], {}
    lock = threading.Lock()
    unbuilt = {k: e for k, e in dirs.items() if isinstance(e, Exception)}
    for e in unbuilt.values():
        if isinstance(e, Rejected) and spec.get("must_compile"):
            viols.append(("build", "cargo build", str(e)))

    def one(arg):
        job, k = arg
        r = run_shard(job, dirs[job.build.key], k)
        with lock:
            merge(totals, {a: [job.label + x for x in b] if a == "state_hashes" else b for a, b in r["result"].items()})
            merge(per_job.setdefault(job.label, {}), {a: b for a, b in r["result"].items() if isinstance(b, (int, float)) and not isinstance(b, bool)})
            viols.extend(r["viols"])
            shards[(job, k)] = r["result"]

    tasks = [(j, k) for j in jobs for k in range(j.shards) if j.build.key not in unbuilt]
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        futs = [ex.submit(one, t) for t in tasks]
        errors = [f.exception() for f in cf.as_completed(futs) if f.exception()]
    errors += list(unbuilt.values())
    if "state_hashes" in totals:
        # the same state can be reached in several shards
        totals["states"] = totals.get("states", 0) + len(set(totals.pop("state_hashes")))
    if not errors and "post" in spec:
        viols.extend(spec["post"](shards))
    known = known_findings(prop)
    fresh, hits = [], {}
    for v in viols:
        for parts, what in known:
            if all(p in v[2] for p in parts):
                hits[what] = hits.get(what, 0) + 1
                break
        else:
            fresh.append(v)
    if errors and not fresh:
        raise errors[0]
    wall = time.time() - t0
    write_evidence(prop, spec, tier, totals, per_job, len(fresh), hits, wall, t_built - t0)
    for what, n in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, what, n))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s.txt" % prop)
        with open(replay, "w") as f:
            for where, cmd, v in fresh:
                f.write("# %s\n# command: %s\n%s\n" % (where, cmd, v))
        for where, _, v in fresh[:10]:
            print("  %s: %s" % (where, v[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("%s holds: %s in %.1f s (build %.1f s)" % (prop, json.dumps({k: v for k, v in totals.items() if isinstance(v, (int, float))}), wall, t_built - t0))
    return 0


def write_evidence(prop, spec, tier, totals, per_job, nviol, hits, wall, t_build):
    cov = spec["coverage"](totals)
    cov.setdefault("exhaustive", True)
    cov.setdefault("samples", totals.get("samples", [])[:12])
    cov["per_exploration"] = per_job
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "wall_s": round(wall, 2),
        "violations": nviol,
        "assumptions": spec.get("assumptions", []),
    }
    cov["build_s"] = round(t_build, 2)
    if hits:
        cov["known_findings"] = hits
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


# ------------------------------------------------------------------ the checks

STATIC = ("-C", "relocation-model=static")


def reloc_build(lane, profile):
    # absolute addressing of the harness's buffers where the instruction set needs it
    flags = STATIC if lane in ("i686", "armv7", "thumb") else ()
    return Build("reloc", lane, profile, rustflags=flags)


def reloc_jobs(lane):
    def jobs(tier):
        extra = ["--thorough"] if tier == "thorough" else []
        return [Job(reloc_build(lane, "release"), "mc-reloc", extra)]
    return jobs


def accept_jobs(tier):
    extra = ["--accept"] + (["--thorough"] if tier == "thorough" else [])
    out = []
    for lane in LANES:
        out.append(Job(reloc_build(lane, "release"), "mc-reloc", extra))
        out.append(Job(reloc_build(lane, "checked"), "mc-reloc", extra))
    return out


def accept_post(shards):
    """Builds with and without overflow checks must take the same decision for every prologue."""
    out, seen = [], {}
    for (job, k), r in sorted(shards.items(), key=lambda x: (x[0][0].label, x[0][1])):
        for space, sig in r.get("decisions", {}).items():
            key = (job.build.lane, k, space)
            if key in seen and seen[key][1] != sig:
                out.append((job.label, job.label, "builds with and without overflow checks accept different prologues :: "
                            "%s shard %d space=%s (%s, %s)" % (job.build.lane, k, space, seen[key][0], job.build.profile)))
            seen[key] = (job.build.profile, sig)
    return out


def reloc_coverage(t):
    return {
        "states": t.get("states", 0),
        "transitions": t.get("transitions", 0),
        "traces_validated_against_impl": t.get("runs", 0),
        "programs": t.get("programs", 0),
        "accepted_programs": t.get("accepted", 0),
        "refused_programs": t.get("refused", 0),
        "distinct_accepted_templates": t.get("templates", 0),
        "must_accept_programs": t.get("must_accept", 0),
        "reference_faults": t.get("ref_faults", 0),
        "inapplicable_combinations": t.get("inapplicable", 0),
        "spaces_programs_accepted": t.get("spaces", {}),
    }


def accept_coverage(t):
    d = reloc_coverage(t)
    # no code is executed in this mode: a trace is one construction through the public API
    d["traces_validated_against_impl"] = d.pop("programs")
    for k in ("distinct_accepted_templates", "reference_faults"):
        d.pop(k)
    return d


RELOC_ASSUME = [
    "alphabets, sequence depths, alignments and initial machine states are the stated bounds",
    "user-mode CPU (native or qemu-user) is the semantics of machine code",
]
CHECKS = {}
for _p, _lane in [("C07", "x86_64"), ("C08", "i686"), ("C09", "aarch64"), ("C10", "armv7"), ("C11", "thumb")]:
    CHECKS[_p] = {"jobs": reloc_jobs(_lane), "coverage": reloc_coverage, "assumptions": RELOC_ASSUME}
CHECKS["C12"] = {"jobs": accept_jobs, "post": accept_post, "coverage": accept_coverage, "assumptions": RELOC_ASSUME}


# -- lifecycles

def life_jobs(prop):
    def jobs(tier):
        def job(lane, profile, size, features=(), tag="", shards=CORES, toolchain=None):
            b = Build("life", lane, profile, features=features, tag=tag, toolchain=toolchain,
                      cargo_args=("--no-default-features",))
            return Job(b, "mc-life", ["--prop", prop, "--tier", size], shards=shards,
                       label="life %s %s %s %s" % (lane, profile, "+".join(features), size))
        main = "thorough" if tier == "thorough" else "quick"
        out = [job("x86_64", "release", main, ("safe",)),
               job("x86_64", "checked", "small", ("safe",), shards=4),
               job("x86_64", "release", "small", ("unsafe_jit",), "-unsafe", shards=4),
               job("i686", "release", "small", ("safe",), shards=4),
               job("aarch64", "release", "small", ("safe",)),
               job("armv7", "release", "small", ("safe",)),
               job("thumb", "release", "small", ("safe",))]
        if prop == "C19":
            out.append(job("x86_64", "release", "small", ("safe", "block"), "-block", shards=4))
        if prop in ("C02", "C03"):
            out.append(job("x86_64", "release", "small", ("safe", "unstable"), "-unstable", shards=4, toolchain=NIGHTLY))
        if prop in ("C06", "C19"):
            # the allocators that come with the library
            for lane in LANES:
                for std in (True, False) if lane == "x86_64" else (True,):
                    depth = "5" if tier == "thorough" else "4" if lane == "x86_64" else "3"
                    b = Build("bundled", lane, features=("std",) if std else (), tag="" if std else "-nostd")
                    out.append(Job(b, "mc-bundled", ["--depth", depth], shards=CORES if tier == "thorough" else 1,
                                   label="bundled %s %s %s" % (lane, "std" if std else "no_std", depth)))
        return out
    return jobs


def life_coverage(t):
    return {
        "states": t.get("states", 0),
        "transitions": t.get("transitions", 0),
        "traces_validated_against_impl": t.get("histories", 0),
        "constructions": t.get("constructions", 0),
        "bare_function_calls": t.get("calls", 0),
        "model_comparisons": t.get("checks", 0),
        "injected_failures": t.get("faults", 0),
        "spaces_histories": t.get("spaces", {}),
    }


LIFE_ASSUME = [
    "recipes, number of simultaneous wrappers and history depth are the stated bounds",
    "the explorer's allocators stand for all conforming allocators",
]
for _p in ("C02", "C03", "C04", "C05", "C06", "C19"):
    CHECKS[_p] = {"jobs": life_jobs(_p), "coverage": life_coverage, "assumptions": LIFE_ASSUME}


# -- calls

def abi_jobs(binary, plan):
    """plan(tier) yields (lane, profile, size, features)."""
    def jobs(tier):
        out = []
        for lane, profile, size, features in plan(tier):
            va = "variadic" in features
            tc = NIGHTLY if va else None
            b = Build("abi", lane, profile, features=features, toolchain=tc, tag="-va" if va else "",
                      cargo_args=("--no-default-features", "--bin", binary), env=(("MC_SIZE", size),))
            out.append(Job(b, binary, label="%s %s %s %s %s" % (binary, lane, profile, "+".join(features), size)))
        return out
    return jobs


def call_plan(tier):
    big = "full" if tier == "thorough" else "small"
    for lane in LANES:
        yield lane, "release", "full" if tier == "thorough" and lane in ("x86_64", "aarch64") else "small", ("safe",)
        yield lane, "dev", "tiny", ("safe",)
    yield "x86_64", "release", big, ("unsafe_jit",)
    yield "aarch64", "release", "tiny", ("unsafe_jit",)


def body_plan(tier):
    for lane in LANES:
        for profile in ("release", "dev"):
            yield lane, profile, "tiny", ("safe",)
    yield "x86_64", "release", "tiny", ("unsafe_jit",)


def panic_plan(tier):
    for lane in LANES:
        yield lane, "release", "small" if tier == "thorough" or lane in ("x86_64", "i686") else "tiny", ("safe",)
    yield "x86_64", "dev", "tiny", ("safe",)
    yield "x86_64", "release", "tiny", ("unsafe_jit",)


def thunk_plan(tier):
    for lane in LANES:
        yield lane, "release", "full" if tier == "thorough" and lane == "x86_64" else "small" if tier == "thorough" or lane == "x86_64" else "tiny", ("safe",)
    yield "x86_64", "dev", "small", ("safe",)
    yield "x86_64", "release", "tiny", ("unsafe_jit",)


def va_plan(tier):
    for lane in LANES:
        yield lane, "release", "full" if tier == "thorough" or lane == "x86_64" else "small", ("safe", "variadic")
        yield lane, "dev", "small" if lane in ("x86_64", "i686") else "tiny", ("safe", "variadic")
    yield "x86_64", "release", "small", ("unsafe_jit", "variadic")


def abi_coverage(t):
    return {
        "states": t.get("states", 0),
        "transitions": t.get("calls", 0),
        "traces_validated_against_impl": t.get("histories", 0) or t.get("constructions", 0),
        "signatures": t.get("signatures", 0),
        "constructions": t.get("constructions", 0),
        "bare_function_calls": t.get("calls", 0),
        "panics_observed": t.get("panics", 0),
        "signatures_miscompiled_by_rustc": t.get("excluded", 0),
        "refused_constructions": t.get("refused", 0),
    }


ABI_ASSUME = [
    "argument classes, patterns, arities and conventions are the stated bounds",
    "a plain function of the same type, compiled by the same compiler, is the reference; signatures it cannot compile correctly itself are left out and counted",
]
for _p, _b, _plan in [("C01", "abi-call", call_plan), ("C15", "abi-panic", panic_plan),
                      ("C17", "abi-thunk", thunk_plan), ("C18", "abi-va", va_plan)]:
    CHECKS[_p] = {"jobs": abi_jobs(_b, _plan), "coverage": abi_coverage, "assumptions": ABI_ASSUME}
CHECKS["C01"]["jobs"] = lambda tier: abi_jobs("abi-call", call_plan)(tier) + abi_jobs("abi-body", body_plan)(tier)


# -- what compiles

def types_jobs(what):
    def jobs(tier):
        def job(lane, std, unstable, shards, spaces=""):
            feats = (("std",) if std else ()) + (("unstable",) if unstable else ())
            b = Build("types", lane, features=feats, toolchain=NIGHTLY if unstable else None,
                      tag=("" if std else "-nostd") + ("-unstable" if unstable else ""))
            args = ["--what", what, "--tier", tier] + ["--" + f for f in feats] + (["--spaces", spaces] if spaces else [])
            return Job(b, None, args, shards=shards, script="harness/types/explore.py",
                       label="types %s %s %s" % (what, lane, "+".join(feats)))
        if what == "hrtb":
            spaces = "" if tier == "thorough" else "arity,type,relation"
            return [job("x86_64", True, False, 2 * CORES), job("x86_64", True, True, 2 * CORES if tier == "thorough" else CORES, spaces),
                    job("x86_64", False, False, CORES, spaces), job("i686", True, False, CORES, spaces), job("aarch64", True, False, CORES, spaces)]
        return [job("x86_64", True, False, CORES), job("x86_64", False, False, CORES), job("x86_64", True, True, CORES), job("i686", True, False, CORES)]
    return jobs


def types_coverage(t):
    d = {
        "states": t.get("states", 0),
        "transitions": t.get("transitions", 0),
        "traces_validated_against_impl": t.get("executed_aliases", 0) or t.get("compiler_runs", 0),
        "accepted_programs": t.get("accepted", 0),
        "rejected_programs": t.get("rejected", 0),
        "spaces_accepted_rejected": t.get("spaces", {}),
    }
    if "executed_aliases" in t:
        d["compiler_runs"] = t.get("compiler_runs", 0)
    return d


TYPES_ASSUME = [
    "the grammar of programs is the stated bound",
    "the compiler's verdict on a program is the truth about what users can write",
]
for _p, _w in [("C13", "markers"), ("C16", "hrtb"), ("C20", "outlive")]:
    CHECKS[_p] = {"jobs": types_jobs(_w), "coverage": types_coverage, "assumptions": TYPES_ASSUME}


# -- schedules

TSAN = ("-Zsanitizer=thread", "-Zexternal-clangrt", "-Cllvm-args=-tsan-instrument-func-entry-exit=0")


def conc_jobs(tier):
    deep = tier == "thorough"
    seconds, most = ("1000", "3000000") if deep else ("80", "12000")

    def job(harness, std, args, shards=CORES):
        b = Build(harness, "x86_64", features=("std",) if std else (), rustflags=TSAN, toolchain=NIGHTLY,
                  build_std=("-Zbuild-std",), tag="" if std else "-nostd")
        return Job(b, "mc-" + harness, args + ["--seconds", seconds, "--limit", most], shards=shards, limit=5000 if deep else None,
                   label=" ".join([harness, "std" if std else "no_std"] + args))
    small = ["--polite", "1,1:20", "--polite", "2,2:4", "--polite", "1,1,1:4", "--full", "1,1:20", "--weight", "4"]
    out = [job("conc", std, ["--self", "1000"], 1) for std in (True, False)]
    out += [job("conc", std, small) for std in (True, False)]
    out += [job("conc", std, ["--full", "1,1,1:20", "--weight", "3"]) for std in (True, False)]
    out += [job("conc-real", True, ["--polite", "1,1:8"]), job("conc-real", False, ["--polite", "1,1:6"])]
    if deep:
        out += [job("conc", std, ["--full", "1,1:20", "--weight", "5"]) for std in (True, False)]
        out += [job("conc", std, ["--polite", "2,2:7", "--polite", "1,1,1:7", "--polite", "3,3:3"]) for std in (True, False)]
        out += [job("conc-real", std, ["--polite", "1,1:20", "--polite", "1,1,1:4"]) for std in (True, False)]
    return out


def conc_coverage(t):
    return {
        "states": t.get("states", 0),
        "transitions": t.get("transitions", 0),
        "traces_validated_against_impl": t.get("schedules", 0),
        "exhaustive": not any(t.get(k, 0) for k in ("cut_short", "only_politely", "skipped")),
        "programs": t.get("programs", 0),
        "programs_cut_short": t.get("cut_short", 0) + t.get("skipped", 0),
        "programs_explored_politely_for_their_size": t.get("only_politely", 0),
        "executions_ended_early_as_redundant": t.get("redundant_schedules", 0),
        "executions_ended_early_as_unfair": t.get("unfair_schedules", 0),
        "memory_accesses_checked_for_races": t.get("plain_accesses", 0),
        "closures_made": t.get("closures", 0),
        "bare_function_calls": t.get("calls", 0),
        "explorer_compared_with_plain_enumeration": {
            "programs": t.get("compared_programs", 0),
            "schedules_enumerated": t.get("compared_schedules", 0),
            "schedules_after_reduction": t.get("compared_reduced", 0),
            "known_errors_found": t.get("known_errors_found", 0),
        },
    }


CHECKS["C14"] = {
    "jobs": conc_jobs,
    "coverage": conc_coverage,
    "assumptions": [
        "threads interleave at atomic operations and system calls; what weaker memory orders allow beyond that shows up as a data race only",
        "operations, lengths of threads, and the total number of allocator uses of fully explored programs are the stated bounds",
        "schedules in which a waiting thread is passed over more than twice in a row are not followed to their end",
        "the larger programs leave out schedules in which a thread tries a lock that is taken while others can go on",
    ],
}


# properties under which a documented use of the library has to be accepted in the first place
for _p in ("C01", "C15", "C17", "C18", "C19"):
    CHECKS[_p]["must_compile"] = True


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        if args == ["setup"]:
            builds = [j.build for spec in CHECKS.values() for j in spec["jobs"]("quick")]
            for r in build_all(builds).values():
                if isinstance(r, Exception):
                    raise r
            return 0
        if len(args) != 1 or args[0] not in CHECKS:
            print("usage: run.py CNN [--thorough] | setup; checks: " + " ".join(sorted(CHECKS)))
            return 2
        return run_check(args[0], CHECKS[args[0]], tier)
    except Exception as e:  # never a verdict
        print("ENGINE ERROR: %s: %s" % (type(e).__name__, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
