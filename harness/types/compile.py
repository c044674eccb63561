"""Decides, with the compiler as the judge, which of many small programs are accepted.

All programs of a batch are put into one crate, one module each. Every error the compiler reports is
attributed to the program it lies in; the programs in error are rejected and removed, and the rest
is compiled again until the compiler is content. An accepted program has therefore always been
part of a crate that compiled, and a rejected one has an error of its own.
"""
import glob
import json
import os
import subprocess
import tempfile


class EngineError(Exception):
    pass


class Program:
    """One program. `expect`: True accepted, False rejected, None either way (not judged)."""

    __slots__ = ("group", "case", "code", "expect", "errors")

    def __init__(self, group, case, code, expect):
        self.group, self.case, self.code, self.expect = group, case, code, expect
        self.errors = None


class Compiler:
    def __init__(self, toolchain, triple, libdir, hostdir, features=()):
        lib = os.path.join(libdir, "libmc_types.rlib")
        dirs = [os.path.join(libdir, "deps"), os.path.join(hostdir, "deps")]
        if not os.path.exists(lib):
            # the directory layout of newer cargo versions
            dirs = glob.glob(os.path.join(libdir, "build", "*", "*", "out")) + glob.glob(os.path.join(hostdir, "build", "*", "*", "out"))
            libs = glob.glob(os.path.join(libdir, "build", "mc-types", "*", "out", "libmc_types-*.rlib"))
            if len(libs) != 1:
                raise EngineError("no library, or several: %s" % libs)
            lib = libs[0]
        self.cmd = ["rustc", "+" + toolchain, "--edition", "2021", "--target", triple, "--error-format=json", "-Awarnings", "--extern", "mc_types=" + lib]
        if os.path.exists(lib[:-5] + ".rmeta"):
            self.cmd += ["--extern", "mc_types=" + lib[:-5] + ".rmeta"]
        for d in sorted(dirs):
            self.cmd += ["-L", "dependency=" + d]
        for f in features:
            self.cmd += ["--cfg", 'feature="%s"' % f]
        self.runs = self.steps = 0

    def rustc(self, source, args):
        """Compiles one file; returns (ok, error messages)."""
        self.runs += 1
        p = subprocess.run(self.cmd + args + [source], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errors = []
        for line in p.stderr.splitlines():
            if not line.startswith("{"):
                if "panicked" in line or "internal compiler error" in line:
                    raise EngineError("rustc crashed: " + p.stderr[-3000:])
                continue
            m = json.loads(line)
            if m.get("level") == "error: internal compiler error":
                raise EngineError("rustc crashed: " + m["message"])
            if m.get("level") == "error" and not m["message"].startswith("aborting due to"):
                errors.append(m)
        if p.returncode not in (0, 1) or (p.returncode == 1 and not errors):
            raise EngineError("rustc exit %s: %s" % (p.returncode, p.stderr[-3000:]))
        return p.returncode == 0, errors

    def decide(self, prelude, programs):
        """Sets `errors` of every program: [] when it is accepted."""
        left = list(programs)
        with tempfile.TemporaryDirectory(prefix="mc-types-") as tmp:
            path = os.path.join(tmp, "batch.rs")
            while left:
                self.steps += len(left)
                lines, owner = prelude.split("\n"), {}
                for i, p in enumerate(left):
                    body = ["pub mod p%d { use super::*;" % i] + p.code.split("\n") + ["}"]
                    for k in range(len(body)):
                        owner[len(lines) + 1 + k] = p
                    lines += body
                with open(path, "w") as f:
                    f.write("\n".join(lines) + "\n")
                ok, errors = self.rustc(path, ["--crate-type", "lib", "--emit=metadata", "-o", os.path.join(tmp, "batch.rmeta")])
                if ok:
                    for p in left:
                        p.errors = []
                    return
                hit = 0
                for m in errors:
                    for p in {owner[n] for n in own_lines(m, path) if n in owner}:
                        if p.errors is None:
                            p.errors = []
                            hit += 1
                        p.errors.append("%s %s" % ((m.get("code") or {}).get("code", ""), m["message"]))
                if not hit:
                    raise EngineError("errors outside the programs: " + json.dumps([m["message"] for m in errors])[:3000])
                left = [p for p in left if p.errors is None]


def own_lines(message, path):
    """Lines of the generated file that the primary spans of an error lie in."""
    out = []
    for s in message.get("spans", []):
        if not s.get("is_primary"):
            continue
        while s is not None and s["file_name"] != path:
            s = (s.get("expansion") or {}).get("span")
        if s is not None:
            out.append(s["line_start"])
    return out


def judge(programs):
    """Yields the programs whose verdict is not the expected one, and checks against vacuity."""
    groups = {}
    for p in programs:
        g = groups.setdefault(p.group, [0, 0])
        g[0 if not p.errors else 1] += 1
        if p.expect is True and p.errors:
            yield p, "rejected, should compile: " + p.errors[0]
        elif p.expect is False and not p.errors:
            yield p, "compiles, should be rejected"
