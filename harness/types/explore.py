#!/usr/bin/env python3
"""explore.py --what <space> --lib <dir> --host <dir> --toolchain T --triple T [--std] [--unstable] --shard k/n"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import compile as comp  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    for a in ("--what", "--lib", "--host", "--toolchain", "--triple"):
        ap.add_argument(a, required=True)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--std", action="store_true")
    ap.add_argument("--unstable", action="store_true")
    ap.add_argument("--linker", default="")
    ap.add_argument("--runner", default="")
    ap.add_argument("--spaces", default="")
    o = ap.parse_args()
    k, n = map(int, o.shard.split("/"))
    o.link = ["-C", "linker=" + o.linker] if o.linker else []
    o.runner = o.runner.split()
    space = importlib.import_module(o.what)
    space.TRIPLE = o.triple
    try:
        cc = comp.Compiler(o.toolchain, o.triple, o.lib, o.host, [f for f in ("std", "unstable") if getattr(o, f)])
        return space.explore(cc, o, k, n) if hasattr(space, "explore") else table(space, cc, o, k, n)
    except comp.EngineError as e:
        print("ENGINE %s" % e)
        return 2


def table(space, cc, o, k, n):
    every = space.programs(o.std, o.unstable)
    mine = every[k::n]
    cc.decide(space.PRELUDE, mine)
    viols = 0
    for p, why in comp.judge(mine):
        viols += 1
        print("VIOL %s :: %s :: %s" % (p.case, why, " ".join(p.code.split())))
    groups = {}
    for p in mine:
        g = groups.setdefault(p.group, [0, 0])
        g[1 if p.errors else 0] += 1
    print("RESULT " + json.dumps({
        "states": len(mine), "transitions": cc.steps,
        "accepted": sum(not p.errors for p in mine), "rejected": sum(bool(p.errors) for p in mine),
        "compiler_runs": cc.runs, "spaces": groups,
        "samples": ["%s => %s" % (p.case, (p.errors[:1] or ["accepted"])[0]) for p in mine[:: max(1, len(mine) // 2)]][:2],
    }))
    return 1 if viols else 0


sys.exit(main())
