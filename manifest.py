#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "C01": "five instruction sets, optimised and unoptimised, both emission modes: every convention x arity 0-12 x argument patterns over 30 argument classes x kind x capturing/zero-sized, called 3 times and compared with a plain function; all constructors and routes at arities 0 and 3; 43 closure bodies (thread-locals, statics, constants, stack probes, ...) inlined into the bare function x convention x kind x class",
    "C13": "every wrapper type x storage bound x allocator marker x closure marker x constructor, factory, conversion and bundle: the compiler's verdict on each of 19209 programs in four configurations, compared with the table the property gives",
    "C16": "every alias of a grammar (ABI x safety x arity x lifetimes x argument and result types x generics x where clauses x names in scope): accepted ones built, wrapped and called by every route on three targets, std and no_std; documented and unsound ones must be rejected",
    "C14": "every schedule (up to reordering of independent operations) of every program of two and three threads over 20 operations on wrappers and allocators, run on the code itself under a scheduler that owns every atomic operation, with a happens-before race detector and a ledger of blocks; the reduction is compared with plain enumeration on every run",
    "C20": "every wrapper kind x form x storage bound x lifetime relation x constructor x use: the compiler's verdict on each of 28884 programs in four configurations, compared with what the property says",
    "C15": "five instruction sets: every unwinding convention x arity 0-12 x argument shapes with counted values x all histories up to length 3 over 11 ways of panicking and returning x kind x capturing/zero-sized",
    "C17": "five instruction sets: every convention x arity: packed calls, conversions, and for every thunk factory all sequences up to length 2 of direct calls followed by every terminal use",
    "C18": "five instruction sets, optimised and unoptimised: 28 fixed signatures x all type strings up to length 3 plus long ones x kind x capturing/zero-sized x constructor, compared with a plain variadic function",
    "C02": "all histories up to depth 5-9 of creating, calling (also from inside calls and destructors), converting, leaking and dropping wrappers, on the real library with reusing allocators, compared step by step with a model",
    "C03": "all histories of one or several wrappers of every kind, closure class and storage bound through conversions, threads, leaks, panicking and reentrant destructors; drop ledger and heap ledger",
    "C04": "all histories over several instrumented allocators, every handle type and constructor; ledger of blocks and handles",
    "C05": "every constructor, closure class, kind, storage bound and handle x every failing allocator call (error or panic), refused prologues, and all histories up to depth 4 with failures in them",
    "C06": "every constructor and handle and a set of prologue shapes x every placement of the block; access rights enforced by page protection, guard pages, both fill patterns; all sequences of operations and wrapper lives through the bundled allocators over a logging stand-in, on all five instruction sets",
    "C19": "all sequences up to length 4 of raw allocator operations through 14 adapters, and all histories up to depth 3 mixing handles and allocators; all sequences of operations through the bundled global and per-thread handles over a logging stand-in",
    "C07": "x86-64, native: all prologues up to depth 4 (8 for a small core) over ~150 instructions, alignments, 2 machine states, executed relocated and in place",
    "C08": "x86-32, native: all prologues up to depth 4-5, executed relocated and in place",
    "C09": "AArch64 under qemu-user: all prologues up to depth 3 (6 for a small core), immediates with at most two deviating bits, all registers, 1 MB reach boundary",
    "C10": "ARM under qemu-user: all prologues up to depth 3 (5 for a small core), immediates, registers, 4 KB reach boundary",
    "C11": "Thumb-2 under qemu-user: as C10, both halfword alignments",
    "C12": "same prologue spaces on all five instruction sets, with and without overflow checks; must-accept predicate, identical decisions, termination",
}
checks = []
for p, note in sorted(NOTES.items()):
    checks.append({
        "property": p,
        "quick_cmd": "python3 /verif/run.py " + p,
        "thorough_cmd": "python3 /verif/run.py %s --thorough" % p,
        "technique": "model checking: exhaustive bounded enumeration of executions of the real code",
        "level": "model_checking",
        "level_note": note,
        "evidence_file": "/verif/evidence/%s.json" % p,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/run.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Commits in /repo are fixes of defects found by the checks, see known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
