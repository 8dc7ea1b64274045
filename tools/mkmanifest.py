#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("deterministic simulation: seeded instruction- and element-level thread scheduler, solitary fresh-process oracle",
         "Sampled schedules of 2-4 real threads over every public operation; single processor, sequentially consistent; switches inside the C maths library are not placed."),
 "C02": ("deterministic simulation: seeded call histories with injected aborts, fresh-process oracle",
         "Sampled histories, plus a soak of very many equal calls per operation; the oracle is the same build as the first call of a fresh process."),
 "C03": ("deterministic simulation: threads stopped for ever at seeded instructions, progress of the survivors",
         "Sampled stall points, biased to instructions that touch shared memory; progress is judged with a generous wall-clock limit and confirmed before it is reported."),
 "C04": ("deterministic simulation: value and comparison corruption in simulated arithmetic, step budget as bounded liveness",
         "Sampled corruption sequences; budget 8 times an ordinary call plus a constant."),
 "C05": ("deterministic simulation: sink and element-format faults at seeded writes, prefix and completeness oracle",
         "Sampled values, sinks and failure points, transient and permanent, for every displayable type."),
 "C06": ("deterministic simulation: process streams captured, full, closed or broken under seeded calls",
         "Sampled calls of every operation under each stream state, fresh-process oracle."),
 "C07": ("deterministic simulation: every system call and allocation fails (seccomp, trap flag), both feature configurations",
         "Sampled operands of every operation with all system calls failing and allocations counted; the no-std build is compared on a seeded corpus."),
 "C08": ("deterministic simulation: seeded in-place histories with injected aborts against a plain-array model",
         "Sampled histories for all ten types and several element types."),
 "C09": ("deterministic simulation: seeded stateful closures with injected panics and re-entry, call-order oracle",
         "Sampled closures and abort points for all five matrix sizes."),
 "C10": ("deterministic simulation: NaN injected at every (or sampled) arithmetic step of seeded calls",
         "Every step is hit in calls of up to 48 steps, sampled in longer ones."),
 "C11": ("deterministic simulation: consistent value corruption in simulated arithmetic and extreme operands, panic oracle",
         "Sampled corruption functions and operands; documented misuses are excluded by name and operand."),
 "C12": ("deterministic simulation: seeded histories of flagged values with rounding faults, freshly-built-value oracle",
         "Sampled histories of up to a few dozen operations in f64, f32 and simulated arithmetic; tolerance covers rounding."),
 "C13": ("deterministic simulation: nested calls at seeded instructions, element operations, closures and sink writes",
         "Sampled interruption points and nested operations up to depth 3, fresh-process oracle."),
 "C15": ("deterministic simulation: panics injected at every (or sampled) step of caller code, payload and call-count oracle",
         "Every step is hit in calls of up to 48 steps, sampled in longer ones."),
 "C16": ("deterministic simulation: value and comparison corruption on a painted, measured stack",
         "Sampled corruption sequences and operands; optimised build of the harness."),
 "C17": ("deterministic simulation: seeded floating-point modes and aborts, ambient state compared before, during and after each call",
         "Sampled operands, modes and abort points over every operation; sticky status flags and errno are excluded."),
 "C18": ("deterministic simulation: seeded relative error injected at every arithmetic step, compared with operand perturbation",
         "Sampled operands and error assignments over every covered operation; the effect of operand errors is estimated from six samples."),
 "C19": ("deterministic simulation: seeded calls at simulated thread exit, process exit, unwinding and fork, fresh-process oracle",
         "Sampled operations and operands at eight stages of a thread's and the process's life, in unwinding and in forked children; the fresh-process result is the oracle."),
 "C20": ("deterministic simulation: seeded placement of operands and stack, guard page, stale memory, fresh-process oracle",
         "Sampled placements: offset, end at a guard page, one object or copies, stack shift and stale stack contents; operands passed by value are placed by the compiler."),
 "C21": ("deterministic simulation: the same seeded plan with corrupted arithmetic executed in three builds, outcomes compared",
         "Sampled operands and consistent corruptions over every operation; builds: unoptimised with debug assertions, optimised with them, fully optimised without any checks."),
 "C22": ("deterministic simulation: a bad value injected into a seeded operand component, its spread compared with the definition's dependency sets",
         "Sampled operands, components and nine kinds of bad value over the linear and structural operations listed in the statement."),
 "C23": ("deterministic simulation: wrong or refused conversions injected into the caller's number type, results compared with each other and with the primitive type's",
         "Sampled operands over every generic operation, four kinds of wrong conversion."),
 "C14": ("deterministic simulation: integer traps at seeded element operations, exact-arithmetic reference model",
         "Sampled operands and widths; reference model in 128-bit integers."),
}
R = "a pure function of its operands: no schedule, clock, I/O, shared state or fault for the simulator to decide; only input generation would be left"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = {
 "N12": "a pure predicate of its operands; nothing to schedule or to fail, so the simulator would only generate inputs",
 "N13": "a pure rearrangement of its operand; nothing to schedule or to fail (its in-place counterparts are C08)",
 "N14": "a pure reduction of its operand; nothing to schedule or to fail, so the simulator would only generate inputs",
}
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is the element type, closure or sink the caller supplies, or lies below the library (instructions, system calls, allocator, descriptors)."}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, R)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
