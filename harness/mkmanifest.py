"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ("Runtime monitoring of the real code on generated and hostile workloads: the property held on every execution observed (counts in the evidence file), "
        "not on all. Trusted: CPython, the harness's independent model and its oracles. ")
T = {
 "C01": ("online identity monitor over random and hostile build/drop/collect histories, plus scans of the live heap", "Every object built is compared with a model of all live structures; weakref death during construction is injected."),
 "C02": ("controlled thread scheduler (one preemption at every bytecode, sampled more) plus free-running stress, with identity and heap monitors", "All single-preemption schedules of each small scenario; more preemptions are sampled."),
 "C03": ("leak monitor: weak references and live-object counts before and after every kind of operation", "Counts of live atoms, trees and expressions return to the baseline after dropping everything."),
 "C04": ("online monitor reading back every built expression against an independent model", "Operators, reflected forms, calls, in-place forms and rejected operands."),
 "C05": ("trace checker for topological sorts, splits and replayed forward graphs", "Order, exactly-once and closure are checked on every list the code returned."),
 "C06": ("event-log checker: every rule application is logged and compared with a reference evaluator", "Logged applications must be exactly one per distinct subexpression with the operands in order."),
 "C07": ("history monitor: evaluators against a model of their accepted rules", "After every registration all evaluators alive are probed."),
 "C08": ("differential monitor of substitution against an independent model", "Identity with the model's result, for nested and self-replacing targets, repeated calls."),
 "C09": ("differential monitor of derivatives against jets at 400 bits", "Taylor-mode automatic differentiation on an independent model is the oracle."),
 "C10": ("history monitor of differentiation rules against a model chain rule compared by exact field evaluation", "Randomised identity testing modulo 2^61-1: a wrong derivative escapes with negligible probability."),
 "C11": ("numerical monitor: eval_f64 against 400-bit values with a running forward error bound", "The bound assumes libm sin, cos and pow are accurate to a few ulp."),
 "C12": ("numerical monitor of compiled functions against 400-bit values and eval_f64", "Every compiled function is called at several points; refusals are checked."),
 "C13": ("memory canaries around output arrays plus an entry-by-entry numerical monitor", "numpy's allocators are wrapped during a call so that every output array has guard zones."),
 "C14": ("history monitor in a child process: results recorded and re-checked after compiling, dropping and calling others, from several threads", "A crash of the process is a violation."),
 "C15": ("LLVM verifier plus independent JIT at O0 to O3 of the emitted text, with instruction counting", "The IR is parsed and compiled by llvmlite, separately from the code under test."),
 "C16": ("differential monitor of both conversions against independently built SymPy objects and 50-digit values", "Trusts SymPy's own constructors."),
 "C17": ("independent readers of the printed, LaTeX and tree forms; collision monitor over all printed forms", "Names are restricted to identifiers (LaTeX: letters, digits, one subscript)."),
 "C18": ("history monitor of matrices against dense tables", "All matrices made earlier are re-read after later operations."),
 "C19": ("step counting with sys.monitoring under growing inputs, plus CPU-time scaling", "Counts executed lines and calls of the repository; a superlinear trend or an explosion is a violation."),
 "C20": ("deep-nesting monitor with a low recursion limit and iterative oracles, in child processes", "Depths of thousands to tens of thousands; a crash is a violation."),
 "C21": ("offline comparison of event digests of the same program in processes with different hash seeds, allocation noise and earlier work", "Any difference of a digest is a violation."),
 "C22": ("differential monitor of rewriting against an independent model, with identity of untouched parts", "Field evaluation shows that the value is kept."),
 "C23": ("differential monitor of counts against an independent model", "Counts up to hundreds of digits."),
 "C24": ("controlled thread scheduler over pairs of operations plus free-running stress against sequential results", "All single-preemption schedules of the listed pairs at line granularity; more preemptions are sampled."),
 "C25": ("fault injection at every executed line and rule application, followed by state comparison, repetition and a heap scan", "Enumerates the injection points of each operation up to a cap."),
 "C27": ("injection of operations at executed lines, in rules, hashes, finalisers, weak-reference callbacks and real signal handlers, with identity and heap monitors", "Points of injection are enumerated up to a cap; signals arrive at random times."),
 "C28": ("fork injection: processes forked while other threads are parked at chosen lines, run freely, or in the middle of an operation; results of child and parent monitored", "A child that hangs or crashes is a violation."),
 "C29": ("import monitor in processes where packages are missing, fail to load or appear later; results compared with a process that has them", "A finder on sys.meta_path records and refuses imports."),
 "C30": ("state monitor: snapshots of the interpreter's global state before, in and after operations, operations repeated under unusual states and interpreter modes", "The state that Python can read, and the floating-point environment through libm."),
 "C31": ("history monitor of several user-defined systems with equal names against a model of each", "Each system has its own random rules; derivatives are compared in a finite field."),
 "C32": ("differential monitor of processes with an independent, instrumented replacement of the core, and with ones that cannot be loaded", "The replacement is written for the check from the documented interface; the real extension module is not available."),
 "C26": ("snapshot monitor: everything made earlier is re-read and re-run after every operation and after mutating shared containers", "Snapshots are held in the independent model."),
}
LEVEL = {"C25": "fault_enumeration"}
checks = []
for c in sorted(T):
    if not os.path.exists(os.path.join(HERE, "checks", c.lower() + ".py")): continue
    checks.append({"property": c, "quick_cmd": f"bash check.sh {c} quick", "thorough_cmd": f"bash check.sh {c} thorough", "technique": T[c][0],
                   "level": LEVEL.get(c, "exploration"), "level_note": BASE + T[c][1]})
claimed = {c["property"] for c in checks}
na = [{"property": c, "reason": "its check is not written yet"} for c in sorted(T) if c not in claimed]
d = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation is attached from outside (sys.monitoring, sys.settrace, wrapped allocators, weak references)."}
json.dump(d, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
