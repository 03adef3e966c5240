"""C32: processes with an installed rust_protosym: one that works, written for this check, or one that cannot be loaded."""
import json, os, subprocess, sys, tempfile

from pv.core import Violation, check, short
from pv.program import program
from pv.world import DEEP, OPS, Norm, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CALLED = ["Atom", "Tr", "Tree", "SubsFunc", "SubsFunc call"]        # whatever the library does, it cannot do without these


class CHECK:
    rule = "different (state of rust_protosym, operation or program) tuples"
    evaluations = "results"
    plan = {"quick": {"seconds": 9, "min": 2, "case_cpu": 100}, "thorough": {"seconds": 300, "min": 15, "case_cpu": 100}}
    floors = {"cases": 24, "processes": 24, "present": 10, "fallback": 10, "results": 4000, "programs": 150, "program_results": 8000, "deep": 150, "calls_of_the_replacement": 100000}
    assumptions = ["the replacement offers what the library's own core documents; it stands for the extension module, which is not available here"]

    def __init__(self, ctx): self.ctx = ctx

    def case(self, rng, idx):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        how = "present" if idx % 2 == 0 else rng.choice(["unloadable", "none", "missing", "late"])
        ops = [(n, v) for n in OPS for v in range(4) if not (idx % 4 and OPS[n].slow and v != idx % 3)]
        ops += [(n, rng.randrange(4)) for n in DEEP]
        rng.shuffle(ops)
        seeds = [rng.randrange(10 ** 8) for _ in range(8)]
        err, out = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "pv", "replaced.py"), json.dumps({"how": how, "world": seed, "ops": ops, "programs": seeds})],
                             env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, stdin=subprocess.DEVNULL, stdout=out, stderr=err)
        try: p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            raise RuntimeError("replaced.py took too long") from None
        out.seek(0); err.seek(0)
        tail = err.read()[-2500:].decode("utf8", "replace")
        state = f"rust_protosym: {how}"
        if p.returncode:
            if "/protosym/" in tail.split("Traceback")[-1] or p.returncode < 0: raise Violation(f"{state}: a process fails", stderr=tail, world=seed)
            raise RuntimeError(f"replaced.py ended with {p.returncode}: {tail}")
        lines = [json.loads(l) for l in out.read().decode().splitlines()]
        ctx.obs("processes"); ctx.obs("present" if how == "present" else "fallback")
        w, norm = World(seed, "repl_", size=4), Norm("repl_")
        for kind, *a in lines:
            if kind == "names":
                for n, taken in a[0].items():
                    check(taken == (how == "present"), f"{state}: {n} is {'' if taken else 'not '}the replacement's")
            elif kind == "op":
                want, got = json.dumps(norm(w.op(a[0], a[1])())), json.dumps(a[2])
                check(got == want, lambda: f"{state}: '{a[0]}' ({a[1]}) gives another result than the library's own core", world=seed, got=short(got), want=short(want))
                ctx.obs("results"); ctx.sig(how, a[0], a[1], seed)
                if a[0] in DEEP: ctx.obs("deep")
            elif kind == "program":
                log = []
                for _ in program(a[0], log): pass
                log = [list(l) for l in log]
                bad = [l for l, k in zip(a[1], log) if l != k]
                check(not bad and len(log) == len(a[1]), lambda: f"{state}: a program gives another result for '{bad[0][0] if bad else None}' than with the library's own core", program=a[0], results=bad[:6])
                ctx.obs("programs"); ctx.obs("program_results", len(log)); ctx.sig(how, a[0])
            elif kind == "objects":
                if how == "present": check(not a[0], f"{state}: there are objects of the library's own core: {a[0]}", world=seed)
            elif kind == "calls":
                if how == "present":
                    check(all(a[0].get(n) for n in CALLED), f"{state}: it is not used for {[n for n in CALLED if not a[0].get(n)]}")
                    ctx.obs("calls_of_the_replacement", sum(a[0].values()))
                else: check(not a[0], f"{state}: it is used all the same: {a[0]}")
        check(lines[-1][0] == "calls" and len(lines) == 3 + len(ops) + len(seeds), "the process ended early")
        ctx.sample({"rust_protosym": how, "calls": lines[-1][1], "operations": len(ops)})
