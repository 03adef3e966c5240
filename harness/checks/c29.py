"""C29: processes in which SymPy, NumPy or llvmlite cannot be imported, at first or throughout."""
import json, os, subprocess, sys, tempfile

from pv import extremes
from pv.core import Violation, check, short
from pv.world import OPS, Norm, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMPY, NUMPY, LLVM = "sympy", "numpy", "llvmlite"


PLAIN = [k for k, (fn, flags) in extremes.ITEMS.items() if not flags]      # refused, failing and large operations


def needs(name, v):
    """The packages that an operation of the World (and the things it works on) may import."""
    if name.startswith("x:"): return set()
    if "sympy" in name: return {SYMPY}
    if name == "compile": return {LLVM} if v < 2 else {LLVM, NUMPY}
    if name.startswith("compiled"): return {LLVM, NUMPY}     # the World compiles expressions and matrices together
    return set()


class CHECK:
    rule = "different (packages missing, how they are missing, operation, variant) tuples"
    evaluations = "operations"
    plan = {"quick": {"seconds": 10, "min": 2, "case_cpu": 100}, "thorough": {"seconds": 300, "min": 15, "case_cpu": 100}}
    floors = {"cases": 16, "processes": 16, "operations": 5000, "without_any": 1500, "refused": 300, "after_refusal": 200, "with_packages": 100, "imports_watched": 5000, "refused_and_large": 800}
    assumptions = ["a package is missing when the import system cannot find it, finds None in sys.modules or gets an ImportError from it"]

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        blocked = {SYMPY, NUMPY, LLVM} if idx % 2 else set(rng.sample([SYMPY, NUMPY, LLVM], rng.choice([1, 2])))
        every = [(n, v) for n in OPS for v in range(4)]
        plain = [p for p in every if not needs(*p)]
        extra = [p for p in every if needs(*p)]
        phases = []
        left = sorted(blocked)
        rng.shuffle(left)
        while True:
            now = set(left)
            ops = rng.sample(plain, 45) if phases else list(plain)
            ops += [p for p in extra if needs(*p) & now] * 2
            ops += [("x:" + k, 0) for k in rng.sample(PLAIN, 60)]
            if not (now and idx % 3): ops += [p for p in extra if not needs(*p) & now]
            rng.shuffle(ops)
            if not phases and rng.random() < .5: ops.sort(key=lambda p: bool(needs(*p)))
            phases.append({"blocked": sorted(now), "how": rng.choice(["missing", "missing", "broken", "none"]), "ops": ops})
            if not left: break
            left.pop()
        err, out = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "pv", "optional.py"), json.dumps({"world": seed, "phases": phases})],
                             env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, stdin=subprocess.DEVNULL, stdout=out, stderr=err)
        try: p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            raise RuntimeError("optional.py took too long") from None
        out.seek(0); err.seek(0)
        tail = err.read()[-2500:].decode("utf8", "replace")
        if p.returncode:
            if "/protosym/" in tail.split("Traceback")[-1] or p.returncode < 0:
                raise Violation(f"a process without {sorted(blocked)} fails", stderr=tail, phases=phases)
            raise RuntimeError(f"optional.py ended with {p.returncode}: {tail}")
        lines = [json.loads(l) for l in out.read().decode().splitlines()]
        ctx.obs("processes")
        check(not lines[0][5], f"importing the package imports {lines[0][5]}")
        w, norm = World(seed, "opt_", size=4), Norm("opt_")
        refs, refused = {}, set()
        for k, name, v, kind, got, new, asked in lines[1:]:
            ph = phases[k]
            how = f"'{name}' ({v}) without {ph['blocked']} ({ph['how']})" if ph["blocked"] else f"'{name}' ({v})"
            need = needs(name, v)
            allowed = need | ({"mpmath"} if SYMPY in need else set()) | ({NUMPY} if SYMPY in need else set())
            check(set(new) <= allowed, f"{how} loads {sorted(set(new) - allowed)}, which it does not need")
            check(set(asked) <= allowed, f"{how} tries to import {sorted(set(asked) - allowed)}, which it does not need")
            ctx.obs("operations"); ctx.obs("imports_watched"); ctx.sig(tuple(ph["blocked"]), ph["how"], name, v)
            if need & set(ph["blocked"]):
                check(kind == "ImportError", f"{how}: {kind} {short(got)} instead of an ImportError")
                ctx.obs("refused"); refused.add((name, v))
                continue
            if (name, v) not in refs: refs[name, v] = json.dumps(extremes.outcome(name[2:]) if name.startswith("x:") else norm(w.op(name, v)()))
            if name.startswith("x:"): ctx.obs("refused_and_large")
            check(kind == "ok" and json.dumps(got) == refs[name, v], f"{how}: {kind} {short(got)} instead of {short(refs[name, v])}",
                  earlier=lambda: [l[:4] for l in lines[:lines.index([k, name, v, kind, got, new, asked])]][-12:])
            if len(ph["blocked"]) == 3: ctx.obs("without_any")
            if (name, v) in refused: ctx.obs("after_refusal")
            if need: ctx.obs("with_packages")
        check(len(lines) == 1 + sum(len(ph["ops"]) for ph in phases), "the process ended early")
        ctx.sample({"phases": [(ph["blocked"], ph["how"], len(ph["ops"])) for ph in phases]})
