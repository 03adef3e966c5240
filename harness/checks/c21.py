"""C21: the same programs in processes with different hash seeds, memory layouts and earlier work."""
import os, subprocess, sys, tempfile

from pv.core import Violation, check

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CHECK:
    rule = "different programs, each run in several processes; a program has some 60 recorded results"
    evaluations = "programs"
    plan = {"quick": {"seconds": 10, "min": 2, "case_cpu": 100}, "thorough": {"seconds": 300, "min": 15, "case_cpu": 100}}
    floors = {"cases": 16, "processes": 64, "programs": 480, "results_compared": 30000}

    def __init__(self, ctx):
        self.ctx = ctx

    def start(self, seed, count, noise, hashseed, **more):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", **more)
        err = tempfile.TemporaryFile()
        out = tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "pv", "program.py"), str(seed), str(count), str(noise)], env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=err)
        return p, out, err

    def case(self, rng, idx):
        ctx = self.ctx
        seed, count = rng.randrange(10**6), 30
        kinds = [("plain", 0, 0, {}), ("other hash seed", 0, rng.randrange(1, 2**32), {}), ("earlier work", rng.randrange(3, 10**6), rng.randrange(1, 2**32), {}),
                 ("earlier work, no collector, plain malloc", 2, rng.randrange(1, 2**32), {"PYTHONMALLOC": "malloc"})]
        runs = {}
        procs = [(k, self.start(seed, count, k[1], k[2], **k[3])) for k in kinds]
        for k, (p, out, err) in procs:
            try: p.wait(timeout=300)
            except subprocess.TimeoutExpired:
                for _, (q, _o, _e) in procs: q.kill()
                raise RuntimeError("program.py took too long") from None
            out.seek(0); err.seek(0)
            text, tail = out.read().decode(), err.read()[-1500:].decode("utf8", "replace")
            if p.returncode:
                for _, (q, _o, _e) in procs: q.kill()
                if "/protosym/" in tail.split("Traceback")[-1]: raise Violation(f"the program fails in the process with {k[0]}", stderr=tail, seed=seed)
                raise RuntimeError(f"program.py ended with {p.returncode}: {tail}")
            runs[k[0]] = {int(l.split()[0]): l.split()[1:] for l in text.splitlines()}
            ctx.obs("processes")
        want = runs["plain"]
        check(len(want) == count, "a program is missing")
        for name, got in runs.items():
            check(got.keys() == want.keys(), f"the process with {name} has other programs")
            for i in want:
                if got[i] != want[i]:
                    bad = [a for a, b in zip(got[i], want[i]) if a != b]
                    raise Violation(f"program {i} gives other results in the process with {name}", results=[b.rsplit("=", 1)[0] for b in bad][:8], seed=seed, kinds=kinds)
                ctx.obs("results_compared", len(got[i]))
        ctx.obs("programs", count)
        for i in want: ctx.sig(tuple(want[i]))
        ctx.sample({"seed": seed, "program 0": want[0][:4], "processes": [k[0] for k in kinds]})
