"""Runs operations of a World while some packages cannot be imported.  Run as a script by C29.

usage: optional.py JSON     {"world": seed, "phases": [{"blocked": [packages], "how": "missing"|"broken"|"none", "ops": [[name, variant], ...]}, ...]}
prints a line per operation: [phase, name, variant, outcome, result or text, packages loaded by it, packages asked for]
"""
import json, os, sys, threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
WATCHED = ("sympy", "mpmath", "numpy", "llvmlite")


class Gate:
    """First on sys.meta_path: packages that are blocked cannot be found, or fail while they are imported."""

    def __init__(self): self.blocked, self.how, self.asked = set(), "missing", []

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in WATCHED: self.asked.append(top)
        if top in self.blocked:
            if self.how == "broken": raise ImportError(f"cannot load the shared library of {name}", name=name)
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def loaded(): return sorted({m.partition(".")[0] for m in sys.modules if sys.modules[m] is not None} & set(WATCHED))


def main():
    conf = json.loads(sys.argv[1])
    gate = Gate()
    sys.meta_path.insert(0, gate)
    out = sys.stdout
    def say(*a): out.write(json.dumps(a) + "\n"); out.flush()
    def phase(p):
        for k in [k for k in sys.modules if k in WATCHED and sys.modules[k] is None]: del sys.modules[k]
        gate.blocked, gate.how = set(p["blocked"]), p["how"]
        if p["how"] == "none":
            for k in p["blocked"]: sys.modules[k] = None
            gate.blocked = set()
    phase(conf["phases"][0])
    from pv import load
    load.install()
    from pv.world import Norm, World
    from pv import extremes
    say(-1, "import", 0, "ok", None, loaded(), gate.asked)
    tag = "opt_"
    w, norm = World(conf["world"], tag, size=4), Norm(tag)
    for k, p in enumerate(conf["phases"]):
        phase(p)
        for name, v in p["ops"]:
            before = set(loaded())
            gate.asked = []
            try:
                if name.startswith("x:"):
                    kind, text = "ok", extremes.outcome(name[2:])
                    say(k, name, v, kind, text, sorted(set(loaded()) - before), gate.asked)
                    continue
                r = w.op(name, v)()
                if isinstance(r, ImportError): raise r
                kind, text = "ok", norm(r)
            except ImportError as e: kind, text = "ImportError", str(e)
            except Exception as e: kind, text = type(e).__name__, str(e)[:300]
            say(k, name, v, kind, text, sorted(set(loaded()) - before), gate.asked)


if __name__ == "__main__": main()
