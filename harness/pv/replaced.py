"""Runs operations of a World and programs in a process with a replacement of the core (or one that cannot be loaded).  Run as a script by C32.

usage: replaced.py JSON     {"how": "present"|"missing"|"unloadable"|"none"|"late", "world": seed, "ops": [[name, variant], ...], "programs": [seeds]}
prints lines: ["names", {name: it is the replacement's}], ["op", name, variant, result], ["program", seed, log], ["objects", [classes of the library's own core that have instances]], ["calls", counts]
"""
import gc, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
NAMES = {"protosym.core.atom": ["AtomType", "Atom"], "protosym.core.tree": ["Tree", "Tr", "ForwardGraph", "SubsFunc", "topological_sort", "topological_split", "forward_graph"],
         "protosym.core.differentiate": ["DiffProperties", "diff_forward"]}


def main():
    conf = json.loads(sys.argv[1])
    how, out = conf["how"], sys.stdout
    def say(*a): out.write(json.dumps(a) + "\n"); out.flush()
    def put(name): sys.path.insert(0, os.path.join(HERE, name))
    if how == "present": put("replacement")
    if how == "unloadable": put("unloadable")
    if how == "none": sys.modules["rust_protosym"] = None
    if how == "missing": assert not any(os.path.exists(os.path.join(p, "rust_protosym.py")) for p in sys.path)
    from pv import load
    load.install()
    # The core's classes first, before the user-facing ones, or the other way round.
    if conf["world"] % 2:
        import protosym.core.tree
        import protosym.core.differentiate
    import protosym.simplecas
    if how == "late":
        put("replacement")
        import rust_protosym
    rp = sys.modules.get("rust_protosym")
    say("names", {f"{m}.{n}": rp is not None and getattr(sys.modules[m], n) is getattr(rp, n) for m, ns in NAMES.items() for n in ns})
    if rp is not None: rp.CALLS.clear()
    from pv.world import Norm, World
    from pv.program import program
    w, norm = World(conf["world"], "repl_", size=4), Norm("repl_")
    for name, v in conf["ops"]:
        try: r = norm(w.op(name, v)())
        except Exception as e: r = f"{type(e).__name__}: {e}"
        say("op", name, v, r)
    for seed in conf["programs"]:
        log = []
        for _ in program(seed, log): pass
        say("program", seed, log)
    own = {n for ns in NAMES.values() for n in ns}
    def core(t): return t.__name__ in own and str(t.__module__).startswith("protosym.")
    say("objects", sorted({f"{type(o).__module__}.{type(o).__name__}" for o in gc.get_objects() if core(type(o))}))
    say("calls", dict(rp.CALLS) if rp is not None else {})


if __name__ == "__main__": main()
