"""exits.py import|exit SEED: prints "good".  Run as a script by C30."""
import atexit, os, random, sys, threading, weakref

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import load, state

rng = random.Random(sys.argv[2])
if sys.argv[1] == "import":
    import importlib
    engine = state.third_party()
    load.install.__globals__["sys"].meta_path.insert(0, load._Finder)      # part of the harness
    sys.path.append("/nonexistent")
    os.environ["PV_MARK"] = "1"
    sys.setrecursionlimit(4321)
    a = state.full()
    mods = ["protosym", "protosym.core", "protosym.core.tree", "protosym.core.sym", "protosym.simplecas", "protosym.simplecas.sympy_conversions",
            "protosym.simplecas.lambdification", "protosym.simplecas.matrix", "protosym.core.differentiate"]
    if rng.random() < .5: rng.shuffle(mods)
    for m in mods:
        importlib.import_module(m)
        d = state.differences(a, state.full())
        d.pop("copyreg", None)
        if d: print(f"importing {m} changes {d}"); sys.exit(0)
    print("good")
    sys.exit(0)

load.install()
import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import SubsFunc

x, y = sc.x, sc.Symbol("y")
deep = x
for _ in range(20000): deep = sc.sin(deep)
e = sc.sin(x) ** 2 + y * 3
kept = [e, deep, e.diff(x), sc.Matrix([[e, 0], [x, y]]), e.as_function(x), SubsFunc(e.rep, [x.rep]), Evaluator(), {e: deep}, e.rep.children]
if rng.random() < .7: kept += [sc.lambdify([x, y], e), sc.lambdify([x], sc.Matrix([[x, 2]]))]
if rng.random() < .4: kept += [e.to_sympy()]
loop = [kept]; loop.append(loop)
bad = []


def use(where):
    """Works on expressions."""
    try:
        t = sc.Symbol(where)
        u = sc.cos(t) + e
        if u is not sc.cos(sc.Symbol(where)) + e: bad.append(where)
        if repr(u) != f"(cos({where}) + (sin(x)**2 + (y*3)))": bad.append((where, repr(u)))
        if u.diff(t).eval_f64({t: 0.0}) != 0.0: bad.append((where, "diff"))
        if u.xreplace({t: y}) is not sc.cos(y) + e: bad.append((where, "subs"))
    except BaseException as ex: bad.append((where, repr(ex)))


class Dies:
    def __init__(self, *what): self.what = what


def last():
    use("atexit")
    print("good" if not bad else bad)
    sys.stdout.flush()


atexit.register(last)                      # runs after those registered later
atexit.register(use, "earlier")
d = Dies(e)
weakref.finalize(d, use, "finalizer")
holder = Dies(e, deep, kept)
t = threading.Thread(target=use, args=("thread",)); t.start()
threading._register_atexit(use, "shutdown") if hasattr(threading, "_register_atexit") else None
use("main")
if rng.random() < .3: raise SystemExit(0)
