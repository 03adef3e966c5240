"""C13: compiled matrices, entry by entry, with canaries around the output."""
import ctypes, math

import numpy as np
import protosym.simplecas as sc

from pv import cgen, churn, jit, lookalike, mats, num
from pv.bridge import Builder, Reader
from pv.core import Violation, check, short
from pv.model import Model

CANARY = np.float64(-123.4567891)
_orig = {k: getattr(np, k) for k in ("zeros", "empty", "ones", "full")}


class Guard:
    """Makes numpy's allocators hand out arrays with canaries around them."""

    def __init__(self):
        self.bufs = []

    def alloc(self, shape, dtype, fill):
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        pad = 64
        buf = _orig["full"](n + 2 * pad, CANARY)
        view = buf[pad:pad + n].reshape(shape)
        view[...] = fill
        self.bufs.append((buf, pad, n))
        return view

    def __enter__(self):
        f8 = lambda d: np.dtype(d) == np.float64
        def zeros(shape, dtype=float, *a, **k): return self.alloc(shape, dtype, 0.0) if f8(dtype) and not a and not k else _orig["zeros"](shape, dtype, *a, **k)
        def empty(shape, dtype=float, *a, **k): return self.alloc(shape, dtype, math.nan) if f8(dtype) and not a and not k else _orig["empty"](shape, dtype, *a, **k)
        np.zeros, np.empty = zeros, empty
        return self

    def __exit__(self, *a):
        for k, f in _orig.items(): setattr(np, k, f)

    def verify(self):
        for buf, pad, n in self.bufs:
            if not ((buf[:pad] == CANARY).all() and (buf[pad + n:] == CANARY).all()):
                raise Violation("a compiled matrix function wrote outside its output array",
                                where=[int(i) - pad for i in np.nonzero(buf != CANARY)[0] if not pad <= i < pad + n][:8], size=n)


class CHECK:
    rule = "structurally different compiled matrices"
    plan = {"quick": {"seconds": 9, "min": 20}, "thorough": {"seconds": 300, "min": 150, "cases": 16000}}
    floors = {"made_and_dropped": 60, "cases": 120, "compiled": 150, "entries_checked": 2000, "zero_entries_checked": 400, "guarded_calls": 300, "raw_calls": 300,
              "earlier_arrays_checked": 400, "refused": 60, "made_by_operations": 50, "very_far_powers": 15}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C13", 4)
        g = cgen.gen(m, rng)
        shp = mats.shape(rng, big=rng.random() < .2)
        nodes = mats.dense_nodes(m, rng, g, shp, rng.choice([0, .2, .5, .8, 1]), rng.choice([1, 3, 8]))
        fixed = {}
        if shp[1] and rng.random() < .12:
            base = rng.choice(g.syms)
            nodes[rng.randrange(shp[0])][rng.randrange(shp[1])], v = num.far_power(m, rng, base); fixed = {base: v}
            ctx.obs("very_far_powers")
        build, read = Builder(m, rng), Reader(m)
        M = mats.construct(m, rng, build, nodes)
        how = rng.choice(["list", "list", "add", "diff", "binop", "sympy", "addadd"])
        if how in ("add", "addadd"):
            for _ in range(1 if how == "add" else 2):
                other = mats.dense_nodes(m, rng, g, shp, rng.choice([.3, .7]), 2)
                O = mats.construct(m, rng, build, other)
                M = M + O if rng.random() < .5 else O + M
        elif how == "binop":
            M = M.binop(mats.construct(m, rng, build, mats.dense_nodes(m, rng, g, shp, .6, 2)), sc.Mul)
        elif how == "diff" and shp[0] * shp[1] < 40:
            try: M = M.diff(build(g.syms[0]))
            except Exception: M = mats.construct(m, rng, build, nodes)
        elif how == "sympy":
            nodes = mats.dense_nodes(m, rng, g, shp, .5, 0)
            M = sc.Matrix.from_sympy(mats.construct(m, rng, build, nodes).to_sympy())
        if how != "list": ctx.obs("made_by_operations")
        dense = [[read(x) for x in row] for row in M.tolist()]
        check(M.shape == shp, "the matrix has another shape")
        roots = [n for row in dense for n in row]
        args = cgen.arguments(m, rng, roots)
        arglist = [build(a) for a in args]
        f = sc.lambdify(list(arglist), M)
        ctx.obs("compiled")
        ir = M.to_llvm_ir(list(arglist))
        mod = jit.parse(ir)
        defs = jit.definitions(mod)
        check(len(defs) == 1, f"the module defines {len(defs)} functions")
        raw = jit.matrix(ir, len(args), 0, defs[0].name)
        keep = []
        for call in range(4):
            env = num.points(rng, args, positive=rng.random() < .7)
            if rng.random() < .8: env.update({s: v for s, v in fixed.items() if s in env})
            vals = [env[a] for a in args]
            refs = {}
            for n in set(roots):
                try: refs[n], = cgen.reference(m, [n], env)
                except (num.Undefined, num.Unsure): ctx.obs("not_judged")
            if call % 2 == 0:
                with Guard() as guard: out = f(*vals)
                guard.verify()
                ctx.obs("guarded_calls")
            else: out = f(*vals)
            self.judge(m, out, shp, dense, refs, env, "compiled matrix")
            # the IR itself, writing into a guarded buffer that starts as zeros
            pad, n = 32, shp[0] * shp[1]
            buf = _orig["full"](n + 2 * pad, CANARY); buf[pad:pad + n] = 0
            raw(ctypes.cast(buf.ctypes.data + 8 * pad, ctypes.POINTER(ctypes.c_double)), *vals)
            check((buf[:pad] == CANARY).all() and (buf[pad + n:] == CANARY).all(), "the IR writes outside the output array", expr=short(M))
            self.judge(m, buf[pad:pad + n].reshape(shp), shp, dense, refs, env, "IR of the matrix")
            ctx.obs("raw_calls")
            for arr, copy in keep:
                check(not np.shares_memory(arr, out), "two calls return arrays sharing memory")
                check(np.array_equal(arr, copy, equal_nan=True), "an array returned earlier was changed by a later call")
                ctx.obs("earlier_arrays_checked")
            keep.append((out, np.array(out, copy=True)))
            if rng.random() < .5:   # the caller may write into what he got
                out[...] = 99.0
                keep[-1] = (out, np.array(out, copy=True))
        check(M.tolist() == [[build(n) for n in row] for row in dense], "the matrix changed by being compiled")
        ctx.sig(how, shp, tuple(m.show(n, 200) for n in roots))
        ctx.sample({"shape": shp, "made by": how, "entries": [m.show(n, 40) for n in roots][:5]})
        # refusals
        i, j = rng.randrange(shp[0]), rng.randrange(shp[1])
        rows = M.tolist()
        o = rows[i][j]
        rows[i][j] = rng.choice([o + sc.Symbol("not_an_argument"), sc.f(1), sc.Function("f"), sc.a, sc.Mul(0, sc.Symbol("not_an_argument")), sc.List(o), sc.List(o, 1),
                                 sc.List(), sc.sin(sc.List(o)), sc.List(sc.List(o)), sc.List, sc.List(*[x for row in rows for x in row]), M.elements_graph, sc.Symbol("List"), *[lookalike.call(rng, [o, *arglist]) for _ in range(6)], lookalike.number(rng), o + lookalike.number(rng)])
        bad = sc.Matrix(rows if rng.random() < .8 else [[rows[i][j]] * 2])
        for what, fn in (("compiled", lambda: sc.lambdify(arglist, bad)), ("turned into IR", lambda: bad.to_llvm_ir(arglist))):
            try: fn()
            except Exception: ctx.obs("refused")
            else: raise Violation(f"a matrix with an unsupported entry was {what}", entry=short(rows[i][j]))

    def judge(self, m, out, shp, dense, refs, env, what):
        check(isinstance(out, np.ndarray) and out.dtype == np.float64 and out.shape == shp,
              lambda: f"{what}: result is {type(out).__name__} of shape {getattr(out, 'shape', None)}, wanted {shp}")
        for i, row in enumerate(dense):
            for j, n in enumerate(row):
                if n not in refs: continue
                cgen.judge(m, float(out[i, j]), refs[n], n, env, f"{what}: entry ({i}, {j})")
                self.ctx.obs("entries_checked")
                if refs[n][0] == 0: self.ctx.obs("zero_entries_checked")
