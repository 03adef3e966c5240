"""C14: histories of compiling, calling, dropping and collecting compiled functions."""
import gc, struct, threading, weakref

import numpy as np
import protosym.simplecas as sc

from pv import cgen, mats, num
from pv.bridge import Builder
from pv.core import Violation, check
from pv.model import Model


def bits(r):
    return r.tobytes() if isinstance(r, np.ndarray) else struct.pack("<d", r)


class CHECK:
    rule = "different functions compiled in the histories"
    plan = {"quick": {"seconds": 11, "min": 5, "cases": 1600}, "thorough": {"seconds": 300, "min": 20, "cases": 9000}}
    floors = {"cases": 30, "compiled": 600, "calls": 6000, "dropped": 300, "collections": 100, "thread_calls": 1000, "thread_compilations": 20,
              "failed_compilations": 30, "calls_after_expression_died": 300, "max_live_functions": 20, "many_compiled": 2000}
    evaluations = "calls"

    def __init__(self, ctx):
        self.ctx = ctx
        self.veterans = []      # functions kept for the whole run
        self.many = []          # simple functions made in the worker's first case, likewise

    def compile(self, m, rng, tag):
        """A function that nothing else shares, its arguments and the bits of its results."""
        g = cgen.gen(m, rng, names=["x", "y", "z"], ints=[rng.randrange(2, 50), rng.randrange(2, 50), -1, 2])
        build = Builder(m, rng)
        if rng.random() < .3:
            shp = mats.shape(rng)
            nodes = mats.dense_nodes(m, rng, g, shp, .6, 3)
            obj = mats.construct(m, rng, build, nodes)
            roots = [n for r in nodes for n in r]
        else:
            root = g.expr(rng.choice([1, 3, 8])); obj = build(root); roots = [root]
        args = cgen.arguments(m, rng, roots, extra=0)
        arglist = [build(a) for a in args]
        f = sc.lambdify(arglist, obj)
        w = weakref.ref(obj.elements_graph if isinstance(obj, sc.Matrix) else obj)
        pts = []
        for _ in range(3):
            env = num.points(rng, args, positive=True)
            vals = [env[a] for a in args]
            r = f(*vals)
            pts.append((vals, bits(r)))
            if not isinstance(obj, sc.Matrix):
                try:
                    ref, = cgen.reference(m, roots, env)
                    cgen.judge(m, r, ref, roots[0], env, "compiled function, first call")
                except (num.Unsure, num.Undefined): pass
            else:
                for k, n in enumerate(roots):
                    try:
                        ref, = cgen.reference(m, [n], env)
                        cgen.judge(m, float(r.flat[k]), ref, n, env, "compiled matrix, first call")
                    except (num.Unsure, num.Undefined): pass
        self.ctx.obs("compiled")
        self.ctx.sig(tuple(m.show(r, 100) for r in roots))
        return [f, pts, m.show(roots[0], 80), w]

    def call(self, rec, rng, what, obs=True):
        f, pts, text, w = rec
        for vals, want in pts if rng is None else [rng.choice(pts)]:
            got = bits(f(*vals))
            if got != want:
                raise Violation(f"a compiled function returned something else than before ({what})", expr=text, values=vals,
                                got=np.frombuffer(got)[:6], want=np.frombuffer(want)[:6])
            if obs: self.ctx.obs("calls")
        if obs and w() is None: self.ctx.obs("calls_after_expression_died")

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if not self.many: self.lots(rng)
        live = [self.compile(m, rng, 0) for _ in range(rng.choice([1, 3, 8]))]
        n = rng.choice([20, 60])
        for step in range(n):
            r = rng.random()
            if r < .25: live.append(self.compile(m, rng, step))
            elif r < .45 and len(live) > 1:
                for _ in range(rng.choice([1, 1, 3])):
                    if len(live) > 1: live.pop(rng.randrange(len(live))); ctx.obs("dropped")
                if rng.random() < .5: gc.collect(); ctx.obs("collections")
            elif r < .5:
                x = sc.Symbol("x")
                for bad in (lambda: sc.lambdify([], x), lambda: sc.lambdify([x], sc.f(x)), lambda: sc.lambdify([x], 1)):
                    try: bad()
                    except Exception: ctx.obs("failed_compilations")
            elif r < .58: self.threads(rng, m, live)
            elif r < .62 and live:
                f, pts, text, w = rng.choice(live)      # wrong number of arguments must not do damage
                try: f()
                except Exception: pass
            else: self.call(rng.choice(live), rng, "later in the history")
            ctx.counts["max_live_functions"] = max(ctx.counts.get("max_live_functions", 0), len(live) + len(self.veterans))
        for rec in live + self.veterans: self.call(rec, None, "at the end of the history")
        self.simple(rng.sample(self.many, 40), "at the end of the history")
        if len(self.veterans) < 30: self.veterans.append(rng.choice(live))
        ctx.sample({"live functions": len(live), "steps": n, "example": live[0][2]})

    def lots(self, rng):
        """Hundreds of simple functions, of which many are dropped again, and their values."""
        ctx, x = self.ctx, sc.Symbol("x")
        early = [self.compile(Model(), rng, 0) for _ in range(12)]
        n = 600 if ctx.tier == "quick" else 1500
        for k in range(n):
            e = rng.choice([x * k, x + k, k + x * x, sc.sin(x) * k, sc.Matrix([[x * k, k]])])
            f = sc.lambdify([x], e)
            self.many.append((f, bits(f(1.5)), repr(e)))
            if rng.random() < .3: self.many.pop(rng.randrange(len(self.many)))
            if k % 100 == 99:
                gc.collect()
                for rec in early: self.call(rec, None, f"after {k + 1} compilations")
                self.simple(self.many, f"after {k + 1} compilations")
        ctx.obs("many_compiled", n)
        self.veterans += early[:4]

    def simple(self, recs, what):
        for f, want, text in recs:
            got = bits(f(1.5))
            if got != want: raise Violation(f"a compiled function returned something else than before ({what})", expr=text, got=np.frombuffer(got), want=np.frombuffer(want))
            self.ctx.obs("calls")

    def threads(self, rng, m, live):
        errs, recs = [], rng.sample(live, min(len(live), 4)) + rng.sample(self.veterans, min(2, len(self.veterans)))
        made = []
        seeds = [rng.random() for _ in range(4)]
        def work(k):
            import random
            r = random.Random(seeds[k])
            try:
                if k == 0 and r.random() < .5: made.append(self.compile(Model(), r, "thread"))
                for _ in range(10): self.call(r.choice(recs), r, "from another thread", obs=False)
            except BaseException as e: errs.append(e)
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
        self.ctx.obs("thread_calls", 40); self.ctx.obs("calls", 40)
        self.ctx.obs("thread_compilations", len(made))
        live += made
