"""C23: operation counts against an exact independent count."""
import protosym.simplecas as sc

from pv import churn
from pv.bridge import Builder
from pv.core import check
from pv.gen import Gen, size
from pv.model import Model


class CHECK:
    rule = "structurally different counted expressions"
    plan = {"quick": {"seconds": 6, "min": 30}, "thorough": {"seconds": 180, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 200, "shared": 80, "beyond_double": 10, "beyond_64bit": 10, "wide_beyond_double": 20, "nullary_or_compound_head": 30}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C23")
        g = Gen(m, rng, compound_heads=rng.random() < .4, lookalike=rng.random() < .4, nullary=rng.random() < .4, unary_ac=True)
        k = rng.random()
        if k < .25:
            root = g.doubling(rng.choice([3, 20, 50, 60, 64, 70, 130, 600]))
            if rng.random() < .6:
                some = [root, g.atom(), *rng.sample(m.post(root), min(m.size(root), 5))]
                for _ in range(rng.choice([1, 3])):
                    root = m.app(m.fun(rng.choice(["Add", "Mul", "List", "f"])), *[rng.choice(some) for _ in range(size(rng, 1, 300))])
                    some.append(root)
                    if m.size(root) < 200 and rng.random() < .5: root = m.sin(root)
        elif k < .35: root = g.chain(rng.choice([10, 200, 1500]))
        elif k < .4: root = m.list(*g.pool(rng.choice([20, 150])))
        elif k < .45: root = m.app(m.fun(rng.choice(["Add", "Mul", "f"])), *[g.atom() for _ in range(size(rng, 1, 3000))])
        else: root = g.expr()
        b = Builder(m, rng)
        e = b(root)
        # counting the parts first, last or not at all must not matter
        nodes = m.post(root)
        some = rng.sample(nodes, min(len(nodes), rng.choice([0, 0, 2, 5])))
        for n in [*some, root, *reversed(some), root]:
            G, T = b(n).count_ops_graph(), b(n).count_ops_tree()
            check(type(G) is int and type(T) is int, f"counts are {type(G).__name__} and {type(T).__name__}, not int", expr=m.show(n))
            check(G == m.size(n), f"graph count {G} instead of {m.size(n)}", expr=m.show(n))
            check(T == m.tree_count(n), f"tree count {T} instead of {m.tree_count(n)}", expr=m.show(n))
            if T > G: ctx.obs("shared")
            if T > 2**53: ctx.obs("beyond_double"); len(m.args(n)) > 10 and ctx.obs("wide_beyond_double")
            if T > 2**64: ctx.obs("beyond_64bit")
            ctx.obs("counts", 2)
        if any(not m.is_atom(n) and (not m.args(n) or not m.is_atom(m.head(n))) for n in nodes): ctx.obs("nullary_or_compound_head")
        ctx.sig(m.show(root, 2000), len(nodes))
        ctx.sample({"expr": m.show(root, 120), "graph": m.size(root), "tree": str(m.tree_count(root))[:60]})
