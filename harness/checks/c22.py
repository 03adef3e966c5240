"""C22: bin_expand and transformers against models."""
import protosym.simplecas as sc
from protosym.core.evaluate import Transformer
from protosym.core.tree import Tree

from pv import churn
from pv.bridge import KIND_TYPES, Builder, Reader, same
from pv.core import check
from pv.gen import Gen, size
from pv.model import Model


class CHECK:
    rule = "structurally different expressions and rule sets"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 300, "expansions": 600, "changed_expansions": 150, "transformations": 600, "rule_applications": 1000,
              "untouched": 100, "nullary_sums": 20, "unary_sums": 50, "wide": 20}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C22")
        g = Gen(m, rng, compound_heads=rng.random() < .3, lookalike=rng.random() < .4, nullary=rng.random() < .5, unary_ac=True,
                max_arity=rng.choice([2, 3, 6, 12]))
        k = rng.random()
        if k < .06:
            g2 = g.pool(3)
            root = m.app(m.fun(rng.choice(["Add", "Mul"])), *[rng.choice(g2) for _ in range(size(rng, 10, 2000))])
            if rng.random() < .5: root = m.sin(m.app(m.fun("f"), g.atom(), root))
            ctx.obs("wide")
        elif k < .1: root = g.doubling(rng.choice([6, 40]))
        elif k < .14: root = m.list(*[g.expr(4) for _ in range(rng.randint(0, 4))])
        else: root = g.expr()
        build, read = Builder(m, rng), Reader(m)
        e = build(root)
        for n in m.post(root):
            if m.headname(n) in ("Add", "Mul"):
                if not m.args(n): ctx.obs("nullary_sums")
                if len(m.args(n)) == 1: ctx.obs("unary_sums")
        want = m.bin_expand(root)
        got = e.bin_expand()
        check(type(got) is sc.Expr, "bin_expand does not return an Expr")
        same(m, read, got, want, "bin_expand", expr=m.show(root))
        same(m, read, got.bin_expand(), want, "bin_expand of the expansion", expr=m.show(root))
        same(m, read, sc.bin_expand(e.rep), want, "the bin_expand transformer", expr=m.show(root))
        if want == root: check(got is e, "bin_expand of a binary expression is another object")
        else: ctx.obs("changed_expansions")
        ctx.obs("expansions", 2)
        # transformers
        t = Transformer()
        heads = sorted({m.head(n) for n in m.post(root) if not m.is_atom(n)} | {m.fun("Add"), m.fun("unused")})
        new, applied = {}, [0]
        ops, ats = {}, {}
        for h in rng.sample(heads, rng.choice([0, min(1, len(heads)), min(2, len(heads)), len(heads)])):
            lens = {len(m.args(n)) for n in m.post(root) if not m.is_atom(n) and m.head(n) == h}
            ops[h] = rng.choice(["swap", "rename", "first", "wrap", "const", "same"])
        for kd in ("Integer", "Symbol", "Function"):
            if rng.random() < .25: ats[kd] = rng.choice(["inc", "const", "same"])
        gatom, gop = rng.random() < .1, rng.random() < .1
        F = m.fun("T")
        def act(style, h, args):
            """The rule on model nodes."""
            if style == "swap": return m.app(h, *reversed(args))
            if style == "rename": return m.app(F, *args)
            if style == "first": return args[0] if args else h
            if style == "wrap": return m.app(m.fun("wrap"), m.app(h, *args))
            if style == "const": return m.int(77)
            return m.app(h, *args)
        def atact(style, n):
            if style == "const": return m.sym("c0")
            if style == "inc": return m.atom(m.kind(n), m.value(n) + 1 if m.kind(n) == "Integer" else m.value(n) + "'")
            return n
        rb, rr = Builder(m, None, tree=True), Reader(m)
        def hook(style, h):
            def fn(args):
                applied[0] += 1
                return rb(act(style, h, [rr(x) for x in args]))
            return fn
        for h, style in ops.items():
            lens = {len(m.args(n)) for n in m.post(root) if not m.is_atom(n) and m.head(n) == h}
            fn = hook(style, h)
            if lens == {1} and rng.random() < .5: t.add_op1(build(h).rep, lambda x, fn=fn: fn([x]))
            elif lens == {2} and rng.random() < .5: t.add_op2(build(h).rep, lambda x, y, fn=fn: fn([x, y]))
            else: t.add_opn(build(h).rep, fn)
        for kd, style in ats.items():
            def afn(v, kd=kd, style=style):
                applied[0] += 1
                return rb(atact(style, m.atom(kd, v)))
            t.add_atom(KIND_TYPES[kd].atom_type, afn)
        if gatom: t.add_atom_generic(lambda a: rb(m.app(m.fun("ga"), rr(a))))
        if gop: t.add_op_generic(lambda h, args: rb(m.app(m.fun("gop"), rr(h), *[rr(x) for x in args])))
        val, napp = {}, 0
        for n in m.post(root):
            if m.is_atom(n):
                if m.kind(n) in ats: val[n] = atact(ats[m.kind(n)], n); napp += 1
                else: val[n] = m.app(m.fun("ga"), n) if gatom else n
            else:
                h, args = m.head(n), [val[c] for c in m.args(n)]
                if h in ops: val[n] = act(ops[h], h, args); napp += 1
                else: val[n] = m.app(m.fun("gop"), h, *args) if gop else m.app(h, *args)
        for _ in range(2):
            applied[0] = 0
            got = t(e.rep)
            check(isinstance(got, Tree), "a transformer does not return a Tree")
            same(m, read, got, val[root], "transformer", expr=m.show(root), ops={m.show(h): s for h, s in ops.items()}, atoms=ats)
            check(applied[0] == napp, f"transformer applied its rules {applied[0]} times instead of {napp}", expr=m.show(root))
            if val[root] == root:
                check(got is e.rep, "a transformer returns a different object for an unchanged expression")
                ctx.obs("untouched")
            ctx.obs("transformations")
        ctx.obs("rule_applications", napp)
        ctx.sig(m.show(root, 1500), tuple(sorted(ops.items())), tuple(sorted(ats.items())))
        ctx.sample({"expr": m.show(root, 120), "ops": {m.show(h): s for h, s in ops.items()}, "atoms": ats, "expanded": m.show(want, 120)})
