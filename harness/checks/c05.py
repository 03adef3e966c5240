"""C05: topological sort, split and forward graph laws."""
from protosym.core.atom import AtomType
from protosym.core.tree import forward_graph, topological_sort, topological_split

from pv import churn
from pv.bridge import Builder, Reader
from pv.core import Violation, check
from pv.gen import Gen, size
from pv.model import Model


class CHECK:
    rule = "structurally different expressions with their exclude sets"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 200, "sorts": 1000, "listed": 5000, "graph_operations": 2000, "excluding_sorts": 300, "compound_heads": 50,
              "nullary": 20, "shared": 100, "wide": 10, "large": 8}

    def __init__(self, ctx):
        self.ctx = ctx

    def expr(self, rng, m):
        g = Gen(m, rng, compound_heads=rng.random() < .5, lookalike=rng.random() < .4, nullary=rng.random() < .5, unary_ac=True,
                ops=None if rng.random() < .7 else {"fun": 1})
        k = rng.random()
        if k < .05: return g.chain(rng.choice([50, 300, 2000]))
        if k < .1: return g.doubling(rng.choice([5, 20, 60]))
        if k > .95:
            self.ctx.obs("wide")
            e = g.wide(1500)
            return e if rng.random() < .5 else m.app(rng.choice(g.funs), g.atom(), e, e)
        if k < .115: self.ctx.obs("large"); return g.large(4000)
        if k < .13: return g.node(g.pool(rng.choice([80, 200])))
        return g.expr()

    def check_sort(self, m, read, real, root, got, heads, exclude, what):
        want = m.post(root, heads=heads, exclude=exclude)
        check(isinstance(got, list), f"{what} returned a {type(got).__name__}")
        nodes = [read(t) for t in got]
        for t, n in zip(got, nodes):
            if t is not real[n]:
                raise Violation(f"{what} lists an object that is not the subexpression itself")
        if sorted(nodes) != sorted(want):
            extra = [m.show(n, 80) for n in nodes if n not in set(want)]
            missing = [m.show(n, 80) for n in want if n not in set(nodes)]
            raise Violation(f"{what}: wrong subexpressions (extra {extra[:3]}, missing {missing[:3]}, "
                            f"listed {len(nodes)} wanted {len(want)})", expr=m.show(root))
        pos = {n: k for k, n in enumerate(nodes)}
        for n in nodes:
            for c in (m.children(n) if heads else m.args(n)):
                if c in pos and pos[c] > pos[n]:
                    raise Violation(f"{what}: {m.show(n, 80)} comes before its child {m.show(c, 80)}", expr=m.show(root))
        if nodes: check(nodes[-1] == root, f"{what} does not end with the expression", expr=m.show(root))
        self.ctx.obs("sorts"); self.ctx.obs("listed", len(nodes))
        return nodes

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C05")
        kinds = {}
        for k in ("Symbol", "Integer", "Function"):
            # own atom types half of the time
            if rng.random() < .5: kinds[k] = AtomType(k, str if k != "Integer" else int)
        root = self.expr(rng, m)
        build, read = Builder(m, rng, kinds, tree=True), Reader(m, kinds)
        e = build(root)
        real = build.memo
        allnodes = m.post(root, heads=True)
        if any(m.args(n) == () and not m.is_atom(n) for n in allnodes): ctx.obs("nullary")
        if any(not m.is_atom(n) and not m.is_atom(m.head(n)) for n in allnodes): ctx.obs("compound_heads")
        if m.edges(root) >= m.size(root): ctx.obs("shared")
        plain = None
        for heads in (False, True):
            got = topological_sort(e, heads=heads) if heads or rng.random() < .5 else topological_sort(e)
            nodes = self.check_sort(m, read, real, root, got, heads, (), f"topological_sort(heads={heads})")
            if not heads: plain = nodes
        for _ in range(3):
            k = rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < .95 else size(rng, 6, max(6, len(allnodes)))
            ex = set(rng.sample(allnodes, min(k, len(allnodes))))
            if rng.random() < .3:
                ex.add(root)
            g = Gen(m, rng)
            out = [g.atom(), g.expr(3)] if rng.random() < .3 else []
            ex |= set(out)
            exr = {build(n) for n in ex}
            keep = set(exr)
            for heads in (False, True):
                got = topological_sort(e, heads=heads, exclude=exr)
                self.check_sort(m, read, build.memo, root, got, heads, ex,
                                f"topological_sort(heads={heads}, exclude={[m.show(n, 60) for n in sorted(ex)][:4]})")
                check(exr == keep, "topological_sort changed the exclude set of the caller")
                ctx.obs("excluding_sorts")
            order = topological_sort(e, exclude=exr)
            self.check_split(m, e, order, topological_split(e, exclude=exr), "topological_split with exclude")
            check(exr == keep, "topological_split changed the exclude set of the caller")
        order = topological_sort(e)
        self.check_split(m, e, order, topological_split(e), "topological_split")
        # forward graph
        gr = forward_graph(e)
        stack = list(gr.atoms)
        check(all(not a.children for a in stack), "forward_graph lists a compound node as an atom", expr=m.show(root))
        check(set(gr.heads) == {t.children[0] for t in order if t.children}, "forward_graph has wrong heads", expr=m.show(root))
        for head, indices in gr.operations:
            for i in indices:
                check(type(i) is int and 0 <= i < len(stack), "forward_graph refers to a later entry", expr=m.show(root))
            stack.append(head(*[stack[i] for i in indices]))
            ctx.obs("graph_operations")
        check(stack and stack[-1] is e, "replaying the forward graph does not give the expression", expr=m.show(root))
        nodes = [read(t) for t in stack]
        check(sorted(nodes) == sorted(plain), "replaying the forward graph does not list every subexpression once", expr=m.show(root))
        ctx.sig(m.show(root, 3000), idx if m.size(root) > 300 else 0)
        ctx.sample({"expr": m.show(root, 150), "subexpressions": len(plain)})

    def check_split(self, m, e, order, split, what):
        atoms, heads, nodes = split
        check(list(atoms) == [t for t in order if not t.children], f"{what}: atoms are not those of the sort in order")
        check(list(nodes) == [t for t in order if t.children], f"{what}: nodes are not those of the sort in order")
        check(set(heads) == {t.children[0] for t in order if t.children}, f"{what}: wrong heads")
