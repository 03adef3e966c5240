"""C10: user differentiation rules against an independent chain rule, compared by exact field evaluation."""
import protosym.simplecas as sc
from protosym.core.sym import SymDifferentiator

from pv import churn, field
from pv.bridge import Builder, Reader
from pv.core import Violation, check, expect_raises, short
from pv.gen import size
from pv.model import Model


class Missing(Exception):
    pass


def mdiff(m, root, var, rules, distributive, add, mul):
    """Derivative in the model; rules: (head, n) -> (pattern nodes, right-hand side)."""
    D = {}
    Z, O = m.int(0), m.int(1)
    Add, Mul = m.fun(add), m.fun(mul)
    for n in m.post(root):
        if m.is_atom(n):
            D[n] = O if n == var else Z
            continue
        h, args = m.head(n), m.args(n)
        ds = [D[c] for c in args]
        if h in distributive: D[n] = m.app(h, *ds); continue
        terms = []
        for k, d in enumerate(ds):
            if d == Z: continue
            if h == Add: terms.append(d)
            elif h == Mul: terms.append(m.app(Mul, *args[:k], d, *args[k + 1:]))
            elif (h, k) in rules:
                pat, rhs = rules[h, k]
                t = m.subst(rhs, dict(zip(pat, args)))
                terms.append(t if d == O else m.app(Mul, t, d))
            else: raise Missing(m.show(n, 100))
        D[n] = Z if not terms else terms[0] if len(terms) == 1 else m.app(Add, *terms)
    return D[root]


class Other(sc.Expr):
    """A second class of expressions over the same trees."""


class CHECK:
    rule = "different (rule history, expression, variable, order) combinations"
    evaluations = "derivatives"
    plan = {"quick": {"seconds": 8, "min": 20}, "thorough": {"seconds": 300, "min": 150}}
    floors = {"made_and_dropped": 60, "cases": 150, "registrations": 600, "overrides": 60, "derivatives": 1500, "missing_rules": 150, "malformed": 300, "distributive": 150,
              "higher_orders": 200, "per_argument_rules": 300, "global_rules": 100, "immediate": 100, "switches_of_differentiator": 100,
              "late_distributive": 30, "heads_alike": 1000, "many_argument_rules": 200, "nullary": 100}

    def __init__(self, ctx):
        self.ctx = ctx
        self.uid = 0
        self.shared = {}    # rules on the predefined differentiator, kept for the whole run

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C10")
        glob = rng.random() < .4
        self.uid += 1
        tag = f"_{idx}_{self.uid}" if glob else ""
        add, mul = ("Add", "Mul") if glob or rng.random() < .7 else ("plus", "times")
        F = {}
        for n in rng.sample(["u", "v", "w", "s", "t"], rng.choice([1, 2, 4])): F[n + tag] = rng.choice([1, 1, 2, 2, 3, 5]) if rng.random() < .97 else size(rng, 6, 60)
        if not glob and rng.random() < .5: F["sin"] = 1; F["pow"] = 2
        dnames = [n + tag for n in rng.sample(["L", "M"], rng.choice([0, 1, 2]))]
        build, read = Builder(m, rng), Reader(m)
        if glob: D = sc.diff
        else: D = SymDifferentiator(sc.Expr, add=sc.Function(add), mul=sc.Function(mul), zero=sc.zero, one=sc.one)
        second = SymDifferentiator(sc.Expr, add=sc.Function(add), mul=sc.Function(mul), zero=sc.zero, one=sc.one)
        # a second differentiator lives through the same history with rules of its own for the same functions
        rules, distributive = {}, set()
        if glob: distributive.add(m.fun("List")); ctx.obs("global_rules")
        one, two = (D, rules, distributive), (second, {}, set())
        if rng.random() < .3: one, two = two, one
        D, rules, distributive = one
        wilds = [m.atom("Wild", w) for w in [*"abcdefg", *(f"w{k}" for k in range(max(F.values())))]]
        hist = []

        def rhs(pat, depth=3):
            pool = list(pat) + [m.int(rng.choice([2, 3, -1, 5])), m.sym("y")]
            for _ in range(rng.randint(1, depth)):
                k = rng.random()
                if k < .35: e = m.app(m.fun(rng.choice([add, mul])), rng.choice(pool), rng.choice(pool))
                else:
                    f = rng.choice(sorted(F) + ["k" + tag])
                    e = m.app(m.fun(f), *[rng.choice(pool) for _ in range(F.get(f, 1))])
                pool.append(e)
            return pool[-1] if rng.random() < .85 else rng.choice(pool[:-1])

        def register(f=None, k=None):
            f = f or rng.choice(sorted(F)); h = m.fun(f); n = F[f]
            if k is None and n > 5 and rng.random() < .5:      # every argument of a function of many
                for k in rng.sample(range(n), n): register(f, k)
                return h
            if k is None: k = rng.randrange(n)
            if n > 5: ctx.obs("many_argument_rules")
            pat = rng.sample(wilds, n)
            if rng.random() < .15: pat[rng.randrange(n)] = m.sym("x")       # any expression can be the pattern variable
            r = rhs(pat)
            D[build(m.app(h, *pat)), build(pat[k])] = build(r)
            if (h, k) in rules: ctx.obs("overrides")
            rules[h, k] = (pat, r)
            if n > 1: ctx.obs("per_argument_rules")
            hist.append(f"d {m.show(m.app(h, *pat))} / d #{k} = {m.show(r, 80)}")
            ctx.obs("registrations")
            return h

        def malformed():
            f = rng.choice(sorted(F) + ["new" + tag]); n = F.get(f, 2); H = sc.Function(f)
            W = [build(w) for w in rng.sample(wilds, max(n, 2) + 1)]
            inside, outside = W[:n], W[n]
            P = H(*inside)
            twice = H(W[0], *inside) if n else H(W[0], W[0])
            r = H(*inside) + 1
            bad = [(P, outside), (twice, W[0]), P, (P,), (P, inside[0], inside[0]), (P, inside[0], 1), [P, inside[0]], None, (), 5, (P, sc.Symbol("elsewhere")),
                   (P, H), (P, P)]
            k = rng.randrange(len(bad))
            def go(): D[bad[k]] = r
            expect_raises(TypeError, go, f"malformed differentiation pattern #{k}", history=hist[-4:])
            ctx.obs("malformed"); hist.append(f"malformed #{k} for {f}")

        def probe(target=None, why=""):
            x = m.sym("x")
            pool = [x, x, m.sym("y"), m.int(rng.choice([3, 1, 0, 2]))]
            for _ in range(rng.choice([1, 3, 6, 12])):
                k = rng.random()
                if target is not None and rng.random() < .5: f = m.value(target)
                else: f = rng.choice(sorted(F) + [add, mul, mul] + dnames + (["List"] if glob or rng.random() < .1 else []))
                n = F.get(f, rng.choice([1, 2, 2, 3, 1, 2, 2, 3, 0]))
                pool.append(m.app(m.fun(f), *[pool[-1 - min(int(rng.expovariate(.6)), len(pool) - 1)] for _ in range(n)]))
            root = pool[-1] if rng.random() < .93 else rng.choice([x, x, m.sym("y"), m.int(1)])
            var = x if rng.random() < .85 else m.sym("y")
            order = rng.choice([1, 1, 1, 2, 3])
            want = [root]
            missing = False
            for _ in range(order):
                try: want.append(mdiff(m, want[-1], var, rules, distributive, add, mul))
                except Missing: missing = True; break
                if m.size(want[-1]) > 1500: order = len(want) - 1; break
            e, v = build(root), build(var)
            try:
                got = [D(e, v, order) if order > 1 or rng.random() < .5 else D(e, v)]
                check(D(e, v, 0) is e, "the derivative of order 0 is not the expression itself", expr=m.show(root))
                if D is sc.diff and not missing: got.append(e.diff(v, order))
            except Violation: raise
            except Exception as ex:
                if not missing: raise Violation(f"differentiation raised {type(ex).__name__} ({str(ex)[:100]}) although every rule is there {why}",
                                                expr=m.show(root), history=hist[-6:])
                ctx.obs("missing_rules"); return
            if missing: raise Violation(f"differentiation returned {short(got[0], 150)} although a rule is missing {why}", expr=m.show(root), history=hist[-6:])
            if order > 1: ctx.obs("higher_orders")
            for gx in got:
                check(type(gx) is sc.Expr, "a derivative is not an Expr")
                gn = read(gx)
                for salt in range(2):
                    if field.evaluate(m, gn, salt, add, mul) != field.evaluate(m, want[order], salt, add, mul):
                        raise Violation(f"derivative of order {order} does not follow the registered rules {why}", expr=m.show(root), variable=m.value(var),
                                        got=m.show(gn), want=m.show(want[order]), history=hist[-8:])
                ctx.obs("derivatives")
            if any(m.head(n) in distributive for n in m.post(root) if not m.is_atom(n)): ctx.obs("distributive")
            if any(len(m.children(n)) == 1 for n in m.post(root)): ctx.obs("nullary")
            ctx.sig(m.show(root, 500), tuple(hist[-6:]))
            ctx.sample({"expr": m.show(root, 100), "rules": hist[-3:], "derivative": m.show(want[order], 100)})

        for n in dnames:
            if rng.random() < .8: D.add_distributive_rule(sc.Function(n)); distributive.add(m.fun(n))
        for step in range(rng.choice([4, 8, 16])):
            if rng.random() < .2:
                one, two = two, one
                D, rules, distributive = one
                hist.append("(the other differentiator)"); ctx.obs("switches_of_differentiator")
                probe(None, "(after work on another differentiator)")
            k = rng.random()
            if k < .04:
                f = rng.choice(dnames + sorted(F) if glob or "sin" not in F else dnames + [f for f in F if f not in ("sin", "pow")])
                D.add_distributive_rule(sc.Function(f)); distributive.add(m.fun(f))
                hist.append(f"{f} is distributive"); ctx.obs("late_distributive")
                probe(m.fun(f), "(right after it became distributive)")
            elif k < .45:
                h = register()
                probe(h, "(right after a registration)"); ctx.obs("immediate")
            elif k < .6: malformed(); probe(None, "(after a rejected registration)")
            else: probe()
        self.alike(rng)
        # rules of one differentiator do not leak into one that has none
        f = rng.choice(sorted(F)); n = F[f]
        e = sc.Function(f)(*[sc.Symbol("x")] * n)
        fresh = SymDifferentiator(sc.Expr, add=sc.Function(add), mul=sc.Function(mul), zero=sc.zero, one=sc.one)
        for other in [fresh] + ([] if glob or f in ("sin", "pow") else [sc.diff]):
            try: d = other(e, sc.Symbol("x"))
            except Exception: pass
            else: raise Violation(f"a rule registered on one differentiator is used by another: {short(d, 100)}", expr=short(e))

    def alike(self, rng):
        """Functions that print alike and are different: other kinds with the same name, compound heads, symbols as heads."""
        x, y, a, b = sc.Symbol("x"), sc.Symbol("y"), sc.a, sc.b
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        name = rng.choice(["sin", "q", "f", "pow", "Add", "Mul", "List", "x", "3"])
        kinds = [sc.Expr.new_atom(rng.choice(["Function", "Symbol", "F"]), str) for _ in range(rng.choice([1, 2]))] + [sc.Function, sc.Symbol]
        heads = [K(name) for K in rng.sample(kinds, len(kinds)) if not (K is sc.Function and name in ("Add", "Mul"))]
        heads += rng.sample([sc.Function("q")(3), sc.Function("q(3)"), sc.Function("q")(sc.Function("3")), sc.Function("r")], 3)
        heads = heads[:rng.choice([2, 3, 7])]
        n = rng.choice([1, 2])
        pat = [a, b][:n]
        told = {}
        for step in range(rng.choice([2, 4, 8])):
            h = rng.choice(heads)
            k = rng.randrange(n)
            mark = sc.Function(f"mark{step}")
            if rng.random() < .8: D[h(*pat), pat[k]] = mark(*pat); told[h, k] = mark
            for h in heads:
                args = [x, y][:n]
                for k in range(n):
                    want = told.get((h, k))
                    try: got = D(h(*args), args[k])
                    except Exception:
                        if want is not None: raise Violation(f"no derivative of {short(h(*args))} although the rule is there", rules=[short(h.rep) for h, k in told]) from None
                        continue
                    finally: self.ctx.obs("heads_alike")
                    if want is None: raise Violation(f"{short(h(*args))} has the derivative {short(got)} although no rule was given for it", rules=[short(h.rep) for h, k in told])
                    check(got is want(*args), lambda: f"{short(h(*args))} has the derivative {short(got)} instead of {short(want(*args))}")
