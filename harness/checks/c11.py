"""C11: eval_f64 against 400-bit values with a forward error bound."""
import math

import protosym.simplecas as sc

from pv import churn, lookalike, num
from pv.bridge import Builder
from pv.core import Violation, check, short
from pv.gen import INTS, SMALL, Gen, near_tie, rounds_to, size
from pv.model import Model
from pv.num import Undefined, Unsure


class CHECK:
    rule = "structurally different evaluated expressions"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 300, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 300, "values_checked": 3000, "undefined_raised": 50, "missing_raised": 300, "big_ints": 30, "powers": 1000,
              "long_sums": 50, "far_powers": 50, "very_far_powers": 20, "large": 8, "cancellations": 50, "long_products": 50,
              "rounded_ints": 500}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C11")
        g = Gen(m, rng, ops={"Add": 4, "Mul": 4, "pow": 3, "sin": 2, "cos": 2, "neg": 1, "sub": 1, "div": 2}, unary_ac=True,
                nullary=rng.random() < .2, ints=SMALL if rng.random() < .7 else INTS, tame=rng.random() < .7)
        k, fixed = rng.random(), {}
        if k < .05: root = self.trig(m, g, rng, rng.choice([20, 300]))
        elif k < .12:
            root = m.app(m.fun(rng.choice(["Add", "Add", "Mul"])), *[g.expr(1) for _ in range(size(rng, 5, 400))]); ctx.obs("long_sums")
        elif k < .24:
            # powers far out, of bases near one
            base = rng.choice(g.syms)
            if rng.random() < .3: base = m.app(m.fun(rng.choice(["Mul", "Add"])), base, m.int(rng.choice([1, -1, 2])))
            root = m.pow(base, m.int(rng.choice([-1, 1]) * rng.choice([2, 3, 9, 17, 41, 64, 100, 255, 511, 1000, 1023, rng.randint(2, 1500)])))
            if rng.random() < .4: root = m.app(m.fun(rng.choice(["Add", "Mul"])), root, g.expr(1), m.pow(m.sym("x"), rng.choice(g.syms)))
            ctx.obs("far_powers")
        elif k < .25:
            base = rng.choice(g.syms)
            far, v = num.far_power(m, rng, base)
            root = rng.choice([far, m.mul(far, g.atom()), m.add(g.atom(), far), m.sin(far)]); fixed = {base: v}
            ctx.obs("very_far_powers")
        elif k < .27:
            # sums whose terms cancel, and products of many factors
            terms = list(g.syms) + [m.sym(f"c{i}") for i in range(rng.choice([1, 3, 8]))]
            if rng.random() < .5:
                pick = [rng.choice(terms) for _ in range(size(rng, 1, 12))]
                rest = [rng.choice(terms + [m.int(rng.choice(INTS))]) for _ in range(rng.randint(0, 3))]
                args = pick + [m.neg(t) for t in pick] + rest
                rng.shuffle(args)
                root = m.app(m.fun("Add"), *args)
                ctx.obs("cancellations")
            else:
                root = m.app(m.fun("Mul"), *[rng.choice(terms) for _ in range(size(rng, 4, 30))])
                ctx.obs("long_products")
            if rng.random() < .3: root = m.sin(root) if rng.random() < .5 else m.mul(root, root)
        elif k < .272: root = g.large(4000, share=.01, env=20); ctx.obs("large")
        else: root = g.expr()
        e = Builder(m, rng)(root)
        syms = m.symbols(root)
        allsyms = list(dict.fromkeys(syms + g.syms))
        if any(m.kind(n) == "Integer" and abs(m.value(n)) > 2**53 for n in m.post(root)): ctx.obs("big_ints")
        for _ in range(rng.choice([1, 2, 4])):
            env = num.points(rng, allsyms)
            if .12 <= k < .24 and rng.random() < .8: env = {s: rng.choice([-1, 1, 1]) * 2 ** rng.uniform(-.4, .4) for s in env}
            spread = rng.choice([15, 15, 60]) if m.headname(root) == "Add" else 15
            if .25 <= k < .27: env = {s: abs(v or 1.0) * 10.0 ** rng.randint(-spread, spread) * (rng.choice([1, 1, 1, -1]) if idx % 2 else 1) for s, v in env.items()}
            elif rng.random() < .1: env = {s: v * 10.0 ** rng.randint(-12, 12) for s, v in env.items()}
            env.update(fixed)
            values = {sc.Symbol(m.value(s)): v for s, v in env.items()}
            before = dict(values)
            try:
                V, E = num.value(m, root, env, bound=True, strict=True)
            except Unsure:
                ctx.obs("unsure"); continue
            except Undefined as u:
                try: got = e.eval_f64(values)
                except Exception: ctx.obs("undefined_raised"); continue
                raise Violation(f"eval_f64 returned {got!r} where the value is undefined ({u})", expr=m.show(root), values=env_text(m, env))
            got = e.eval_f64(values) if values or rng.random() < .5 else e.eval_f64()
            check(isinstance(got, (int, float)) and not isinstance(got, bool), lambda: f"eval_f64 returned {short(got)}, not a number", expr=m.show(root))
            tol = 4 * E[root] + num.mpf(10) ** -280
            if not (math.isfinite(got) and abs(num.mpf(got) - V[root]) <= tol):
                raise Violation(f"eval_f64 returned {got!r} instead of {num.mpmath.nstr(V[root], 20)} (bound {num.mpmath.nstr(tol, 3)})",
                                expr=m.show(root), values=env_text(m, env))
            check(values == before, "eval_f64 changed the caller's values")
            ctx.obs("values_checked")
            ctx.obs("powers", sum(m.headname(n) == "pow" for n in m.post(root)))
        ctx.sig(m.show(root, 1500))
        ctx.sample({"expr": m.show(root, 150)})
        for _ in range(3):
            n = near_tie(rng)
            got = sc.Integer(n).eval_f64()
            check(rounds_to(got, n), f"eval_f64 of the integer {n} is {got!r}, not the nearest double")
            ctx.obs("rounded_ints")
        # something without a value
        env = num.points(rng, allsyms, positive=True)
        kind = rng.choice(["symbol", "function", "wild", "head", "none", "lookalike", "lookalike", "lookalike number"])
        bad = {"symbol": sc.Symbol("unassigned"), "function": sc.f, "wild": sc.a, "head": sc.f(1), "none": sc.Symbol("unassigned") * 0,
               "lookalike": lookalike.call(rng, [e, sc.one, sc.Integer(2)]), "lookalike number": lookalike.number(rng)}[kind]
        t = rng.random()
        broken = e + bad if t < .4 else sc.Add(bad, e, e) if t < .6 else sc.Mul(0, bad, e) if t < .8 else (bad if rng.random() < .5 else sc.sin(bad))
        values = {sc.Symbol(m.value(s)): v for s, v in env.items()}
        if rng.random() < .3: values[sc.Symbol("other")] = 1.0
        try: got = broken.eval_f64(values) if rng.random() < .8 else broken.eval_f64()
        except Exception: ctx.obs("missing_raised")
        else: raise Violation(f"eval_f64 returned {got!r} for an expression with something that has no value ({kind})", expr=m.show(root))

    def trig(self, m, g, rng, n):
        e = g.atom()
        for _ in range(n):
            k = rng.randrange(4)
            e = [m.sin, m.cos, lambda x: m.add(x, g.atom()), lambda x: m.sin(m.mul(g.atom(), x))][k](e)
        return e


def env_text(m, env):
    return {m.value(s): v for s, v in env.items()}
