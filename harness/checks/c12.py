"""C12: lambdified scalar expressions against 400-bit values; refusals."""
import protosym.simplecas as sc

from pv import cgen, churn, lookalike, num
from pv.bridge import Builder
from pv.core import Violation, check, short
from pv.gen import near_tie, rounds_to, size
from pv.model import Model


class CHECK:
    rule = "structurally different compiled expressions with their argument lists"
    plan = {"quick": {"seconds": 9, "min": 20}, "thorough": {"seconds": 300, "min": 150, "cases": 24000}}
    floors = {"made_and_dropped": 60, "cases": 150, "compiled": 200, "calls_checked": 800, "odd_names": 100, "unused_arguments": 50, "refused": 600, "many_arguments": 5, "very_far_powers": 10, "rounded_ints": 10}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C12", 4)
        g = cgen.gen(m, rng)
        k, fixed = rng.random(), {}
        if k < .06:
            syms = [m.sym(f"v{i}") for i in range(size(rng, 12, 300))]
            root = m.add(*[m.mul(m.int(i + 2), rng.choice([m.sin(s), s, m.pow(s, m.int(2))])) for i, s in enumerate(syms)])
            ctx.obs("many_arguments")
        elif k < .1: root = g.doubling(rng.choice([3, 12]))
        elif k < .15: root = rng.choice([g.atom(), m.int(rng.choice([0, -7, 2**53 + 1, 10**22])), g.syms[0]])
        elif k < .2:
            base = rng.choice(g.syms)
            far, v = num.far_power(m, rng, base)
            root = rng.choice([far, m.mul(far, g.atom()), m.add(g.atom(), far), m.sin(far)]); fixed = {base: v}
            ctx.obs("very_far_powers")
        else: root = g.expr(rng.choice([1, 2, 4, 8, 16]))
        args = cgen.arguments(m, rng, [root])
        build = Builder(m, rng)
        e = build(root)
        arglist = [build(a) for a in args]
        f = sc.lambdify(list(arglist), e)
        ctx.obs("compiled")
        used = set(m.symbols(root))
        if set(args) - used: ctx.obs("unused_arguments")
        if any(not str(m.value(a)).isidentifier() for a in args): ctx.obs("odd_names")
        for _ in range(6):
            env = num.points(rng, args)
            if rng.random() < .8: env.update({s: v for s, v in fixed.items() if s in env})
            try: ref, = cgen.reference(m, [root], env)
            except (num.Undefined, num.Unsure): ctx.obs("not_judged"); continue
            got = f(*[env[a] for a in args])
            cgen.judge(m, got, ref, root, env, f"compiled function of ({', '.join(repr(m.value(a)) for a in args)})")
            direct = e.eval_f64({build(a): v for a, v in env.items()})
            check(abs(num.mpf(direct) - num.mpf(got)) <= 2 * ref[1], lambda: f"compiled {got!r} and direct {direct!r} evaluation disagree", expr=m.show(root))
            if all(v == int(v) for v in env.values()) and env: f(*[int(env[a]) for a in args])
            ctx.obs("calls_checked")
        if rng.random() < .3 and args:      # another order of the same arguments
            perm = list(args); rng.shuffle(perm)
            f2 = sc.lambdify([build(a) for a in perm], e)
            ctx.obs("compiled")
            env = num.points(rng, args, positive=True)
            try:
                ref, = cgen.reference(m, [root], env)
                cgen.judge(m, f2(*[env[a] for a in perm]), ref, root, env, "compiled function with arguments reordered")
                ctx.obs("calls_checked")
            except (num.Undefined, num.Unsure): pass
        ctx.sig(m.show(root, 1500), tuple(args))
        ctx.sample({"expr": m.show(root, 120), "args": [str(m.value(a))[:20] for a in args]})
        self.refusals(rng, m, e, arglist, root, args)
        if rng.random() < .05:
            n = near_tie(rng)
            e, v = rng.choice([(sc.Integer(n), 1.0), (n * sc.x, 1.0), (sc.x * n, 1.0), (sc.x * n, -1.0), (sc.x + n, 0.0)])
            got = sc.lambdify([sc.x], e)(v)
            check(rounds_to(got if v >= 0 else -got, n), f"the compiled {e} at {v} is {got!r}, not the nearest double")
            ctx.obs("rounded_ints")

    def refusals(self, rng, m, e, arglist, root, args):
        S, F = sc.Symbol, sc.Function
        names = [m.value(a) for a in args] or ["x"]
        nm = rng.choice(names)
        fresh = S("not_an_argument")
        bad = {
            "unknown symbol": fresh, "function atom": F("fn"), "function atom named like an argument": F(nm), "wild": sc.a,
            "wild named like an argument": sc.Expr.new_wild(nm), "unknown function": F("tan")(rng.choice(arglist or [sc.one])),
            "function named like an argument": F(nm)(1) if nm not in ("Add", "Mul", "pow", "sin", "cos") else fresh,
            "list": sc.List(1), "call of a symbol": S(nm)(1), "call of an expression": (e + 1)(2), "call of a number": sc.one(1),
            "symbol named like a function": S("sin")(1), "nullary call": F("zzz")(), "head as argument": sc.sin(sc.sin), "wild call": sc.a(1),
            "other kind": sc.Expr.new_atom("Symbol", str)(nm), "other integer": lookalike.number(rng) if rng.random() < .7 else sc.Expr.new_atom("Integer", int)(3),
            "lookalike": lookalike.call(rng, arglist), "lookalike call": lookalike.call(rng, [*arglist, e]), "call that looks like": lookalike.call(rng, [sc.one, e]),
            "float atom": sc.Expr.new_atom("Float", float)(1.5),
        }
        for kind in rng.sample(sorted(bad), 4):
            b = bad[kind]
            t = rng.random()
            broken = e + b if t < .3 else sc.Mul(0, b) if t < .5 else sc.Add(e, b, e) if t < .7 else sc.sin(b) ** 2 if t < .85 else b
            try: got = sc.lambdify(arglist, broken)
            except Exception: self.ctx.obs("refused")
            else: raise Violation(f"an expression with an unsupported part ({kind}) was compiled", expr=short(broken), got=short(got))
        syms = [a for a in args if a in set(m.symbols(root))]
        if syms:
            leave = rng.choice(syms)
            rest = [a for a, n in zip(arglist, args) if n != leave]
            try: got = sc.lambdify(rest, e)
            except Exception: self.ctx.obs("refused")
            else: raise Violation(f"an expression was compiled although its symbol {m.value(leave)!r} is not an argument", expr=m.show(root))
        for notexpr in (1, 1.5, "x", None, [e], e.rep):
            if rng.random() < .2:
                try: sc.lambdify(arglist, notexpr)
                except Exception: self.ctx.obs("refused")
                else: raise Violation(f"lambdify accepted a {type(notexpr).__name__}")
