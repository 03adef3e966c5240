"""C08: substitution against the simultaneous-replacement model."""
import protosym.simplecas as sc
from protosym.core.tree import SubsFunc

from pv import churn
from pv.bridge import Builder, Reader, same
from pv.core import Violation, check, expect_raises
from pv.gen import Gen, size
from pv.model import Model


class CHECK:
    rule = "structurally different (expression, targets) pairs"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 300, "substitutions": 2000, "nested_targets": 200, "whole_expression_targets": 100, "absent_targets": 100,
              "head_targets": 100, "repeated_calls": 500, "wrong_arity": 200, "no_targets": 20, "compound_targets": 300, "near_targets": 100, "crowds": 20}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C08")
        g = Gen(m, rng, compound_heads=rng.random() < .4, lookalike=rng.random() < .4, nullary=rng.random() < .4, unary_ac=True)
        k = rng.random()
        if k < .05: root = g.chain(rng.choice([30, 400]))
        elif k < .1: root = g.doubling(rng.choice([5, 30]))
        else: root = g.expr()
        build, read = Builder(m, rng), Reader(m)
        e = build(root)
        inside = m.post(root, heads=True)
        live = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 20])
            targets = set(rng.sample(inside, min(n, len(inside))))
            if rng.random() < .15: targets.add(root)
            if rng.random() < .2: targets |= {g.atom(), g.expr(2)}
            if rng.random() < .2: targets |= set(g.syms[:2])
            if rng.random() < .1: targets |= {g.expr(rng.choice([1, 3])) for _ in range(12)}
            targets = sorted(targets)
            rng.shuffle(targets)
            route = rng.choice(["tree", "function", "xreplace"])
            if live and rng.random() < .4:
                # nearly the targets of an earlier substitution
                was = rng.choice(live)
                targets = list(was[2])
                if rng.random() < .6: route = was[0]
                for _ in range(rng.choice([1, 1, 2])):
                    r, at = rng.random(), rng.randrange(len(targets) + 1)
                    if r < .3 and at < len(targets): del targets[at]
                    elif r < .6:
                        new = rng.choice(inside) if rng.random() < .6 else g.expr(2)
                        if new not in targets: targets.insert(at, new)
                    elif r < .8 and at < len(targets):
                        new = rng.choice(inside) if rng.random() < .6 else g.expr(2)
                        if new not in targets: targets[at] = new
                    else: rng.shuffle(targets)
                ctx.obs("near_targets")
            tset = set(targets)
            if not targets: ctx.obs("no_targets")
            if root in tset: ctx.obs("whole_expression_targets")
            if tset - set(inside): ctx.obs("absent_targets")
            if any(not m.is_atom(t) for t in targets): ctx.obs("compound_targets")
            if any(set(m.post(t, heads=True)) & (tset - {t}) for t in targets): ctx.obs("nested_targets")
            heads = {m.head(i) for i in inside if not m.is_atom(i)}
            if tset & heads: ctx.obs("head_targets")
            targets_r = [build(t) for t in targets]
            if route == "tree": fn = SubsFunc(e.rep, [t.rep for t in targets_r])
            elif route == "function":
                fn = e.as_function(*[m.value(t) if m.kind(t) == "Integer" and rng.random() < .5 else r for t, r in zip(targets, targets_r)])
            else: fn = None
            live.append((route, fn, targets, targets_r))
        for _ in range(rng.choice([1, 2, 4, 7, 10])):
            route, fn, targets, targets_r = rng.choice(live)
            reps = []
            for t in targets:
                r = rng.random()
                if r < .3 and targets: reps.append(rng.choice(targets))      # swaps, cycles
                elif r < .4: reps.append(root)
                elif r < .5: reps.append(rng.choice(inside))
                elif r < .75: reps.append(g.atom())
                else: reps.append(g.expr(rng.choice([1, 3])))
            want = m.subst(root, dict(zip(targets, reps)))
            reps_r = [build(x) for x in reps]
            nat = [m.value(n) if m.kind(n) == "Integer" and rng.random() < .5 else r for n, r in zip(reps, reps_r)]
            if route == "tree":
                got = fn(*[r.rep for r in reps_r]) if rng.random() < .7 else fn.call(tuple(r.rep for r in reps_r))
            elif route == "function":
                if rng.random() < .7:
                    got = fn(*nat)
                    check(type(got) is sc.Expr, "substitution does not return an Expr")
                else: got = fn.call([r.rep for r in reps_r])
            else:
                keys = [m.value(t) if m.kind(t) == "Integer" and rng.random() < .3 else r for t, r in zip(targets, targets_r)]
                d = dict(zip(keys, nat))
                before = list(d.items())
                got = e.xreplace(d)
                check(list(d.items()) == before, "xreplace changed the caller's dict")
            same(m, read, got, want, f"substitution ({route})", expr=m.show(root), targets=[m.show(t, 100) for t in targets],
                 replacements=[m.show(t, 100) for t in reps])
            wb = build(want)
            check(got is wb or got is wb.rep, "substitution gives an expression that is not the one object for its structure")
            ctx.obs("substitutions"); ctx.obs("repeated_calls")
            if fn is not None and rng.random() < .5:
                n = len(targets)
                for k in {n + 1, max(0, n - 1), 0, n + 3} - {n}:
                    args = [rng.choice(reps_r or [e]) for _ in range(k)]
                    expect_raises(TypeError, lambda: fn(*[x.rep for x in args]) if route == "tree" else fn(*args),
                                  f"substitution with {k} replacements for {n} targets")
                    ctx.obs("wrong_arity")
        same(m, Reader(m), e, root, "the expression after substitutions")
        if idx % 40 == 0: self.crowd(rng)
        ctx.sig(m.show(root, 1500), tuple(m.show(t, 200) for t in live[0][2]))
        ctx.sample({"expr": m.show(root, 120), "targets": [m.show(t, 60) for t in live[0][2]]})

    def crowd(self, rng):
        """Very many targets, or one substitution function used very often."""
        m = Model()
        g = Gen(m, rng, names=[f"s{i}" for i in range(300)], nsyms=size(rng, 2, 250))
        parts = [rng.choice([lambda: s, lambda: m.sin(s), lambda: m.mul(s, g.atom()), lambda: m.app(g.funs[0], s, g.atom(), s)])() for s in g.syms]
        root = m.app(m.fun(rng.choice(["Add", "f", "List"])), *parts)
        if rng.random() < .5:
            root = parts[0]
            for p in parts[1:]: root = m.add(root, p)
        if rng.random() < .3: root = g.large(3000)
        build, read = Builder(m, rng), Reader(m)
        e = build(root)
        inside = m.post(root)
        targets = rng.sample(inside, min(len(inside), size(rng, 1, 250)))
        fn = SubsFunc(e.rep, [build(t).rep for t in targets]) if rng.random() < .5 else e.as_function(*map(build, targets))
        check_every = len(inside) < 60
        pool = [g.atom() for _ in range(5)] + [m.int(k) for k in range(6)] + g.pool(3)
        for k in range(size(rng, 2, 300) if len(inside) < 1000 else 3):
            reps = [rng.choice(pool) for _ in targets]
            args = [build(r) for r in reps]
            got = fn(*[a.rep for a in args]) if isinstance(fn, SubsFunc) else fn(*args)
            self.ctx.obs("crowd_calls")
            if check_every or rng.random() < .1 or k < 2:
                same(m, read, got, m.subst(root, dict(zip(targets, reps))), f"substitution for {len(targets)} targets, call {k}", expr=m.show(root))
        self.ctx.obs("crowds")
