"""C06: evaluation against the recursive definition, with logged rules."""
import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star
from protosym.core.tree import Tr

from pv import churn
from pv.bridge import Builder, Reader
from pv.core import Violation, check, short
from pv.gen import size
from pv.model import Model


class Cell:
    """A value that must never be compared, hashed or tested for truth."""
    __slots__ = ("term",)

    def __init__(self, term): self.term = term
    def _no(self, *a): raise Violation("the evaluator compares or tests the values it computes")
    __eq__ = __ne__ = __lt__ = __bool__ = __len__ = __hash__ = _no


FALSY = [None, 0, "", False, 0.0, (), frozenset()]


class Wanted(Exception):
    pass


def sequence(args):
    """Rules may count, index and go through their operands as often as they like."""
    n = len(args)
    check(len(list(args)) == n and len(list(args)) == n and all(args[i] is v for i, v in enumerate(args)), "the operands passed to a rule are no sequence")


ERRORS = [Wanted, StopIteration, KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, NotImplementedError, AssertionError, RecursionError,
          MemoryError, ImportError, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, NoEvaluationRuleError, LookupError, RuntimeError]


class CHECK:
    rule = "structurally different (expression, rule set, value assignment) triples"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 200, "rule_calls": 5000, "shared_nodes": 500, "values_used": 300, "missing_rules": 40,
              "falsy_values": 50, "recursive_runs": 100, "rule_exceptions": 100, "nested_evaluations": 20, "wide_nodes": 300, "large": 10, "kept_operands": 300}

    def __init__(self, ctx):
        self.ctx = ctx

    def small(self, m, n):
        # the no-rule error prints the head, so its tree must not be exponentially large
        while True:
            size = {}
            for i in m.post(n, heads=True):
                size[i] = 1 + sum(size[c] for c in m.children(i))
            if size[n] <= 500: return n
            n = m.args(n)[0] if m.args(n) else m.head(n)

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C06")
        symlevel = rng.random() < .5
        # heads with a fixed number of arguments
        arities = {"f0": 0, "f1": 1, "f2": 2, "f3": 3, "u1": 1, "u2": 2, "v": None, "w": None, "k": None}
        names = rng.sample(sorted(arities), rng.choice([2, 4, 9]))
        pool = []
        kinds = {k: AtomType(k, object) for k in ("P", "Q", "R", "Function")}
        symkinds = {k: sc.Expr.new_atom(k, object) for k in kinds}
        if symlevel: kinds = {k: t.atom_type for k, t in symkinds.items()}
        large = rng.random() < .004
        for i in range(size(rng, 10, 3000) if large else 0): pool.append(m.atom(rng.choice("PQR"), i))
        for _ in range(rng.randint(1, 5)):
            pool.append(m.atom(rng.choice("PQR"), rng.choice(["x", "y", 1, 0, -1, "", None, (1, 2), 2.5])))
        if rng.random() < .2: pool.append(m.atom("Function", rng.choice(names)))   # a head used as an argument
        for _ in range(rng.choice([0, 1, 2, 4, 8, 16, 40, 120]) if not large else size(rng, 200, 5000)):
            h = rng.choice(names)
            n = arities[h] if arities[h] is not None else rng.choice([0, 1, 1, 2, 2, 3, 6]) if rng.random() < .99 else size(rng, 7, 1000)
            if n > 6: ctx.obs("wide_nodes")
            hd = m.atom("Function", h)
            if arities[h] is None and rng.random() < .1: hd = self.small(m, rng.choice(pool[:130] if large else pool))      # any head
            args = [pool[-1 - min(int(rng.expovariate(.5)), len(pool) - 1)] if rng.random() < .8 else rng.choice(pool) for _ in range(n)]
            pool.append(m.app(hd, *args))
        if large:      # everything is reachable from the root, and every rule is there
            ctx.obs("large")
            todo = list(pool)
            while len(todo) > 1:
                h = rng.choice(names)
                n = arities[h] if arities[h] is not None else rng.choice([1, 2, 3, 6, 40])
                args, todo = todo[:n], todo[n:]
                if n > 1 or rng.random() < .1: todo.append(m.app(m.atom("Function", h), *args))
                elif n == 1: todo.append(m.app(m.atom("Function", h), args[0])); h2 = m.atom("Function", "v"); todo.append(m.app(h2, todo.pop(), todo.pop(0)))
            pool.append(todo[0])
        root = pool[-1]
        build = Builder(m, rng, kinds, tree=True)
        e = build(root)
        log = []
        boom = rng.random() < .1
        mode = rng.choice(["term", "term", "cell", "falsy"])
        if mode == "falsy": ctx.obs("falsy_values")
        toterm = (lambda v: v.term) if mode == "cell" else (lambda v: v)
        ids = {}

        def out(entry):
            """The value of a rule application (a function of the entry only)."""
            log.append(entry)
            return make(entry)

        def make(entry):
            i = ids.setdefault(entry, len(ids))
            if mode == "falsy": return FALSY[i % len(FALSY)]
            return Cell(("t", i)) if mode == "cell" else ("t", i)
        # choose rules: (kind of rule, identity of function)
        oprules, atomrules = {}, {}
        for h in names:
            if rng.random() < .75:
                oprules[h] = rng.choice(["op1", "op2", "opn"] if arities[h] not in (1, 2) or rng.random() < .3 else ["op%d" % arities[h]])
                if symlevel: oprules[h] = {1: rng.choice(["op1", "opn"]), 2: rng.choice(["op2", "opn"])}.get(arities[h], "opn")
        for k in kinds:
            if rng.random() < .65: atomrules[k] = True
        gen_op, gen_atom = rng.random() < .6 or large, rng.random() < .6 or large
        values = {}
        for n in m.post(root, heads=True):
            if m.is_atom(n) and rng.random() < .35: values[n] = ("value", n)
        if rng.random() < .3: values[m.atom("P", "unused")] = ("value", "unused")
        nested = rng.random() < .1 and not large

        ev = Evaluator()
        sev = sc.Expr.new_evaluator("e", object)
        target = sev if symlevel else ev
        a, b = sc.a, sc.b
        def busy():
            if nested and rng.random() < .2:
                keep = list(log)
                r = toterm(other())
                log[:] = keep
                check(r == otherwant, "an evaluation inside a rule gave another result")
                ctx.obs("nested_evaluations")
        greedy, kept = rng.random() < .15, []
        def own(args):
            """The operands passed to a rule are the rule's: it may change or keep them."""
            if not greedy or not isinstance(args, list): return
            k = rng.randrange(5)
            if k == 0: args.clear()
            elif k == 1: args.reverse()
            elif k == 2: args.append("more")
            else: kept.append((args, [id(v) for v in args], list(args)))
        def opfn(h):
            def variadic(args):
                busy()
                sequence(args)
                r = out(("op", h, tuple(toterm(v) for v in args)))
                own(args)
                return r
            return variadic, lambda *args: variadic(args)
        def atfn(k):
            def fn(v):
                busy()
                return out(("atom", k, type(v).__name__, v))
            return fn
        def gop(head, args):
            sequence(args)
            r = out(("gop", read(head), tuple(toterm(v) for v in args)))
            own(args)
            return r
        def gat(atom):
            if symlevel and not hasattr(atom, "children"): atom = atom.rep
            return out(("gat", read(atom)))
        read = Reader(m, kinds)
        raiser = rng.choice([*names, *names, "P", "Q", "generic head", "generic atom"]) if boom else None
        error = rng.choice(ERRORS)("planned")
        def raising_rule(*args):
            raise error
        for h, r in oprules.items():
            vf, sf = opfn(h)
            if h == raiser:
                vf = sf = raising_rule
            head = Tr(kinds["Function"](h))
            if not symlevel:
                {"op1": ev.add_op1, "op2": ev.add_op2, "opn": ev.add_opn}[r](head, vf if r == "opn" else sf)
            else:
                H = sc.Expr(head)
                if r == "op1": sev[H(a)] = PyOp1(sf)(a)
                elif r == "op2": sev[H(a, b)] = PyOp2(sf)(a, b)
                else: sev[H(star(a))] = PyOpN(vf)(a)
        for k in atomrules:
            fn = raising_rule if k == raiser else atfn(k)
            if symlevel: sev[symkinds[k][a]] = PyFunc1(fn)(a)
            else: ev.add_atom(kinds[k], fn)
        if raiser == "generic head": gop = raising_rule
        if raiser == "generic atom": gat = raising_rule
        if gen_op:
            if symlevel: sev[HeadRule(a, b)] = HeadOp(gop)(a, b)
            else: ev.add_op_generic(gop)
        if gen_atom:
            if symlevel: sev[AtomRule[a]] = AtomFunc(gat)(a)
            else: ev.add_atom_generic(gat)

        # the recursive definition
        val, want_log, missing, raising = {}, [], False, False
        for n in m.post(root):
            if m.is_atom(n):
                if n in values: val[n] = ("value", n); ctx.obs("values_used"); continue
                k = m.kind(n)
                if k in atomrules:
                    ent = ("atom", k, type(m.value(n)).__name__, m.value(n))
                    if k == raiser: raising = True
                elif gen_atom:
                    ent = ("gat", n)
                    if raiser == "generic atom": raising = True
                else: missing = True; ent = None
            else:
                hk = m.head(n)
                h = m.value(hk) if m.is_atom(hk) and m.kind(hk) == "Function" else None
                av = tuple(val[c] for c in m.args(n))
                if h in oprules:
                    ent = ("op", h, av)
                    if h == raiser: raising = True
                elif gen_op:
                    ent = ("gop", hk, av)
                    if raiser == "generic head": raising = True
                else: missing = True; ent = None
            if ent is not None: want_log.append(ent)
            val[n] = toterm(make(ent)) if ent is not None else ("missing",)
        want = val[root]
        realvalues = {}
        for n, t in values.items():
            v = t
            if mode == "cell": v = Cell(t)
            if mode == "falsy": v = make(t)
            realvalues[build(n)] = v
        def run():
            if symlevel:
                d = {sc.Expr(k): v for k, v in realvalues.items()}
                return sev(sc.Expr(e), d) if d or rng.random() < .5 else sev(sc.Expr(e))
            return ev(e, realvalues) if realvalues or rng.random() < .5 else ev(e)
        def other():
            return run_plain()
        def run_plain():
            nonlocal nested
            nested_keep, nested = nested, False
            try: return run()
            finally: nested = nested_keep
        otherwant = want
        # values of atoms in falsy mode: recompute with actual values
        if mode == "falsy":
            want, want_log = self.falsy_reference(m, root, values, atomrules, oprules, gen_op, gen_atom, make)
            otherwant = want
        expr_text = m.show(root, 200)
        def judge(fn, name, exact):
            log.clear()
            try:
                got = fn()
            except BaseException as ex:
                # (a generator turns StopIteration into RuntimeError)
                if ex is error or (isinstance(error, StopIteration) and type(ex) is RuntimeError and ex.__cause__ is error):
                    check(raising, f"{name}: a rule was applied that should not be", expr=expr_text)
                    ctx.obs("rule_exceptions"); return
                if type(ex) is not NoEvaluationRuleError:
                    if not raising: raise
                    if isinstance(ex, Violation): raise
                    raise Violation(f"{name}: {type(ex).__name__} instead of the {type(error).__name__} raised by a rule", expr=expr_text, trace=short(ex))
                check(missing, f"{name}: no-rule error although every rule is there", expr=expr_text)
                ctx.obs("missing_rules"); return
            if missing or raising:
                raise Violation(f"{name}: returned {short(got)} although a rule is missing or raises", expr=expr_text)
            if mode == "falsy":
                check(type(got) is type(want) and got == want, f"{name}: value {got!r} instead of {want!r}", expr=expr_text)
            else:
                check(toterm(got) == want, f"{name}: wrong value", got=toterm(got), want=want, expr=expr_text)
            if exact:
                if mode == "falsy":   # equal values make equal entries: count them
                    check(sorted(map(repr, log)) == sorted(map(repr, want_log)), f"{name}: rules applied differ",
                          extra=minus(log, want_log), missing=minus(want_log, log), expr=expr_text)
                else:
                    c = {}
                    for x in log: c[x] = c.get(x, 0) + 1
                    dup = [x for x, k in c.items() if k > 1]
                    check(not dup, f"{name}: a rule was applied {max(c.values(), default=0)} times to one subexpression", rule=dup[:1], expr=expr_text)
                    check(set(log) == set(want_log), f"{name}: rules applied differ", extra=minus(log, want_log),
                          missing=minus(want_log, log), expr=expr_text)
            ctx.obs("rule_calls", len(log))
        if m.edges(root) >= m.size(root): ctx.obs("shared_nodes", m.edges(root) - m.size(root) + 1)
        for _ in range(rng.choice([1, 2])):
            judge(run, "evaluation", not nested)
        if not symlevel:
            judge(lambda: ev.evaluate(e, realvalues), "evaluate", not nested)
            judge(lambda: ev.eval_forward(e, realvalues), "eval_forward", not nested)
        if m.tree_count(root) < 3000 and m.depth(root) < 150:
            core = sev.evaluator if symlevel else ev
            judge(lambda: core.eval_recursive(e, realvalues), "eval_recursive", False)
            ctx.obs("recursive_runs")
        check(all([id(v) for v in args] == was for args, was, _ in kept), "the operands passed to a rule were changed afterwards")
        if kept: ctx.obs("kept_operands", len(kept))
        check(set(realvalues) == {build(n) for n in values}, "the values of the caller were changed")
        ctx.sig(expr_text, tuple(sorted(oprules.items())), tuple(atomrules), gen_op, gen_atom, tuple(sorted(values)))
        ctx.sample({"expr": m.show(root, 120), "rules": sorted(oprules.items()) + sorted(atomrules), "generic": [gen_op, gen_atom],
                    "values": [m.show(n) for n in values][:4], "rule applications": len(want_log)})

    def falsy_reference(self, m, root, values, atomrules, oprules, gen_op, gen_atom, make):
        val, log = {}, []
        for n in m.post(root):
            if m.is_atom(n):
                if n in values: val[n] = make(("value", n)); continue
                k = m.kind(n)
                ent = ("atom", k, type(m.value(n)).__name__, m.value(n)) if k in atomrules else ("gat", n)
            else:
                hk = m.head(n)
                h = m.value(hk) if m.is_atom(hk) and m.kind(hk) == "Function" else None
                av = tuple(val[c] for c in m.args(n))
                ent = ("op", h, av) if h in oprules else ("gop", hk, av)
            log.append(ent)
            val[n] = make(ent)
        return val[root], log


def minus(a, b):
    b = [repr(x) for x in b]
    return [repr(x)[:200] for x in a if repr(x) not in b][:3]
