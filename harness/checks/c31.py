"""C31: several languages built on the core in one process, with equal names for different things."""
import gc, random

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, Sym, SymDifferentiator, star
from protosym.core.tree import SubsFunc, Tr

from pv import heap
from pv.core import Violation, check, short

P = 2 ** 61 - 1
SYMS = ["x", "y", "z", "a", "sin"]
UN, BIN, MANY = ["sin", "cos", "f"], ["pow", "g"], ["Add", "Mul", "h"]
HEADS = UN + BIN + MANY


def H(*parts): return random.Random(repr(parts)).randrange(2, P)


class Language:
    """A user's symbolic system: its own classes, heads, rules; names are those of all others.

    Terms are tuples: ("i", n), ("s", name) or (head, arg, ...).
    """

    def __init__(self, key, base, values, of=None):
        rng = random.Random(f"language {key}")
        self.key, self.rng, self.values = key, rng, values
        lang = self
        if of is not None:
            # The same terms with other evaluators, differentiators and transformers.
            for n in ("ops", "cls", "Integer", "Symbol", "Function", "head", "add", "mul", "distributive", "zero", "one"): setattr(self, n, getattr(of, n))
            if values.random() < .5:
                self.add, self.mul = rng.sample(MANY, 2)
                self.distributive = next(n for n in MANY if n not in (self.add, self.mul))
            if values.random() < .5: self.zero, self.one = rng.sample(range(-3, 4), 2)
            self.make_field(); self.make_text(); self.make_diff(); self.make_transformer()
            return
        def call(self, *args): return type(self)(self.rep(*[a.rep for a in args]))
        def binary(head, swap):
            def method(self, other):
                if type(other) is not type(self): return NotImplemented
                return lang.head[head](*((other, self) if swap else (self, other)))
            return method
        self.ops = {n: (rng.choice(MANY), rng.random() < .5) for n in ("__add__", "__mul__", "__matmul__")}
        self.cls = type("Expr", (base,), {"__call__": call, **{n: binary(*hs) for n, hs in self.ops.items()}})
        self.Integer, self.Symbol, self.Function = (self.cls.new_atom(n, t) for n, t in (("Integer", int), ("Symbol", str), ("Function", str)))
        self.head = {n: self.Function(n) for n in HEADS}
        self.add, self.mul = rng.sample(MANY, 2)
        self.distributive = next(n for n in MANY if n not in (self.add, self.mul))
        self.zero, self.one = rng.sample(range(-3, 4), 2)
        self.make_field(); self.make_text(); self.make_diff(); self.make_transformer()

    # -- building ------------------------------------------------------------------------------------------------
    def build(self, t):
        if t[0] == "i": return self.Integer(t[1])
        if t[0] == "s": return self.Symbol(t[1])
        args = [self.build(c) for c in t[1:]]
        if len(args) == 2 and self.values.random() < .5:
            for n, (h, swap) in self.ops.items():
                if h == t[0]:
                    a, b = args[::-1] if swap else args
                    return getattr(a, n)(b)
        return self.head[t[0]](*args)

    # -- evaluation in a field -------------------------------------------------------------------------------------
    def make_field(self):
        self.salt = self.values.random()
        a, b = self.cls.new_wild("a"), self.cls.new_wild("b")
        ev = self.field = self.cls.new_evaluator("eval_f64", int)
        c = pow(self.one - self.zero, -1, P)
        self.int_value = lambda n: (n - self.zero) * c % P
        ev[self.Integer[a]] = PyFunc1(self.int_value)(a)
        ev[self.Symbol[a]] = PyFunc1(lambda s: H(self.key, s))(a)
        for n in UN: ev[self.head[n](a)] = PyOp1(self.rule(n))(a)
        for n in BIN: ev[self.head[n](a, b)] = PyOp2(self.rule(n))(a, b)
        for n in MANY: ev[self.head[n](star(a))] = PyOpN(lambda args, n=n: self.rule(n)(*args))(a)

    def rule(self, n):
        if n == self.add: return lambda *a: sum(a) % P
        if n == self.mul:
            def mul(*a):
                r = 1
                for v in a: r = r * v % P
                return r
            return mul
        k = H(self.key, n)
        if n == self.distributive: return lambda *a: sum(v * pow(k, i + 1, P) for i, v in enumerate(a)) % P
        return lambda *a: (k + sum(v * v % P * pow(k, i + 2, P) + v for i, v in enumerate(a))) % P

    def value(self, t, vals=None):
        if t[0] == "i": return self.int_value(t[1])
        if t[0] == "s": return vals[t[1]] if vals and t[1] in vals else H(self.key, t[1])
        return self.rule(t[0])(*[self.value(c, vals) for c in t[1:]])

    # -- text ------------------------------------------------------------------------------------------------------
    def make_text(self):
        self.mark = f"<{self.key % 97}>"
        a, b = self.cls.new_wild("a"), self.cls.new_wild("b")
        ev = self.text = self.cls.new_evaluator("eval_repr", str)
        ev[AtomRule[a]] = AtomFunc(lambda v: f"{v}{self.mark}")(a)
        ev[HeadRule(a, b)] = HeadOp(lambda h, s: f"{h}{self.mark}({','.join(s)})")(a, b)
        self.plain = self.values.choice(UN)
        ev[self.head[self.plain](a)] = PyOp1(lambda s: f"|{s}|")(a)
        self.hidden = self.values.random() < .5
        if self.hidden: ev[self.Integer[a]] = PyFunc1(lambda n: f"#{n}")(a)

    def show(self, t):
        if t[0] == "i" and self.hidden: return f"#{t[1]}"
        if t[0] in "is": return f"{t[1]}{self.mark}"
        args = [self.show(c) for c in t[1:]]
        if t[0] == self.plain and len(args) == 1: return f"|{args[0]}|"
        return f"{t[0]}{self.mark}({','.join(args)})"

    # -- derivatives ------------------------------------------------------------------------------------------------
    def template(self, params):
        """A random right hand side in the pattern's variables."""
        r = self.values
        if r.random() < .4: return ("s", r.choice(params))
        if r.random() < .2: return ("i", r.randrange(-2, 4))
        h = r.choice(HEADS)
        return (h, *[self.template(params) for _ in range(1 if h in UN else 2)])

    def make_diff(self):
        self.D = SymDifferentiator(self.cls, add=self.head[self.add], mul=self.head[self.mul], zero=self.Integer(self.zero), one=self.Integer(self.one))
        self.rules = {}
        self.D.add_distributive_rule(self.head[self.distributive])
        for n in UN + BIN: self.diff_rule(n)

    def diff_rule(self, n):
        params = ["a"] if n in UN else ["a", "b"]
        wild = {p: self.cls.new_wild(p) for p in params}
        def make(t):
            if t[0] == "i": return self.Integer(t[1])
            if t[0] == "s": return wild[t[1]]
            return self.head[t[0]](*[make(c) for c in t[1:]])
        for i, p in enumerate(params):
            t = self.template(params)
            self.D[self.head[n](*wild.values()), wild[p]] = make(t)
            self.rules[n, i] = (params, t)

    def dual(self, t, v):
        """Value and derivative of a term."""
        if t[0] == "i": return self.int_value(t[1]), 0
        if t[0] == "s": return H(self.key, t[1]), int(t[1] == v)
        both = [self.dual(c, v) for c in t[1:]]
        vals, ders = [b[0] for b in both], [b[1] for b in both]
        val = self.rule(t[0])(*vals)
        if t[0] == self.distributive: return val, self.rule(t[0])(*ders)
        if t[0] == self.add: return val, sum(ders) % P
        if t[0] == self.mul:
            d = 0
            for i, x in enumerate(ders):
                r = x
                for j, w in enumerate(vals):
                    if j != i: r = r * w % P
                d += r
            return val, d % P
        d = 0
        for i, x in enumerate(ders):
            if x: params, tmpl = self.rules[t[0], i]; d += x * self.value(tmpl, dict(zip(params, vals)))
        return val, d % P

    # -- rewriting ----------------------------------------------------------------------------------------------------
    def make_transformer(self):
        r = self.values
        self.swap = dict(zip(UN, r.sample(UN, len(UN)))) if r.random() < .7 else {}
        self.rename = dict(zip(SYMS, r.sample(SYMS, len(SYMS))))
        self.shift = r.randrange(5)
        self.tr = Transformer()
        for n, m in self.swap.items(): self.tr.add_op1(self.head[n].rep, lambda a, m=m: self.head[m].rep(a))
        self.tr.add_opn(self.head["h"].rep, lambda args: self.head["h"].rep(*reversed(args)))
        self.tr.add_atom(self.Symbol.atom_type, lambda s: self.Symbol(self.rename[s]).rep)
        if self.shift: self.tr.add_atom(self.Integer.atom_type, lambda n: self.Integer(n + self.shift).rep)

    def transformed(self, t):
        if t[0] == "i": return ("i", t[1] + self.shift)
        if t[0] == "s": return ("s", self.rename[t[1]])
        args = [self.transformed(c) for c in t[1:]]
        if t[0] == "h": args.reverse()
        return (self.swap.get(t[0], t[0]) if len(args) == 1 else t[0], *args)


def term(rng, n):
    if n <= 1: return ("i", rng.randrange(-3, 5)) if rng.random() < .35 else ("s", rng.choice(SYMS))
    h = rng.choice(HEADS)
    k = 1 if h in UN else 2 if h in BIN else rng.randrange(1, 4)
    return (h, *[term(rng, (n - 1) // k) for _ in range(k)])


def subterms(t):
    yield t
    if t[0] not in "is":
        for c in t[1:]: yield from subterms(c)


def replace(t, reps):
    if t in reps: return reps[t]
    return t if t[0] in "is" else (t[0], *[replace(c, reps) for c in t[1:]])


class CHECK:
    rule = "different (operation, language, term) tuples"
    evaluations = "operations"
    plan = {"quick": {"seconds": 8, "min": 5}, "thorough": {"seconds": 300, "min": 40}}
    floors = {"cases": 40, "languages": 200, "operations": 20000, "same_term_elsewhere": 10000, "rules_changed": 800, "dropped_languages": 60, "foreign_expressions": 1500, "derived_classes": 40, "dialects": 40}
    assumptions = ["derivatives are compared at one point of a field of 2^61-1 elements"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def language(self, rng, like=None):
        self.n += 1
        self.ctx.obs("languages")
        base = Sym
        if like is not None and rng.random() < .25:
            self.ctx.obs("dialects")
            return Language(self.n, None, random.Random(rng.random()), like)
        if like is not None and rng.random() < .3: base = like.cls; self.ctx.obs("derived_classes")
        return Language(self.n, base, random.Random(rng.random()))

    def case(self, rng, idx):
        ctx = self.ctx
        L = [self.language(rng)]
        while len(L) < rng.choice([2, 3, 4]): L.append(self.language(rng, rng.choice(L)))
        terms = [term(rng, rng.choice([1, 2, 4, 8, 14])) for _ in range(4)]
        kept = []
        for step in range(60):
            k = rng.random()
            if k < .06:
                g = rng.choice(L)
                for n in rng.sample(UN + BIN, 2): g.diff_rule(n)
                ctx.obs("rules_changed")
            elif k < .12:
                g = rng.choice(L)
                g.make_text() if rng.random() < .5 else g.make_transformer()
                ctx.obs("rules_changed")
            elif k < .15:
                i = rng.randrange(len(L))
                L[i] = None
                if rng.random() < .5: kept.clear(); gc.collect()
                L[i] = self.language(rng, rng.choice([g for g in L if g] or [None]))
                ctx.obs("dropped_languages")
            elif k < .25: terms[rng.randrange(4)] = term(rng, rng.choice([1, 3, 6, 12]))
            t = rng.choice(terms)
            todo = rng.sample(L, len(L)) if rng.random() < .6 else [rng.choice(L)]
            what = rng.choice(["field", "text", "diff", "transform", "subs", "identity", "values"])
            for g in todo:
                self.one(rng, g, t, what)
                ctx.obs("operations"); ctx.sig(what, g.key, t)
            if len(todo) > 1: ctx.obs("same_term_elsewhere", len(todo))
            if len(L) > 1 and rng.random() < .5:
                g, h = rng.sample(L, 2)
                if g.cls is not h.cls: self.foreign(rng, g, h, t)
            if rng.random() < .3: kept.append(rng.choice(L).build(t))
        ctx.sample({"languages": [(g.key, g.add, g.mul, g.ops) for g in L], "term": t})
        del L, g, todo, kept
        gc.collect()
        heap.scan(ctx, "after work in several languages")

    def one(self, rng, g, t, what):
        e = g.build(t)
        def fail(got, want, more=""): raise Violation(f"'{what}' of one language among others{more}: {short(got)} instead of {short(want)}", term=t, language=g.key, add=g.add, mul=g.mul)
        if what == "field":
            got, want = g.field(e), g.value(t)
            if got != want: fail(got, want)
        elif what == "values":
            vals = {s: rng.randrange(P) for s in rng.sample(SYMS, 3)}
            got, want = g.field(e, {g.Symbol(s): v for s, v in vals.items()}), g.value(t, vals)
            if got != want: fail(got, want)
        elif what == "text":
            got, want = g.text(e), g.show(t)
            if got != want: fail(got, want)
        elif what == "diff":
            v = rng.choice(SYMS)
            got, want = g.field(g.D(e, g.Symbol(v))), g.dual(t, v)[1]
            if got != want: fail(got, want, f" ({v})")
        elif what == "transform":
            got, want = g.cls(g.tr(e.rep)), g.build(g.transformed(t))
            if got is not want: fail(got, want)
        elif what == "subs":
            subs = sorted(set(subterms(t)), key=repr)
            ts = rng.sample(subs, min(len(subs), rng.choice([1, 2, 3])))
            rs = [term(rng, rng.choice([1, 3])) for _ in ts]
            got, want = g.cls(SubsFunc(e.rep, [g.build(x).rep for x in ts])(*[g.build(x).rep for x in rs])), g.build(replace(t, dict(zip(ts, rs))))
            if got is not want: fail(got, want)
        else:
            again = g.build(t)
            if again is not e or type(e) is not g.cls: fail(again, e)
            if t[0] not in "is" and (e.head is not g.head[t[0]] or any(a is not g.build(c) for a, c in zip(e.args, t[1:], strict=True))): fail((e.head, e.args), t)

    def foreign(self, rng, g, h, t):
        """Terms of one language given to another."""
        ctx = self.ctx
        a, b = g.build(t), h.build(t)
        ctx.obs("foreign_expressions")
        check(a is not b and a != b and not a == b and len({a, b}) == 2, "equal terms of two languages are equal", term=t)
        check(a.rep is not b.rep, "the trees of equal terms of two languages are one object", term=t)
        try: got = h.field(a)
        except NoEvaluationRuleError: pass
        else: raise Violation(f"an evaluator of one language gives {got} for an expression of another", term=t)
        got = h.tr(a.rep)
        check(got is a.rep, "a transformer of one language rewrites an expression of another", term=t, got=short(got))
        e = h.cls(a.rep)
        check(type(e) is h.cls and e is not a and e != a and e.rep is a.rep and h.cls(e.rep) is e and g.cls(a.rep) is a, "two classes that wrap one tree give the same object", term=t)
        v = rng.choice(SYMS)
        got = g.D(h.cls(a.rep), h.cls(g.Symbol(v).rep))
        check(type(got) is g.cls and got is g.D(a, g.Symbol(v)), "the derivative of an expression depends on the class that wraps its tree", term=t, got=short(got))
        check(g.field(e) == g.field(a) and g.text(e) == g.text(a), "an evaluation depends on the class that wraps the tree", term=t)
        v, u = g.cls.new_wild("a"), h.cls.new_wild("a")
        check(type(v) is g.cls and type(u) is h.cls and u is not v and u != v, "wilds of two languages are one object")
        x = rng.choice(list(subterms(t)))
        got = SubsFunc(a.rep, [h.build(x).rep])(h.build(("i", 5)).rep)
        check(got is a.rep, "a substitution of one language's term changes an expression of another", term=t, target=x, got=short(got))
        s = rng.choice(SYMS)
        got = h.field(b, {g.Symbol(n): 1 for n in SYMS})
        check(got == h.value(t), "values for the symbols of one language are used in another", term=t)
