"""C01: histories of building, dropping, collecting and rebuilding at all levels."""
import gc

import protosym.simplecas as sc
from protosym.core.atom import Atom, AtomType
from protosym.core.sym import Sym
from protosym.core.tree import Tr, Tree

from pv import heap
from pv.core import Violation, check, short
from pv.gen import bigint, size
from pv.model import Model


class A(Sym):
    pass


class B(A):
    pass


class E2(sc.Expr):
    pass


LEVELS = {"Sym": Sym, "A": A, "B": B, "Expr": sc.Expr, "E2": E2}


class Val:
    """A hashable value whose hash always collides."""
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __hash__(self): return 7
    def __eq__(self, o): return isinstance(o, Val) and o.v == self.v
    def __repr__(self): return f"Val({self.v})"


P = 2**61 - 1
VALUES = [-1, -2, 0, P, -P, 1, P + 1, 2 * P, 2 * P + 1, 2, 10**30, -10**30, 2**64, 256, 257, 10**6,
          "", "x", "y", "-1", "x ", "X", "\0", "é", "\u0301", "a" * 1000, "a" * 1000 + "b",
          None, (), (-1,), (-2,), (0,), (P,), ((),), ("x",), ("x", "y"), ("y", "x"), (1, (2, 3)), ((1, 2), 3),
          frozenset(), frozenset([1]), frozenset([P + 1]), b"", b"x", 1.5, -2.0 ** -30, float("inf"),
          Val(1), Val(2), Val(-1), Val(Val(1)), int, str, len]

# Texts that some reading of text takes for the same: normal forms, case, spaces, escapes, signs and digits.
TEXTS = ["x", "X", "x ", " x", "x\n", "x\0", "\tx", "x2", "x\u00b2", "x\u2082", "\uff58", "\U0001d465", "\ufb01", "fi", "\u00e9", "e\u0301", "\u00df", "ss", "SS",
         "\u0130", "i", "\u0131", "I", "\u212b", "\u00c5", "A\u030a", "\u2126", "\u03a9", "\u03c9", "x_1", "x1", "x01", "x{1}", "x_{1}", "\\x", "'x'", '"x"',
         "1", "01", "1.0", "-1", "\u22121", "\u0661", "", " ", "\u200b", "x\u200b", "\u00adx", "sin", "Sin", "Add", "add", "pow", "Pow", "lambda", "None", "a" * 70, "a" * 71, "\ud800"]


class CHECK:
    rule = "different (structure, level) pairs built in the histories"
    plan = {"quick": {"seconds": 7, "min": 20}, "thorough": {"seconds": 300, "min": 100}}
    floors = {"cases": 50, "builds": 20000, "rebuilds_while_alive": 5000, "rebuilds_after_death": 1000, "collections": 100,
              "heap_scans": 100, "unequal_pairs": 20000, "colliding_hash_pairs": 100, "wide_structures": 100, "names": 2000}
    evaluations = "builds"

    def __init__(self, ctx):
        self.ctx = ctx
        self.kinds = {}
        for n in ("Integer", "Symbol", "Function", "Wild", "T"):
            for k in range(2):
                self.kinds[n + "'" * k] = AtomType(n, object)
        self.kinds["Integer''"] = AtomType("Integer", int)
        self.knames = sorted(self.kinds)
        self.big = 0

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        big = bigint(rng)
        vals = rng.sample(VALUES, rng.choice([2, 4, 12])) + rng.choice([[], [big, big + rng.choice([1, 2, -1]), -big]]) + rng.choice([[-1, -2], [0, P], [Val(1), Val(2)], [(-1,), (-2,)]])
        kinds = rng.sample(self.knames, rng.choice([1, 2, 4]))
        atoms = [m.atom(rng.choice(kinds), v) for v in vals] + [m.atom(k, vals[0]) for k in kinds]
        nodes = list(dict.fromkeys(atoms))
        # structures that differ by one small thing
        for _ in range(rng.choice([10, 30, 80])):
            k = rng.choice([1, 1, 2, 2, 3, 4, 7])
            ch = [rng.choice(nodes[-12:] if rng.random() < .4 else nodes) for _ in range(k)]
            n = m.app(*ch); nodes.append(n)
            r = rng.random()
            if r < .2: nodes.append(m.app(*ch[::-1]))
            elif r < .3: nodes.append(m.app(*ch, ch[-1]))
            elif r < .4 and k > 1: nodes.append(m.app(*ch[:-1]))
            elif r < .5 and k > 2: nodes.append(m.app(ch[0], m.app(*ch[1:])))
            elif r < .55: nodes.append(m.app(n))
        if rng.random() < .6: self.wide(rng, m, nodes)
        nodes = list(dict.fromkeys(nodes))
        held = {}       # (level, node) -> object we hold
        byid = {}       # id -> key, for the held objects
        levels = ["Atom", "Tree", *rng.sample(sorted(LEVELS), rng.choice([1, 2, 5]))]
        died = set()
        cyc = []
        thr = gc.get_threshold()
        if rng.random() < .3: gc.set_threshold(rng.choice([1, 5, 50]), 3, 3)
        try:
            for step in range(rng.choice([60, 200, 500])):
                r = rng.random()
                if r < .62:
                    node = rng.choice(nodes)
                    lv = rng.choice(levels)
                    if lv == "Atom" and not m.is_atom(node): lv = "Tree"
                    self.build(rng, m, held, byid, lv, node, died)
                elif r < .88 and held:
                    for key in rng.sample(sorted(held), min(len(held), rng.choice([1, 1, 1, 4]))):
                        o = held.pop(key)
                        byid.pop(id(o))
                        died.add(key)
                        if rng.random() < .1:
                            c = [o]; c.append(c); cyc.append(None)      # only a cycle holds it
                        o = c = None
                    ctx.obs("drops")
                elif r < .885 and held:
                    held.clear(); byid.clear(); died.update((l, n) for l in levels for n in nodes)
                elif r < .91:
                    gc.collect(); ctx.obs("collections")
                elif r < .97: self.audit(rng, m, held, byid)
                else:
                    self.pairs(rng, m, held)
            self.audit(rng, m, held, byid)
            self.pairs(rng, m, held)
            self.names(rng)
            if idx % 4 == 0: heap.scan(ctx)
            if self.big < 1 and idx // 8 >= 2:
                self.big += 1
                self.large(rng)
        finally:
            gc.set_threshold(*thr)

    def names(self, rng):
        """Atoms built with the constructors of the top level from texts that are easily taken for one another."""
        S = [sc.Symbol, sc.Function, sc.Expr.new_atom("Symbol", str), E2.new_atom("Symbol", str), sc.Expr.new_atom("Function", str)]
        held = {}
        for _ in range(rng.choice([10, 60])):
            k, text = rng.randrange(len(S)), rng.choice(TEXTS)
            text = "".join(list(text))
            e = S[k](text)
            check(type(e) is (E2 if k == 3 else sc.Expr), "an atom of another class")
            v = e.rep.value
            check(type(v.value) is str and v.value == text and v.atom_type is S[k].atom_type, lambda: f"an atom built with the text {text!r} holds {v.value!r}")
            check(held.setdefault((k, text), e) is e and Tr(S[k].atom_type(text)) is e.rep, lambda: f"the atom with the text {text!r} was built again as another object")
            self.ctx.obs("names")
        es = list(held.values())
        check(len({id(e) for e in es}) == len(es) == len(set(es)), "atoms with different kinds or texts are one object or equal")
        fx = [e(S[0]("x")) for e in es if type(e) is sc.Expr]
        check(len({id(e) for e in fx}) == len(fx) == len(set(fx)), "calls of different functions are one object or equal")

    def wide(self, rng, m, nodes):
        """Wide structures and near copies of them: one child moved, doubled, dropped, replaced."""
        for _ in range(rng.choice([1, 2])):
            k = rng.choice([8, 15, 16, 17, 18, 24, 31, 32, 33, 34, 50, 63, 64, 65, 66, 100, 127, 128, 129, 130, 257, size(rng, 50, 3000)])
            pool = rng.sample(nodes, min(len(nodes), rng.choice([2, 5, 1000])))
            ch = [rng.choice(nodes)] + [rng.choice(pool) for _ in range(k - 1)]
            out = [ch]
            for _ in range(rng.choice([3, 8])):
                c = list(rng.choice(out))
                # the places where a bounded or blocked treatment would change
                at = lambda: rng.choice([0, 1, len(c) - 1, len(c) - 2, rng.randrange(len(c)), rng.randrange(len(c))]) % len(c)
                t = rng.randrange(8)
                if t == 0: c.append(c[-1])
                elif t == 1: c.append(c[at()])
                elif t == 2: c[at()] = rng.choice(pool)
                elif t == 3:
                    i, j = at(), at()
                    c[i], c[j] = c[j], c[i]
                elif t == 4: del c[at()]
                elif t == 5: c.insert(at(), c[at()])
                elif t == 6: c = c[:1] + sorted(c[1:])
                else: c = list(dict.fromkeys(c))
                if len(c) > 1: out.append(c)
            nodes += [m.app(*c) for c in out]
            self.ctx.obs("wide_structures", len(out))

    def build(self, rng, m, held, byid, lv, node, died):
        """Build from scratch, child by child, every child by any level's route."""
        ctx = self.ctx
        tmp = {}
        for n in m.post(node, heads=True):
            if m.is_atom(n):
                at, v = self.kinds[m.kind(n)], m.value(n)
                if isinstance(v, Val): v = Val(v.v)
                a = at(v) if rng.random() < .7 else Atom(at, v)
                check(type(a) is Atom and a.atom_type is at and type(a.value) is type(v) and a.value == v,
                      lambda: f"an atom with kind {a.atom_type!r} and value {short(a.value)} was built for {m.show(n)}", wanted_kind=id(at), got_kind=id(a.atom_type))
                t = Tr(a) if rng.random() < .5 else Tree.atom(a)
                check(type(t) is Tree and t.value is a and t.children == (), lambda: f"wrong tree for the atom {m.show(n)}")
                self.seen(m, held, "Atom", n, a)
            else:
                ch = tuple(tmp[c] for c in m.children(n))
                r = rng.random()
                if r < .45: t = Tree(*ch)
                elif r < .9: t = ch[0](*ch[1:])
                else: t = sc.Expr(ch[0])(*map(sc.Expr, ch[1:])).rep
                check(type(t) is Tree and len(t.children) == len(ch) and all(x is y for x, y in zip(t.children, ch)),
                      lambda: f"the tree built for {m.show(n)} has other children", got=lambda: short(t))
            self.seen(m, held, "Tree", n, t)
            tmp[n] = t
        t = tmp[node]
        if lv == "Atom": o = t.value
        elif lv == "Tree": o = t
        else:
            o = LEVELS[lv](t)
            check(type(o) is LEVELS[lv] and o.rep is t, lambda: f"{lv}() of a tree gives a {type(o).__name__} of another tree")
        key = (lv, node)
        if key in held:
            check(o is held[key], lambda: f"building {m.show(node)} again at level {lv} gives another object")
            check(o == held[key] and not o != held[key] and hash(o) == hash(held[key]), "an object is not equal to itself")
            ctx.obs("rebuilds_while_alive")
        else:
            other = byid.get(id(o))
            check(other is None, lambda: f"one object stands for {key and m.show(node)} and {other and m.show(other[1])}", levels=(lv, other and other[0]))
            if key in died: ctx.obs("rebuilds_after_death")
            held[key] = o; byid[id(o)] = key
        ctx.obs("builds")
        if len(ctx.sigs) < 40000: ctx.sig(lv, m.show(node, 60), m.keys[node])
        ctx.sample({"level": lv, "structure": m.show(node, 100)})

    def seen(self, m, held, lv, n, o):
        h = held.get((lv, n))
        if h is not None and h is not o:
            raise Violation(f"a subexpression {m.show(n)} at level {lv} was built as another object while the first is alive")

    def audit(self, rng, m, held, byid):
        """Everything held still has its structure."""
        for (lv, n), o in list(held.items())[:60]:
            if lv == "Atom":
                ok = o.atom_type is self.kinds[m.kind(n)] and o.value == m.value(n)
            else:
                t = o if lv == "Tree" else o.rep
                ok = type(o) is (Tree if lv == "Tree" else LEVELS[lv])
                if m.is_atom(n): ok = ok and t.children == () and t.value.value == m.value(n) and t.value.atom_type is self.kinds[m.kind(n)]
                else:
                    ok = ok and len(t.children) == len(m.children(n))
                    for c, cn in zip(t.children, m.children(n)):
                        h = held.get(("Tree", cn))
                        ok = ok and (h is None or h is c)
            check(ok, lambda: f"a held object no longer denotes {m.show(n)}")
            self.ctx.obs("audited")

    def pairs(self, rng, m, held):
        items = list(held.items())
        if len(items) < 2: return
        for _ in range(120):
            (k1, o1), (k2, o2) = rng.choice(items), rng.choice(items)
            if k1 == k2: continue
            check(o1 is not o2 and not o1 == o2 and o1 != o2, lambda: f"different expressions compare equal: {m.show(k1[1])} ({k1[0]}) and {m.show(k2[1])} ({k2[0]})")
            self.ctx.obs("unequal_pairs")
            if k1[0] == k2[0] and m.is_atom(k1[1]) and m.is_atom(k2[1]) and hash(m.value(k1[1])) == hash(m.value(k2[1])):
                self.ctx.obs("colliding_hash_pairs")
        s = {o for _, o in items}
        check(len(s) == len(items), "a set of different expressions has lost some")
        check(len({o: 1 for _, o in items}) == len(items), "a dict of different expressions has lost some")

    def large(self, rng):
        """Many live objects at once: no bounded table may forget or confuse them."""
        n = 40000 if self.ctx.tier == "thorough" else 12000
        S = AtomType("S", object)
        f = Tr(AtomType("Function", str)("f"))
        ts = [Tr(S(i)) for i in range(n)]
        prev = ts[0]
        comp = []
        for t in ts:
            prev = f(t, prev) if rng.random() < .2 else f(t)
            comp.append(prev)
        es = [sc.Expr(c) for c in comp]
        check(len(set(ts)) == n and len(set(comp)) == n and len(set(es)) == n, "a large set of different expressions has duplicates")
        for i in rng.sample(range(n), 3000):
            check(Tr(S(i)) is ts[i], f"atom {i} of {n} was built again as another object")
            check(Tree(*comp[i].children) is comp[i], f"tree {i} of {n} was built again as another object")
            check(sc.Expr(Tree(*comp[i].children)) is es[i], f"expression {i} of {n} was built again as another object")
            check(ts[i].value.value == i, "an atom has another value")
        self.ctx.obs("large_histories")
        heap.scan(self.ctx)
