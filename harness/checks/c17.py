"""C17: printed forms are parsed back by an independent reader."""
import protosym.simplecas as sc

from protosym.core.tree import Tr, Tree

from pv import churn, reading
from pv.bridge import KIND_TYPES, Builder
from pv.core import Violation, check, short
from pv.gen import Gen
from pv.model import Model

NAMES = ["x", "y", "z", "t", "alpha", "x1", "theta_0", "X", "lambda", "xy", "sinx", "e"]
FUNS = ["f", "g", "foo", "F1", "Max", "tan", "exp"]
TREE_NAMES = {"Tree": Tree, "Tr": Tr, **{k: t.atom_type for k, t in KIND_TYPES.items()}}
INTS = [0, 1, -1, 2, -2, 3, 10, -12, 10**30, -7]


def grouped(m, root):
    """Sums and products as binary ones, in heads too."""
    new = {}
    for i in m.post(root, heads=True):
        ch = [new[c] for c in m.children(i)]
        if not ch: new[i] = i
        elif m.headname(i) not in ("Add", "Mul"): new[i] = m.app(*ch)
        elif len(ch) == 1: new[i] = m.int(0 if m.headname(i) == "Add" else 1)
        else:
            acc = ch[1]
            for b in ch[2:]: acc = m.app(ch[0], acc, b)
            new[i] = acc
    return new[root]


def printable(m, root):
    """Not too long, and every head is a function or a compound of such."""
    n, d = {}, {}
    for i in m.post(root, heads=True):
        ch = m.children(i)
        if ch and m.is_atom(ch[0]) and m.kind(ch[0]) != "Function": return False
        n[i] = 1 + sum(n[c] for c in ch); d[i] = 1 + max((d[c] for c in ch), default=0)
    return n[root] <= 500 and d[root] <= 60


class CHECK:
    rule = "structurally different printed expressions"
    evaluations = "repr_read"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 300, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 300, "repr_read": 5000, "latex_read": 5000, "tree_forms_read": 2000, "pairs_told_apart": 10000, "powers_of_powers": 500, "negative_bases": 300,
              "shared_printed_again": 1000, "compound_heads": 500, "wide_operations": 500}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C17")
        names = rng.sample(NAMES, 5)
        kind = rng.random()
        if kind < .5: ops = {"Add": 3, "Mul": 3, "pow": 4, "sin": 1, "cos": 1, "fun": 2, "neg": 1, "sub": 1, "div": 1, "list": 1}
        elif kind < .8: ops = {"pow": 4, "neg": 1, "Mul": 1, "Add": 1, "sin": 1}
        else: ops = {"fun": 3, "list": 2, "pow": 1, "Add": 1}
        g = Gen(m, rng, names=names, ints=INTS, funs=FUNS[:rng.choice([1, 3, 7])], ops=ops, max_arity=rng.choice([2, 3, 5]), nullary=False, compound_heads=rng.random() < .4)
        texts, latexes = {}, {}
        build = Builder(m, rng)
        pool = g.pool(rng.choice([4, 10, 25]))
        if "fun" in ops: pool.append(m.app(m.fun("f"))); pool.append(m.list())
        pool += [m.sin(p) for p in pool[-3:]] + [m.app(m.fun("f"), *pool[-3:])] + [m.pow(p, q) for p in pool[-4:] for q in pool[-3:]]
        if "Add" in ops or "Mul" in ops:
            small = [p for p in pool if m.size(p) < 12] + [m.neg(p) for p in pool[:3]] + [m.int(rng.choice(INTS)) for _ in range(3)]
            for h in ("Add", "Mul"):
                k = rng.choice([130, 300]) if rng.random() < .05 else rng.choice([4, 5, 7, 12])
                pool.append(m.app(m.fun(h), *(rng.choice(small if k < 20 else small[-6:]) for _ in range(k))))
                ctx.obs("wide_operations")
        order = list(dict.fromkeys(pool))
        if rng.random() < .5: rng.shuffle(order)       # subexpressions are printed before or after what contains them
        for root in order:
            if not printable(m, root): continue
            e = build(root)
            want = grouped(m, root)
            if any(not m.is_atom(i) and not m.is_atom(m.head(i)) for i in m.post(root)): ctx.obs("compound_heads")
            text = repr(e)
            self.one(m, root, want, text, texts, False)
            ctx.obs("repr_read")
            check(str(e) == text and e.eval_repr() == text and f"{e}" == text, "str and repr of an expression differ", repr=text, str=lambda: str(e))
            lat = e.eval_latex()
            self.one(m, root, want, lat, latexes, True)
            check(e._repr_latex_() == f"${lat}$", "the two LaTeX forms differ", one=lambda: e._repr_latex_(), other=lat)
            ctx.obs("latex_read")
            if rng.random() < .4: self.tree_form(m, root, e)
            if rng.random() < .2:
                check(repr(e) == text and e.eval_latex() == lat, "printed again, an expression looks different", first=text, now=lambda: repr(e))
                ctx.obs("shared_printed_again")
            if m.headname(root) == "pow":
                b = m.args(root)[0]
                if m.headname(b) == "pow": ctx.obs("powers_of_powers")
                if m.kind(b) == "Integer" and m.value(b) < 0: ctx.obs("negative_bases")
            ctx.sig(text)
            ctx.sample({"text": text[:150], "latex": lat[:150]})
        n = len(texts); ctx.obs("pairs_told_apart", n * (n - 1) // 2)

    def one(self, m, root, want, text, seen, latex):
        form = "LaTeX" if latex else "printed"
        check(isinstance(text, str), f"the {form} form is not a string", got=lambda: short(text))
        # unary sums and products are read as their only term
        try: got = grouped(m, reading.read(m, text, latex))
        except reading.Unreadable as ex: raise Violation(f"the {form} form cannot be read ({ex})", text=text, expr=m.show(root)) from None
        if got != want: raise Violation(f"the {form} form denotes {m.show(got)} instead of {m.show(want)}", text=text)
        old = seen.setdefault(text, want)
        check(old == want, f"different expressions have the same {form} form", text=text)

    def tree_form(self, m, root, e):
        """The tree below prints as nested calls."""
        text = str(e.rep)
        try: got = reading.read(m, text)
        except reading.Unreadable as ex: raise Violation(f"the form of a Tree cannot be read ({ex})", text=text) from None
        if got != root: raise Violation(f"the form of a Tree denotes {m.show(got)} instead of {m.show(root)}", text=text)
        verbose = repr(e.rep)
        try: again = eval(verbose, dict(TREE_NAMES))
        except Exception as ex: raise Violation(f"the verbose form of a Tree is no Python expression ({type(ex).__name__})", text=verbose) from None
        check(again is e.rep, "the verbose form of a Tree denotes another one", text=verbose, tree=text)
        self.ctx.obs("tree_forms_read")
