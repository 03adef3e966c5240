"""C07: histories of valid and malformed rule registrations against a model of the rule tables."""
import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star
from protosym.core.tree import Tr, Tree

from pv.bridge import Reader
from pv.core import Violation, check, expect_raises
from pv.gen import size
from pv.model import Model

HEADS = ["sin", "cos", "pow", "Add", "Mul", "f", "g", "h", "List", "Integer", "Wild", "P"]


class Target:
    """One evaluator with the model of its rules: tables map a slot to (style, tag)."""

    def __init__(self, kind, kinds):
        self.kind = kind
        self.ops, self.atoms, self.genop, self.genatom = {}, {}, None, None
        if kind == "core": self.real = Evaluator()
        elif kind == "transformer": self.real = Transformer()
        else: self.real = sc.Expr.new_evaluator("ev", object)

    @property
    def core(self):
        return self.real.evaluator if self.kind == "sym" else self.real


class CHECK:
    rule = "different histories of registrations (slots, styles, outcomes)"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"cases": 100, "registrations": 1000, "overrides": 200, "rejected": 800, "evaluations": 5000, "missing": 200, "transformer_evaluations": 1000, "crowds": 20}

    def __init__(self, ctx):
        self.ctx = ctx
        self.symkinds = {k: sc.Expr.new_atom(k, object) for k in ("P", "Q")}
        self.symkinds.update(Integer=sc.Integer, Symbol=sc.Symbol, Function=sc.Function)
        self.twin = sc.Expr.new_atom("P", object)       # another kind with the same name
        self.symkinds["P'"] = self.twin
        self.kinds = {k: t.atom_type for k, t in self.symkinds.items()}
        self.R = AtomType("R", int)         # the results of a transformer's rules

    # -- model ----------------------------------------------------------
    def expected(self, t, m, root, ids):
        """(value, missing?)"""
        val, missing = {}, False
        def mk(*ent):
            i = ids.setdefault(ent, len(ids))
            return m.atom("R", i) if t.kind == "transformer" else ("t", i)
        for n in m.post(root):
            if m.is_atom(n):
                tag = t.atoms.get(m.kind(n))
                if tag is not None: val[n] = mk("atom", tag, type(m.value(n)).__name__, m.value(n))
                elif t.genatom is not None: val[n] = mk("gat", t.genatom, n)
                elif t.kind == "transformer": val[n] = n
                else: missing = True; val[n] = None
            else:
                h = m.headname(n)
                r = t.ops.get(h)
                av = tuple(val[c] for c in m.args(n))
                if r is not None: val[n] = mk("op", r[0], r[1], av)
                elif t.genop is not None: val[n] = mk("gop", t.genop, m.head(n), av)
                elif t.kind == "transformer": val[n] = m.app(m.head(n), *av)
                else: missing = True; val[n] = None
        return val[root], missing

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        read = Reader(m, {**self.kinds, "R": self.R})
        ids = {}
        t = None        # the target that a rule is made for
        a, b, c = sc.a, sc.b, sc.Expr.new_wild("c")
        def made(fn):
            tr = t.kind == "transformer"
            def mk(*ent):
                i = ids.setdefault(ent, len(ids))
                return Tr(self.R(i)) if tr else ("t", i)
            arg = (lambda vs: tuple(map(read, vs))) if tr else tuple
            return fn(mk, arg)
        def opv(tag): return made(lambda mk, arg: lambda args: mk("op", "n", tag, arg(args)))
        def op1(tag): return made(lambda mk, arg: lambda x: mk("op", "1", tag, arg((x,))))
        def op2(tag): return made(lambda mk, arg: lambda x, y: mk("op", "2", tag, arg((x, y))))
        def atf(tag): return made(lambda mk, arg: lambda v: mk("atom", tag, type(v).__name__, v))
        def gop(tag): return made(lambda mk, arg: lambda h, args: mk("gop", tag, read(h), arg(args)))
        def gat(tag): return made(lambda mk, arg: lambda t: mk("gat", tag, read(t)))
        targets = [Target(rng.choice(["sym", "sym", "core", "transformer"]), None) for _ in range(rng.choice([1, 2, 3, 4]))]
        # probes: every head with suitable arguments, every atom kind
        I = m.int
        atoms = [m.sym("x"), I(1), I(-1), m.atom("P", "x"), m.atom("P'", "x"), m.atom("Q", 0), m.fun("f")]
        def call(h):
            n = {"sin": 1, "cos": 1, "pow": 2, "f": 1, "g": 2}.get(h, rng.choice([1, 2, 3]))
            return m.app(m.fun(h), *[rng.choice(probes) for _ in range(n)])
        probes = list(atoms)
        for h in HEADS: probes.append(call(h))
        for _ in range(8): probes.append(call(rng.choice(HEADS)))
        real = {}
        for n in [*atoms]:
            real[n] = self.symkinds[m.kind(n)](m.value(n))
        for n in probes:
            for i in m.post(n, heads=True):
                if i in real: continue
                real[i] = self.symkinds[m.kind(i)](m.value(i)) if m.is_atom(i) else sc.Expr(Tree(*[real[x].rep for x in m.children(i)]))
        hist = []
        tagc = [0]

        def probe(sample, why):
            for t in targets:
                if t.kind == "transformer": ctx.obs("transformer_evaluations", len(sample))
                for n in sample:
                    want, missing = self.expected(t, m, n, ids)
                    e = real[n]
                    try:
                        got = t.real(e) if t.kind == "sym" else t.real(e.rep)
                    except NoEvaluationRuleError:
                        check(missing, f"no-rule error although there is a rule ({why})", expr=m.show(n), history=hist[-6:])
                        ctx.obs("missing")
                    else:
                        check(not missing, f"a value although there is no rule ({why})", expr=m.show(n), got=got, history=hist[-6:])
                        if t.kind == "transformer": got = read(got)
                        check(got == want, f"evaluation does not follow the most recent accepted rules ({why})",
                              expr=m.show(n), got=self.back(ids, got), want=self.back(ids, want), history=hist[-6:])
                    ctx.obs("evaluations")

        probe(rng.sample(probes, 3), "no rules yet")
        for step in range(rng.choice([4, 10, 25])):
            t = rng.choice(targets)
            k = targets.index(t)
            tagc[0] += 1
            tag = tagc[0]
            if rng.random() < .6:
                slot = rng.choice(["op", "op", "op", "atom", "atom", "genop", "genatom"])
                if slot == "op":
                    h = rng.choice(HEADS)
                    ar = {"sin": 1, "cos": 1, "pow": 2, "f": 1, "g": 2}.get(h)
                    style = rng.choice({1: "1nn", 2: "2nn"}.get(ar, "n"))
                    H = sc.Function(h)
                    if t.kind != "sym":
                        if style == "1": t.real.add_op1(H.rep, op1(tag))
                        elif style == "2": t.real.add_op2(H.rep, op2(tag))
                        else: t.real.add_opn(H.rep, opv(tag))
                    else:
                        w1, w2 = rng.sample([a, b, c], 2)
                        if rng.random() < .25:
                            t.real.add_op(H, {"1": PyOp1, "2": PyOp2, "n": PyOpN}[style]({"1": op1, "2": op2, "n": opv}[style](tag)))
                        elif style == "1": t.real[H(w1)] = PyOp1(op1(tag))(w1)
                        elif style == "2": t.real[H(w1, w2)] = PyOp2(op2(tag))(w1, w2)
                        else: t.real[H(star(w1))] = PyOpN(opv(tag))(w1)
                    if h in t.ops: ctx.obs("overrides")
                    t.ops[h] = (style, tag)
                    hist.append(f"{k}: op{style} {h} #{tag}")
                    touched = [n for n in probes if m.headname(n) == h]
                elif slot == "atom":
                    kd = rng.choice(list(self.symkinds))
                    if t.kind != "sym": t.real.add_atom(self.kinds[kd], atf(tag))
                    else:
                        w = rng.choice([a, b])
                        t.real[self.symkinds[kd][w]] = PyFunc1(atf(tag))(w)
                    if kd in t.atoms: ctx.obs("overrides")
                    t.atoms[kd] = tag
                    hist.append(f"{k}: atom {kd} #{tag}")
                    touched = [n for n in atoms if m.kind(n) == kd]
                elif slot == "genop":
                    if t.kind != "sym": t.real.add_op_generic(gop(tag))
                    else: t.real[HeadRule(a, b)] = HeadOp(gop(tag))(a, b)
                    if t.genop: ctx.obs("overrides")
                    t.genop = tag
                    hist.append(f"{k}: generic op #{tag}"); touched = probes[len(atoms):]
                else:
                    if t.kind != "sym": t.real.add_atom_generic(gat(tag))
                    else: t.real[AtomRule[a]] = AtomFunc(gat(tag))(a)
                    if t.genatom: ctx.obs("overrides")
                    t.genatom = tag
                    hist.append(f"{k}: generic atom #{tag}"); touched = atoms
                ctx.obs("registrations")
                probe(rng.sample(touched, min(2, len(touched))), "right after " + hist[-1])
            else:
                t = next((x for x in targets if x.kind == "sym"), None)
                if t is None: continue
                self.malformed(rng, t, hist, opv, op1, op2, atf, gop, gat, tag)
                probe(rng.sample(probes, 3), "after the rejected " + hist[-1])
        probe(probes, "at the end")
        # a fresh evaluator knows nothing
        fresh = Target(rng.choice(["sym", "core", "transformer"]), None)
        targets.append(fresh)
        probe(rng.sample(probes, 2), "with a fresh evaluator around")
        if idx % 40 == 0: self.crowd(rng)
        ctx.sig(tuple(hist)); ctx.sample({"history": hist[:8]})
        if idx % 16 < 1:
            x, y = sc.Symbol("x"), sc.Symbol("y")
            check(repr(sc.f(x + 2, x**y)) == "f((x + 2), x**y)", "a predefined evaluator changed")
            check(abs(((x + 2) * sc.sin(y)).eval_f64({x: 1.0, y: 2.0}) - 2.727892280477045) < 1e-12, "a predefined evaluator changed")

    def crowd(self, rng):
        """One evaluator with very many rules that is used very often."""
        kind = rng.choice(["sym", "core", "transformer"])
        t = Target(kind, None)
        n = size(rng, 10, 500)
        heads = [sc.Function(f"h{i}") for i in range(n)]
        symkinds = [sc.Expr.new_atom(f"K{i % max(1, n // 3)}", object) for i in range(n // 2 + 1)]
        R = self.R
        res = (lambda *ent: Tr(R(ent))) if kind == "transformer" else (lambda *ent: ent)
        ops, atoms = {}, {}
        def op(i, tag):
            if kind != "sym":
                if i % 3 == 1: t.real.add_op1(heads[i].rep, lambda v: res("op", tag, 1))
                else: t.real.add_opn(heads[i].rep, lambda vs: res("op", tag, len(vs)))
            elif i % 3 == 1: t.real[heads[i](sc.a)] = PyOp1(lambda v: res("op", tag, 1))(sc.a)
            else: t.real[heads[i](star(sc.a))] = PyOpN(lambda vs: res("op", tag, len(vs)))(sc.a)
            ops[i] = tag
        def atom(i, tag):
            if kind != "sym": t.real.add_atom(symkinds[i].atom_type, lambda v: res("atom", tag, v))
            else: t.real[symkinds[i][sc.a]] = PyFunc1(lambda v: res("atom", tag, v))(sc.a)
            atoms[i] = tag
        def ask(i, want_atom):
            e = symkinds[i](i) if want_atom else heads[i](1)
            tag = (atoms if want_atom else ops).get(i)
            self.ctx.obs("crowd_evaluations")
            try: got = t.real(e) if kind == "sym" else t.real(e.rep)
            except NoEvaluationRuleError:
                check(tag is None and kind != "transformer", f"no-rule error although there is a rule (one of {len(ops)} + {len(atoms)})", expr=e)
                return
            if tag is None:
                check(kind == "transformer" and got is (e.rep if want_atom else heads[i].rep(res("one"))), f"a value without a rule among {len(ops)} + {len(atoms)} rules", expr=e, got=got)
                return
            want = res("atom", tag, i) if want_atom else res("op", tag, 1)
            check(got == want, f"evaluation does not follow the most recent accepted rules (with {len(ops)} + {len(atoms)} of them)", expr=e, got=got, want=want)
        if kind == "sym": t.real[sc.Integer[sc.a]] = PyFunc1(lambda v: res("one"))(sc.a)
        else: t.real.add_atom(sc.Integer.atom_type, lambda v: res("one"))
        jobs = [(op, i) for i in range(n)] + [(atom, i) for i in range(len(symkinds))]
        jobs += rng.sample(jobs, len(jobs) // 4)
        rng.shuffle(jobs)
        for k, (fn, i) in enumerate(jobs):
            fn(i, k)
            if rng.random() < .2: ask(i, fn is atom)
            if rng.random() < .1: ask(rng.randrange(n), False)
            if rng.random() < .05: ask(rng.randrange(len(symkinds)), True)
        for i in range(n): ask(i, False)
        for i in range(len(symkinds)): ask(i, True)
        self.ctx.obs("crowds")

    def malformed(self, rng, t, hist, opv, op1, op2, atf, gop, gat, tag):
        a, b, c, x = sc.a, sc.b, sc.Expr.new_wild("c"), sc.Symbol("x")
        h = rng.choice(HEADS)
        H = sc.Function(h)
        kd = rng.choice(list(self.symkinds))
        K = self.symkinds[kd]
        fns = {"PyOp1": op1(tag), "PyOp2": op2(tag), "PyOpN": opv(tag), "PyFunc1": atf(tag), "AtomFunc": gat(tag), "HeadOp": gop(tag)}
        o1, o2, on = PyOp1(fns["PyOp1"]), PyOp2(fns["PyOp2"]), PyOpN(fns["PyOpN"])
        f1, af, ho = PyFunc1(fns["PyFunc1"]), AtomFunc(fns["AtomFunc"]), HeadOp(fns["HeadOp"])
        bad = {
            "not a call": [(H(a), rng.choice([o1, fns["PyOp1"], 1, "x", a, None, H(a), K[a], (o1, a)])), (K[a], f1), (AtomRule[a], af),
                           (HeadRule(a, b), ho), (H(star(a)), on), (K[a], float), (AtomRule[a], str)],
            "different wilds": [(H(a), o1(b)), (H(b), o1(a)), (H(a, b), o2(b, a)), (H(a, b), o2(a, c)), (H(a, b), o2(c, b)), (H(a), o2(a, b)),
                                (H(a, b), o1(a)), (H(a, b), o1(b)), (H(a, b, c), o2(a, b)), (H(), o1(a)), (K[a], f1(b)),
                                (AtomRule[a], af(b)), (HeadRule(a, b), ho(b, a)), (HeadRule(a, b), ho(a, c)),
                                (H(H(a)), o1(a)), (H(a, a), o2(a, b)), (H(a, b), o2(a, a)), (a, o1(a)), (x, o1(a)), (H, o1(a))],
            "star": [(H(a), on(a)), (H(star(a)), on(b)), (H(star(b)), on(a)), (H(a, b), on(a)), (H(star(a), star(b)), on(a)),
                     (H(), on(a)), (H(a, star(b)), on(b)), (H(star(a)), o1(a)), (H(star(a), b), on(a)), (H, on(a)),
                     (K[a], on(a)), (AtomRule[a], on(a)), (HeadRule(a, b), on(a)), (H(star(star(a))), on(a))],
            "wrong wrapper": [(H(a), f1(a)), (H(a), af(a)), (H(a, b), ho(a, b)), (K[a], o1(a)), (K[a], af(a)), (AtomRule[a], o1(a)),
                              (AtomRule[a], f1(a)), (HeadRule(a, b), o2(a, b)), (K[star(a)], on(a)), (AtomRule[star(a)], on(a))],
        }
        kind = rng.choice(list(bad))
        n = rng.randrange(len(bad[kind]))
        pattern, call = bad[kind][n]
        hist.append(f"malformed: {kind} #{n} ({h}, {kd})")
        def reg(): t.real[pattern] = call
        expect_raises(BadRuleError, reg, f"malformed registration {kind} #{n} ({h}, {kd})", history=hist[-4:])
        if rng.random() < .1:
            expect_raises(BadRuleError, lambda: t.real.add_op(H, rng.choice([f1, af, ho, fns["PyOp1"], None])), "add_op with something that is not an operation")
        self.ctx.obs("rejected")

    def back(self, ids, v):
        inv = {i: e for e, i in ids.items()}
        if isinstance(v, int): return v
        return inv.get(v[1]) if isinstance(v, tuple) and len(v) == 2 else v
