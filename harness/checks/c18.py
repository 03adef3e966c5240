"""C18: histories of matrix operations against dense tables of model nodes."""
import array, ast
from decimal import Decimal
from fractions import Fraction

import numpy

import protosym.simplecas as sc
import sympy

from pv import churn, field, mats
from pv.bridge import Builder, Reader
from pv.core import Violation, check, expect_raises, short
from pv.gen import Gen
from pv.model import Model

NAMES = ["x", "y", "z", "t", "u", "v", "alpha", "x1", "theta_0", "X"]


class CHECK:
    rule = "different (operation history, entries) combinations"
    plan = {"quick": {"seconds": 8, "min": 20}, "thorough": {"seconds": 300, "min": 150}}
    floors = {"made_and_dropped": 60, "cases": 100, "operations": 1000, "entries_checked": 10000, "zero_entries_checked": 2000, "additions": 200, "binops": 200, "diffs": 100,
              "rejections": 1000, "reprs": 200, "operands_rechecked": 1000, "lonely_diffs": 100, "thin_shapes": 100, "implicit_zero_meets_entry": 300}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx = self.ctx
        if rng.random() < 0.02: churn.run(self.ctx, rng, "C18")
        self.m = m = Model()
        self.read = Reader(m)
        self.build = build = Builder(m, rng)
        self.rng = rng
        g = Gen(m, rng, names=NAMES, ints=[0, 0, 1, -1, 2, 3, 10**20], max_arity=3, tame=True,
                ops={"Add": 3, "Mul": 4, "pow": 2, "sin": 2, "cos": 2, "neg": 1})
        shp = mats.shape(rng, big=True)
        if rng.random() < .06: shp = rng.choice([(1, 200), (200, 1), (40, 40), (3, 70)])
        if 1 in shp and shp != (1, 1): ctx.obs("thin_shapes")
        big = shp[0] * shp[1] > 60
        dens = rng.choice([0, .2, .5, .5, .8, 1])
        pool, hist = [], []         # pool: [matrix, nodes, key entries at creation]

        def put(M, nodes, what):
            self.same(M, nodes, what, hist)
            pool.append((M, nodes, what))
            hist.append(what)
            ctx.obs("operations")

        def fresh(shape, density):
            nodes = mats.dense_nodes(m, rng, g, shape, density, rng.choice([0, 2, 5]))
            rows = [[m.value(n) if m.kind(n) == "Integer" and rng.random() < .5 else build(n) for n in r] for r in nodes]
            return sc.Matrix(rows), nodes

        put(*fresh(shp, dens), "list")
        for _ in range(2 if big else rng.choice([3, 8, 15])):
            op = rng.choice(["list", "add", "add", "addself", "binop", "binop", "diff", "diff", "sympy", "tolist", "zero", "lonely"])
            A, a, _n = rng.choice(pool); B, b, _n = rng.choice(pool)
            if op == "list": put(*fresh(shp, rng.choice([0, .3, .6, 1])), "list")
            elif op == "lonely": self.lonely(rng, g, shp, put)
            elif op == "zero": put(*fresh(shp, rng.choice([0, .1])), "zeros")
            elif op in ("add", "addself"):
                if op == "addself": B, b = A, a
                k = rng.random()
                S = A + B if k < .6 else A.binop(B, sc.Add)
                put(S, self.added(S, a, b), "add")
                ctx.obs("additions")
            elif op == "binop":
                f = rng.choice([sc.Mul, sc.Mul, sc.Pow, sc.f, sc.Function("h"), sc.Add])
                S = A.binop(B, f)
                if f is sc.Add: put(S, self.added(S, a, b), "binop Add")
                else:
                    h = self.read(f)
                    put(S, [[m.app(h, p, q) for p, q in zip(r, s)] for r, s in zip(a, b)], f"binop {m.value(h)}")
                ctx.obs("binops")
            elif op == "diff":
                v = rng.choice(g.syms)
                if any(m.headname(n) in ("f", "h") or (m.headname(n) == "pow" and m.kind(m.args(n)[1]) != "Integer") for r in a for e in r for n in m.post(e)): continue
                if any(m.size(e) > 400 for r in a for e in r): continue
                D = A.diff(build(v))
                put(D, self.derived(D, A, a, v), "diff")
                ctx.obs("diffs")
            elif op == "sympy":
                nodes = [[rng.choice(g.syms) if rng.random() < .5 else m.int(rng.choice([0, 0, 1, -7, 10**18])) for _ in range(shp[1])] for _ in range(shp[0])]
                S = [[sympy.Symbol(m.value(n)) if m.kind(n) == "Symbol" else sympy.Integer(m.value(n)) for n in r] for r in nodes]
                cls = rng.choice([sympy.Matrix, sympy.ImmutableMatrix, sympy.SparseMatrix])
                put(sc.Matrix.from_sympy(cls(S)), nodes, "from_sympy")
            elif op == "tolist":
                L = A.tolist()
                M2 = sc.Matrix(L)
                for row in L:
                    for j in range(len(row)): row[j] = sc.Symbol("overwritten")
                L.append([]); L[0].append(sc.one)
                put(M2, a, "tolist")
                self.same(A, a, "after the list it returned was changed", hist)
            if self.grew(pool[-1][1]): break
            # no operation changes its operands
            for M, nodes, what in pool if len(pool) < 6 else rng.sample(pool, 4):
                self.same(M, nodes, f"matrix made by {what}, after {hist[-1]}", hist)
                ctx.obs("operands_rechecked")
        self.rejects(rng, shp, pool, fresh)
        ctx.sig(shp, tuple(hist), tuple(m.show(e, 60) for r in pool[-1][1] for e in r)[:40])
        ctx.sample({"shape": shp, "history": hist, "last": short(pool[-1][0], 120)})

    def lonely(self, rng, g, shp, put):
        """A matrix put together in any order in which only a few entries depend on a symbol, and its derivatives."""
        m, v = self.m, rng.choice(g.syms)
        others = [s for s in g.syms if s != v] or [m.sym("another")]
        places = [(i, j) for i in range(shp[0]) for j in range(shp[1])]
        if not places: return
        dep = set(rng.sample(places, min(len(places), rng.choice([1, 1, 1, 2]))))
        some = [m.sin(v), m.mul(v, v), m.pow(v, m.int(3)), m.mul(v, rng.choice(others)), m.add(v, m.int(1))]
        entry = {p: rng.choice(some) if p in dep else rng.choice([m.int(rng.randrange(1, 9)), rng.choice(others), m.mul(m.int(2), rng.choice(others)), m.int(0)]) for p in places}
        groups = [set() for _ in range(rng.choice([1, 2, 3]))]
        for p in places: rng.choice(groups).add(p)
        if rng.random() < .6: groups = [dep] + [g_ - dep for g_ in groups]
        S = nodes = None
        for gr in groups:
            n = [[entry[i, j] if (i, j) in gr else m.int(0) for j in range(shp[1])] for i in range(shp[0])]
            M = sc.Matrix([[self.build(e) for e in r] for r in n])
            if S is None: S, nodes = M, n
            else: S = S + M; nodes = self.added(S, nodes, n)
        put(S, nodes, "lonely")
        for _ in range(rng.choice([1, 2, 3])):
            D = S.diff(self.build(v))
            nodes = self.derived(D, S, nodes, v)
            S = D
            put(S, nodes, "lonely diff")
            self.ctx.obs("lonely_diffs")

    def grew(self, nodes):
        return any(self.m.size(e) > 1500 for r in nodes for e in r)

    def added(self, S, a, b):
        """Rows of the sum; where one term is 0 it may be left out or written out."""
        m, out = self.m, []
        z = m.int(0)
        check(S.shape == (len(a), len(a[0])), "the sum has another shape")
        for i, (ra, rb) in enumerate(zip(a, b)):
            row = []
            for j, (p, q) in enumerate(zip(ra, rb)):
                ok = {m.add(p, q)}
                if p == z: ok.add(q)
                if q == z: ok.add(p)
                if (p == z) != (q == z): self.ctx.obs("implicit_zero_meets_entry")
                got = self.read(S[i, j])
                if got not in ok: raise Violation(f"entry {(i, j)} of a sum is {m.show(got)} instead of {m.show(m.add(p, q))}")
                row.append(got)
            out.append(row)
        return out

    def derived(self, D, A, a, v):
        m, out = self.m, []
        check(D.shape == A.shape, "the derivative has another shape")
        sv = self.build(v)
        done = {}
        for i, row in enumerate(a):
            new = []
            for j, n in enumerate(row):
                if n not in done: done[n] = self.read(self.build(n).diff(sv))
                got = self.read(D[i, j])
                if got != done[n] and any(field.evaluate(m, got, s, "Add", "Mul") != field.evaluate(m, done[n], s, "Add", "Mul") for s in range(2)):
                    raise Violation(f"entry {(i, j)} of a derivative is {m.show(got)}, but the entry {m.show(n)} has the derivative {m.show(done[n])}")
                new.append(got)
            out.append(new)
        return out

    def same(self, M, nodes, what, hist):
        m, read = self.m, self.read
        nr, nc = len(nodes), len(nodes[0])
        check(type(M) is sc.Matrix and M.shape == (nr, nc) and (M.nrows, M.ncols) == (nr, nc), lambda: f"{what}: shape {getattr(M, 'shape', None)} instead of {(nr, nc)}", history=hist)
        L = M.tolist()
        check(len(L) == nr and all(len(r) == nc for r in L), f"{what}: tolist has another shape", history=hist)
        for i in range(nr):
            for j in range(nc):
                x, y, want = M[i, j], L[i][j], nodes[i][j]
                if x is not y: raise Violation(f"{what}: M[{i}, {j}] is {short(x)} but tolist has {short(y)}", history=hist)
                got = read(x)
                if got != want: raise Violation(f"{what}: entry ({i}, {j}) is {m.show(got)} instead of {m.show(want)}", history=hist)
                self.ctx.obs("entries_checked")
                if want == m.int(0): self.ctx.obs("zero_entries_checked")
        if nc and self.rng.random() < .3:
            # the table belongs to the caller
            T = M.tolist(); k = self.rng.randrange(nr)
            T[k][self.rng.randrange(nc)] = sc.Symbol("mine")
            T[k].append(1); T.append(T[0])
            check([len(r) for r in T] == [nc + (i in (k, nr) and T[i] is T[k]) for i in range(nr + 1)] and M.tolist() == [[M[i, j] for j in range(nc)] for i in range(nr)],
                  f"{what}: the rows of the table are not separate from each other or from the matrix", history=hist)
            self.ctx.obs("tables_changed")
        if nr * nc < 30 and all(m.tree_count(e) < 200 for r in nodes for e in r) and self.rng.random() < .3:
            for text in (repr(M), str(M)):
                try: t = ast.parse(text, mode="eval").body
                except SyntaxError: raise Violation(f"{what}: unreadable printed form {text}", history=hist) from None
                ok = isinstance(t, ast.Call) and getattr(t.func, "id", "") == "Matrix" and len(t.args) == 1 and isinstance(t.args[0], ast.List) and len(t.args[0].elts) == nr
                ok = ok and all(isinstance(r, ast.List) and len(r.elts) == nc for r in t.args[0].elts)
                check(ok, f"{what}: the printed form is not a {nr} x {nc} table: {text}", history=hist)
                for i, r in enumerate(t.args[0].elts):
                    for j, e in enumerate(r.elts):
                        w = ast.dump(ast.parse(repr(L[i][j]), mode="eval").body)
                        check(ast.dump(e) == w, f"{what}: entry ({i}, {j}) is printed as something else", text=text, entry=short(L[i][j]), history=hist)
            self.ctx.obs("reprs")

    def rejects(self, rng, shp, pool, fresh):
        M, nodes, _ = rng.choice(pool)
        nr, nc = shp
        for ij in [(nr, 0), (0, nc), (nr, nc), (nr + 3, 0), (0, 10**30), (-1, 0), (0, -1), (-nr, -nc), (-nr - 1, 0), (nc, nr) if nr != nc else (nr, 0)]:
            expect_raises(IndexError, lambda: M[ij], f"index {ij} of a matrix of shape {shp}"); self.ctx.obs("rejections")
        for ij in [0, (0,), (0, 0, 0), "00", None, (0, 0.0), (0.0, 0), (0.0, 0.0), (Fraction(0), 0), (0, Fraction(0)), (Decimal(0), 0), (0j, 0), (0.5, 0), (numpy.int64(0), 0), (0, numpy.float64(0)), range(2), range(0, 1), bytes(2), b"\0\1", bytearray(2),
                   array.array("i", [0, 0]), {0: 0, 1: 1}, {0, 1}, frozenset([0, 1]), numpy.array([0, 0]), ("0", 0), slice(None), (slice(None), 0), [0, 0], (sc.zero, 0), (0, None)]:
            expect_raises((TypeError, IndexError), lambda: M[ij], f"index {ij!r}"); self.ctx.obs("rejections")
        class Index:
            """Can be used as an index of lists, but is no int."""
            def __index__(self): return 0
            def __eq__(self, o): return o == 0
            def __hash__(self): return hash(0)
        for ij in ((Index(), 0), (0, Index())): expect_raises(TypeError, lambda: M[ij], "index that is no int"); self.ctx.obs("rejections")
        class Other:
            """Knows what to do with matrices."""
            def __radd__(self, o): return ("radd", o)
        r = M + Other()
        check(r[0] == "radd" and r[1] is M, "the reflected addition of another type is not used")
        x, y = sc.Symbol("x"), sc.Symbol("y")
        ragged = [[rng.choice([0, 1, x, y]) for _ in range(nc)] for _ in range(rng.choice([2, 3, 4, 6]))]
        i, j = rng.sample(range(len(ragged)), 2)
        k = rng.randint(1, nc)
        ragged[j] += ragged[i][:k]; del ragged[i][:k]         # as many entries as a full table has
        odd = [[x] * nc for _ in range(rng.choice([2, 5]))]
        odd[rng.randrange(len(odd))] = [y] * rng.choice([n for n in (0, nc - 1, nc + 1, 2 * nc, 3 * nc) if n != nc])
        for bad in [ragged, odd, [[1, 2], [1], [3, 4, 5], [1, 2]], [[1, 2], [], [1, 2, 3, 4], [1, 2]], [[1], [2, 3], [4]], [[x, 1], [y]], [[x], [y, 1]], [[x], []], [[], [x]], [[x, y], [x, y], [x]], ((x, y), (x, y)), [(x, y), (x, y)], ([x], [y]), [x, y], x, 5, None, "ab", ["ab"],
                    [[x, 1.5]], [[x, None]], [["x"]], [[x], [object()]], [[[x]]], M, {0: [x]}, [[x], None]]:
            expect_raises((TypeError, ValueError), lambda: sc.Matrix(bad), f"Matrix({short(bad, 60)})"); self.ctx.obs("rejections")
        for s2 in {(nr + 1, nc), (nr, nc + 1), (nc, nr), (nr * nc, 1), (1, nr * nc), (max(1, nr - 1), nc), (1, 1)} - {(nr, nc)}:
            if s2[0] * s2[1] > 500: continue
            O, o = fresh(s2, rng.choice([0, .5, 1]))
            for go in (lambda: M + O, lambda: O + M, lambda: M.binop(O, sc.Mul), lambda: O.binop(M, sc.Add), lambda: M.binop(O, sc.f)):
                expect_raises((TypeError, ValueError), go, f"operation on shapes {shp} and {s2}"); self.ctx.obs("rejections")
        for bad in (1, x, None, [[x]], M.tolist(), sympy.zeros(nr, nc)):
            if isinstance(bad, sympy.MatrixBase): continue
            expect_raises(TypeError, lambda: M + bad, f"matrix + {short(bad, 40)}"); self.ctx.obs("rejections")
        for bad in (1, None, "x", sympy.Symbol("x")):
            expect_raises(TypeError, lambda: M.diff(bad), f"diff with respect to {bad!r}"); self.ctx.obs("rejections")
        self.same(M, nodes, "after rejected operations", [])
