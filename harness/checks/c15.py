"""C15: the emitted IR text: valid, one function, right at every optimisation level, no repeated work, deterministic."""
import ctypes

import numpy as np
import protosym.simplecas as sc

from pv import cgen, churn, jit, mats, num
from pv.bridge import Builder, Reader
from pv.core import Violation, check, short
from pv.gen import size
from pv.model import Model


class CHECK:
    rule = "structurally different emitted modules"
    plan = {"quick": {"seconds": 9, "min": 20}, "thorough": {"seconds": 300, "min": 150, "cases": 24000}}
    floors = {"made_and_dropped": 60, "cases": 120, "modules_verified": 200, "values_checked": 1500, "opt0": 150, "opt1": 20, "opt2": 20, "opt3": 150, "repeated_requests": 200,
              "instructions_counted": 1000, "shared": 50, "matrices": 50, "odd_names": 50, "many_arguments": 15, "very_far_powers": 8}

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C15")
        g = cgen.gen(m, rng)
        build, read = Builder(m, rng), Reader(m)
        matrix, fixed = rng.random() < .4, {}
        if matrix:
            shp = mats.shape(rng, big=rng.random() < .3)
            dense = mats.dense_nodes(m, rng, g, shp, rng.choice([.3, .7, 1]), rng.choice([2, 6]))
            if shp[1] and rng.random() < .15:
                base = rng.choice(g.syms)
                dense[rng.randrange(shp[0])][rng.randrange(shp[1])], v = num.far_power(m, rng, base); fixed = {base: v}
            obj = mats.construct(m, rng, build, dense)
            roots = [n for row in dense for n in row]
            ctx.obs("matrices")
        elif rng.random() < .05:
            syms = [m.sym(f"v{i}") for i in range(size(rng, 12, 300))]
            root = m.add(*[m.mul(m.int(i + 2), rng.choice([m.sin(s), s, m.pow(s, m.int(2))])) for i, s in enumerate(syms)])
            obj, roots = build(root), [root]
            ctx.obs("many_arguments")
        elif rng.random() < .05:
            base = rng.choice(g.syms)
            root, v = num.far_power(m, rng, base); fixed = {base: v}
            root = rng.choice([root, m.mul(g.atom(), root), m.cos(root)])
            obj, roots = build(root), [root]
            ctx.obs("very_far_powers")
        else:
            k = rng.random()
            root = g.doubling(rng.choice([4, 16])) if k < .15 else g.atom() if k < .2 else g.chain(rng.choice([20, 100])) if k < .25 else g.expr(rng.choice([2, 5, 12, 25]))
            obj, roots = build(root), [root]
        args = cgen.arguments(m, rng, roots)
        if any(not str(m.value(a)).isidentifier() for a in args): ctx.obs("odd_names")
        arglist = [build(a) for a in args]
        ir = obj.to_llvm_ir(list(arglist))
        check(isinstance(ir, str), "to_llvm_ir does not return text")
        try: mod = jit.parse(ir)
        except RuntimeError as e: raise Violation("the emitted IR is not valid", error=str(e)[:500], ir=ir[-600:])
        ctx.obs("modules_verified")
        defs = jit.definitions(mod)
        check(len(defs) == 1, lambda: f"the module defines {len(defs)} functions", ir=ir[-500:])
        fn = defs[0]
        types = [str(p.type) for p in fn.arguments]
        want = ["double"] * len(args)
        if matrix:
            check(types and types[0] in ("double*", "ptr"), lambda: f"the first parameter is {types[:1]}, not the output pointer")
            types = types[1:]
        check(types == want, lambda: f"the parameters are {types}, not {len(args)} doubles")
        ret = str(fn.type)
        # no repeated work
        ops = {}
        for b in fn.blocks:
            for ins in b.instructions:
                ops[ins.opcode] = ops.get(ins.opcode, 0) + 1
        arith = sum(v for k, v in ops.items() if k in ("fadd", "fmul", "fsub", "fdiv", "call", "frem", "fneg"))
        distinct = set()
        for r in roots:
            if r in () : continue
            distinct |= {n for n in m.post(m.bin_expand(r)) if not m.is_atom(n)}
        check(arith <= len(distinct), lambda: f"{arith} arithmetic instructions for {len(distinct)} distinct operations", expr=m.show(roots[0]), ops=ops)
        if matrix: check(ops.get("store", 0) <= len(roots), lambda: f"{ops.get('store')} stores for {len(roots)} entries")
        ctx.obs("instructions_counted", arith)
        if any(m.edges(r) >= m.size(r) for r in roots): ctx.obs("shared")
        # the same text again, with other work in between
        for _ in range(2):
            if rng.random() < .5:
                junk = [build(g.expr(3)) for _ in range(5)]; sc.lambdify(arglist, obj) if rng.random() < .2 else None; del junk
            check(obj.to_llvm_ir(list(arglist)) == ir, "the IR text differs when requested again", expr=short(obj))
            ctx.obs("repeated_requests")
        again = sc.Matrix(obj.tolist()) if matrix else Builder(m, rng)(roots[0])
        check(again.to_llvm_ir(list(arglist)) == (sc.Matrix(again.tolist()).to_llvm_ir(list(arglist)) if matrix else ir), "an equal object has another IR text", expr=short(obj))
        # values at several optimisation levels
        envs = []
        for _ in range(3):
            env = num.points(rng, args, positive=rng.random() < .8)
            if rng.random() < .8: env.update({s: v for s, v in fixed.items() if s in env})
            refs = {}
            for n in set(roots):
                try: refs[n], = cgen.reference(m, [n], env)
                except (num.Undefined, num.Unsure): ctx.obs("not_judged")
            envs.append((env, refs))
        for opt in (0, 3, rng.choice([1, 2])):
            f = (jit.matrix if matrix else jit.scalar)(ir, len(args), opt, fn.name)
            ctx.obs(f"opt{opt}")
            for env, refs in envs:
                vals = [env[a] for a in args]
                if matrix:
                    out = np.zeros(shp)
                    f(ctypes.cast(out.ctypes.data, ctypes.POINTER(ctypes.c_double)), *vals)
                    pairs = [(float(out[i, j]), dense[i][j]) for i in range(shp[0]) for j in range(shp[1])]
                else: pairs = [(f(*vals), roots[0])]
                for got, n in pairs:
                    if n not in refs: continue
                    cgen.judge(m, got, refs[n], n, env, f"IR compiled at optimisation level {opt}")
                    ctx.obs("values_checked")
        ctx.sig(matrix, tuple(m.show(n, 300) for n in roots), tuple(args))
        ctx.sample({"expr": m.show(roots[0], 120), "matrix": matrix, "arguments": len(args), "instructions": ops})
