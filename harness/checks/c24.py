"""C24: two or more operations on shared objects, switched between at chosen lines and bytecodes."""
import gc, sys, threading, itertools

from pv import heap
from pv.faults import spread
from pv.first import First
from pv.core import Violation, check, short
from pv.sched import Deadlock, Sched, random_switches, switches
from pv.world import DEEP, OPS, Norm, World


class CHECK:
    rule = "different (operations, variants, world, schedule) tuples"
    evaluations = "schedules+stress_rounds"
    plan = {"quick": {"seconds": 9, "min": 6, "case_cpu": 200}, "thorough": {"seconds": 400, "min": 60, "case_cpu": 400}}
    floors = {"cases": 40, "schedules": 3000, "switches": 3000, "stress_rounds": 300, "deep_rounds": 20, "first_schedules": 100, "first_use_lines": 20, "heap_scans": 40, "operations_alone": 1000}
    assumptions = ["CPython with its global interpreter lock: threads switch between bytecodes", "SymPy and llvmlite calls run undisturbed in the controlled schedules"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.first, self.refs = First(ctx, self.ref), {}
        self.n = 0
        self.byline, self.bycode = Sched(lines=True), Sched()
        for s in (self.byline, self.bycode):
            for _ in range(2): s.run([lambda: None] * 2, switches({}))
        self.names = list(OPS)

    def tag(self):
        self.n += 1
        return f"q{self.n:07d}"

    def alone(self, seed, pairs):
        """Each operation on its own, in a world nobody else has."""
        t = self.tag()
        w, norm = World(seed, t), lambda r: Norm(t)(r)
        out = {}
        for name, v in set(pairs):
            out[name, v] = norm(w.op(name, v)())
            self.ctx.obs("operations_alone")
        return out

    def ref(self, seed, name, v):
        r = self.refs.get((seed, name, v))
        if r is None:
            t = self.tag()
            r = self.refs[seed, name, v] = Norm(t)(World(seed, t, size=4).op(name, v)())
        return r

    def firsts(self, rng, k):
        """First uses of the library by two or three threads at once."""
        seed, name = rng.randrange(10 ** 9), self.names[k % len(self.names)]
        self.refs.clear()
        p = (name, rng.randrange(4))
        n, ats = self.first.points(rng, seed, p, 10 if self.ctx.tier == "quick" else 60)
        for at in [*ats, None]:
            other = rng.choice([p, (name, rng.randrange(4)), (name, rng.randrange(4)), (rng.choice(self.names), rng.randrange(4))])
            jobs = [p, other] + ([(name, rng.randrange(4))] if rng.random() < .2 else [])
            what = f"{jobs} used for the first time in {len(jobs)} threads at once, switching " + ("at random" if at is None else f"at line {at} of the first")
            out = self.first.ask(what, "together", seed, jobs, {(0, at): 1}, 0, rng.randrange(10 ** 9) if at is None else None)
            if "deadlock" in out: raise Violation(f"{what}: they block each other", world=seed, state=out["deadlock"])
            for key in ("results", "again"):
                for q, r, e in zip(jobs, out[key], out["errors"]):
                    if e is not None: raise Violation(f"{what}: {e}", world=seed)
                    self.first.same(what + (", afterwards" if key == "again" else ""), seed, q, r)
            self.ctx.obs("first_schedules"); self.ctx.sig("first", jobs, seed, at)

    def together(self, seed, warm, jobs, s, decide, first, want, what):
        """warm: operations done before; jobs: for each thread the operations it does one after the other."""
        t = self.tag()
        w, norm = World(seed, t), lambda r: Norm(t)(r)
        for p in warm: w.op(*p)()
        def thread(job):
            ops = [w.op(*p) for p in job]
            return lambda: [o() for o in ops]
        gos = [thread(job) for job in jobs]
        try: res = s.run(gos, decide, first)
        except Deadlock as d: raise Violation(f"operations on shared objects block each other: {d}", operations=jobs, schedule=what) from None
        for e, job in zip(s.errors, jobs):
            if e is not None: raise Violation(f"{type(e).__name__} in one of {job} while another operation runs: {e}", operations=jobs, schedule=what, world=seed) from e
        for rs, job in zip(res, jobs):
            for r, p in zip(rs, job):
                g = norm(r)
                if g != want[p]:
                    raise Violation(f"'{p[0]}' gives another result while other operations run", operations=jobs, before=warm, schedule=what, world=seed, got=short(g), alone=short(want[p]))
        self.ctx.obs("schedules"); self.ctx.obs("switches", s.switches)
        return s.steps

    def case(self, rng, idx):
        ctx = self.ctx
        gc.disable()
        try:
            k = idx % 4
            if k == 3: self.stress(rng)
            else:
                self.scheduled(rng, idx - idx // 4 - (k > 3))
                if k != 1: self.firsts(rng, idx // 2 + idx // 8)
        finally: gc.enable()
        gc.collect()
        heap.scan(ctx, "after concurrent operations")
        ctx.sample({"schedules so far": ctx.counts.get("schedules", 0), "stress rounds": ctx.counts.get("stress_rounds", 0)})

    def scheduled(self, rng, k):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        names = self.names
        a = names[k % len(names)]
        va = rng.randrange(4)
        other = (a, (va + rng.randrange(1, 4)) % 4)
        pair = lambda: (rng.choice(names), rng.randrange(4))
        # the same operation with other arguments, once or twice each, and another operation
        for jobs in ([[(a, va)], [other]], rng.choice([[[(a, va)], [other, (a, va)]], [[(a, va), other], [other]]]), [[(a, va)], [pair()]]):
            warm = [rng.choice([(a, va), other]) for _ in range(rng.choice([0, 0, 1, 2]))]
            third = pair()
            want = self.alone(seed, [*sum(jobs, []), third])
            self.byline.trail = trail = [[] for _ in jobs]
            n = self.together(seed, warm, jobs, self.byline, switches({}), 0, want, "one after the other")
            self.byline.trail = None
            for me, to in ((0, 1), (1, 0)):
                cap = 26 if ctx.tier == "quick" else 10 ** 9
                ats = spread(rng, trail[me], cap)
                for at in ats:
                    plan = {(me, at): to}
                    # a part of them comes back in the middle of the other
                    if rng.random() < .4 and n[to]: plan[to, rng.randrange(n[to])] = me
                    self.together(seed, warm, jobs, self.byline, switches(plan), me, want, f"by line: switches {plan}")
                    ctx.sig(jobs, warm, seed, me, at)
            for r in range(9):
                js = jobs + [[third]] if r % 3 == 2 else jobs
                p = rng.choice([.01, .05, .2, .5])
                s = self.byline if r % 2 else self.bycode
                self.together(seed, warm, js, s, random_switches(rng, len(js), p), 0, want, f"random switches with probability {p}")
                ctx.sig(js, warm, seed, r, p)

    def stress(self, rng):
        """Free-running threads, all on one world, with a very short switch interval."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        nt = rng.choice([2, 4, 6])
        rounds = 25
        names = self.names
        deeps = rng.sample(list(DEEP), 3)
        jobs = []
        for _ in range(rounds):
            if rng.random() < .12:
                jobs.append([(rng.choice(deeps if rng.random() < .7 else names), rng.randrange(4)) for _ in range(nt)])
                ctx.obs("deep_rounds")
                continue
            first = rng.choice(names)
            jobs.append([(first if rng.random() < .5 else rng.choice(names), rng.randrange(4)) for _ in range(nt)])
        distinct = sorted({p for j in jobs for p in j})
        want = self.alone(seed, distinct)
        t = self.tag()
        w, norm = World(seed, t), lambda r: Norm(t)(r)
        # a part of the operations meets objects that no earlier round has used
        gos = [[w.op(*p) for p in j] for j in jobs]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            bar = threading.Barrier(nt)
            out, errs = [[None] * rounds for _ in range(nt)], []
            def work(k):
                try:
                    for r in range(rounds):
                        bar.wait(60)
                        out[k][r] = gos[r][k]()
                except BaseException as e:
                    errs.append((e, jobs[r][k])); bar.abort()
            ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nt)]
            for x in ths: x.start()
            for x in ths: x.join(120)
        finally: sys.setswitchinterval(old)
        if any(x.is_alive() for x in ths): raise Violation("operations on shared objects never finish")
        errs = [e for e in errs if not isinstance(e[0], threading.BrokenBarrierError)]
        if errs: raise Violation(f"{type(errs[0][0]).__name__} in '{errs[0][1][0]}' in a free-running thread: {errs[0][0]}", world=seed) from errs[0][0]
        for r, k in itertools.product(range(rounds), range(nt)):
            p = jobs[r][k]
            g = norm(out[k][r])
            check(g == want[p], f"'{p[0]}' gives another result in free-running threads", jobs=jobs[r], world=seed, got=short(g), alone=short(want[p]))
        ctx.obs("stress_rounds", rounds)
        ctx.sig(seed, nt, tuple(map(tuple, jobs)))
