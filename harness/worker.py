"""One worker process: runs cases idx = i, i+N, ... of one check."""
import argparse, gc, glob, importlib, json, os, resource, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier"); ap.add_argument("--seed", type=int)
    ap.add_argument("--i", type=int); ap.add_argument("--n", type=int)
    ap.add_argument("--out"); ap.add_argument("--only", type=int, default=None)
    a = ap.parse_args()
    mem = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from pv import load
    res = {"status": "ok"}
    prog = open(a.out + ".progress", "w")
    t0 = time.monotonic()
    ctx = None
    try:
        gc.freeze()
        load.install()
        from pv.core import Ctx, Violation, Skip, through_repo
        mod = importlib.import_module("checks." + a.prop.lower())
        ctx = Ctx(a.prop, a.tier, a.seed)
        chk = mod.CHECK(ctx)
        plan = chk.plan[a.tier]
        limit, minimum = plan["seconds"], plan.get("min", 3)
        def on_timeout(*_):
            raise CaseTimeout()
        signal.signal(signal.SIGPROF, on_timeout)
        cpu = plan.get("case_cpu", 60)
        idx, done = a.i, 0      # round k runs cases k*n ... k*n+n-1, worker i the one at i+k (mod n)
        if a.only is not None:
            idx = a.only
        total = plan.get("cases")
        def enough():
            """Whether all workers together have observed what has to be observed."""
            with open(a.out + ".counts.tmp", "w") as f:
                json.dump(ctx.counts, f)
            os.replace(a.out + ".counts.tmp", a.out + ".counts")
            together = {}
            for name in glob.glob(os.path.join(os.path.dirname(a.out), "*.counts")):
                for k, v in json.load(open(name)).items():
                    together[k] = max(together.get(k, 0), v) if k.startswith("max_") else together.get(k, 0) + v
            return all(together.get(k, 0) >= v for k, v in chk.floors.items())
        timeouts = []
        while True:
            if a.only is not None and done: break
            if total is not None and idx >= total: break
            spent = time.monotonic() - t0
            # a slow machine gets more time to observe enough
            if done >= minimum and spent > limit and a.only is None and (spent > min(4 * limit + 200, 780) or enough()): break
            prog.seek(0); prog.write(f"{idx}\n"); prog.flush()
            rng = ctx.rng(idx)
            try:
                signal.setitimer(signal.ITIMER_PROF, cpu)
                try:
                    chk.case(rng, idx)
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                ctx.obs("cases")
            except Skip:
                ctx.obs("skipped")
            except CaseTimeout:
                ctx.obs("timeouts"); timeouts.append(idx)
                if len(timeouts) >= 2: break
            except MemoryError:
                ctx.obs("memory"); timeouts.append(idx)
                if len(timeouts) >= 2: break
            except Violation as v:
                res = {"status": "violation", "idx": idx, "msg": v.msg, "mechanism": v.mechanism,
                       "detail": {k: str(x)[:4000] for k, x in v.detail.items()},
                       "trace": traceback.format_exc()[-6000:]}
                break
            except Exception as e:
                if through_repo(e):
                    res = {"status": "violation", "idx": idx, "mechanism": None,
                           "msg": f"unexpected {type(e).__name__}: {e}"[:600],
                           "detail": {}, "trace": traceback.format_exc()[-6000:]}
                elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError)):
                    # what an operation returned is nothing that the oracle can read
                    res = {"status": "violation", "idx": idx, "mechanism": None,
                           "msg": f"a result that is not of the documented kind ({type(e).__name__}: {e})"[:600],
                           "detail": {}, "trace": traceback.format_exc()[-6000:]}
                else:
                    res = {"status": "error", "idx": idx, "msg": f"{type(e).__name__}: {e}"[:600],
                           "trace": traceback.format_exc()[-6000:]}
                break
            done += 1
            idx = done * a.n + (a.i + done) % a.n
        if timeouts and res["status"] == "ok":
            res = {"status": "inconclusive", "idx": timeouts[0], "msg": f"case(s) {timeouts} ran out of CPU time or memory"}
        if res["status"] == "ok":
            fin = getattr(chk, "finish", None)
            if fin: fin()
    except Exception as e:
        # an operation that fails while the check is being set up
        bad = "through_repo" in locals() and through_repo(e) and not isinstance(e, ImportError)
        res = {"status": "violation" if bad else "error", "idx": a.only or 0, "mechanism": None, "detail": {},
               "msg": f"unexpected {type(e).__name__}: {e}"[:600], "trace": traceback.format_exc()[-6000:]}
    if ctx is not None:
        res.update(counts=ctx.counts, sigs=[s.hex() for s in ctx.sigs], samples=ctx.samples, known=ctx.known)
    res["wall"] = time.monotonic() - t0
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
