"""Runs one check: spawns workers, merges what they observed, writes evidence, gives the verdict.

usage: main.py C01 [quick|thorough]      or: main.py C01 replay FILE
"""
import importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = sys.executable

from pv.core import known_findings  # noqa: E402  (does not import protosym)


def child_env(hashseed="0"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", PV_HARNESS=HERE)
    return env


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if tier == "replay":
        r = json.load(open(sys.argv[3]))
        tier, seed, only = r["tier"], r["seed"], r["idx"]
    # Only the class attributes are needed here; protosym is imported by the workers.
    meta = json.loads(subprocess.check_output(
        [PY, os.path.join(HERE, "meta.py"), prop], env=child_env()))
    plan = meta["plan"][tier]
    ncpu = len(os.sched_getaffinity(0)) or 1
    n = 1 if only is not None else max(1, min(plan.get("workers", 8), max(2, ncpu)))
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="pv-%s-" % prop)
    procs = []
    for i in range(n):
        out = os.path.join(tmp, f"w{i}.json")
        cmd = [PY, os.path.join(HERE, "worker.py"), prop, "--tier", tier, "--seed", str(seed),
               "--i", str(i), "--n", str(n), "--out", out]
        if only is not None:
            cmd += ["--only", str(only)]
        err = open(out + ".err", "wb")
        procs.append((subprocess.Popen(cmd, env={**child_env(), "TMPDIR": tmp}, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                                       start_new_session=True, cwd=tmp), out))
    hard = time.monotonic() + plan["seconds"] + plan.get("grace", 240)
    pending = dict(enumerate(procs))
    results, verdict = {}, None

    def collect(i, p, out):
        if os.path.exists(out):
            return json.load(open(out))
        tail = open(out + ".err", "rb").read()[-3000:].decode("utf8", "replace")
        try:
            idx = int(open(out + ".progress").read().split()[0])
        except Exception:
            idx = None
        rc = p.returncode
        if "bad_alloc" in tail or "LLVM ERROR: out of memory" in tail:
            return {"status": "inconclusive", "idx": idx, "msg": "out of memory", "trace": tail}
        if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL,
                                                 signal.SIGFPE, signal.SIGABRT):
            return {"status": "violation", "idx": idx, "mechanism": None,
                    "msg": f"the process crashed with signal {signal.Signals(-rc).name}",
                    "detail": {"stderr": tail}, "trace": ""}
        return {"status": "error", "idx": idx, "msg": f"worker ended with {rc} and no result", "trace": tail}

    while pending and time.monotonic() < hard:
        for i, (p, out) in list(pending.items()):
            if p.poll() is not None:
                results[i] = collect(i, p, out)
                del pending[i]
                if results[i]["status"] == "violation" and verdict is None:
                    verdict = i
        if verdict is not None:
            break
        time.sleep(0.02)
    for i, (p, out) in pending.items():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        if verdict is None:
            results[i] = {"status": "inconclusive", "msg": "wall-clock watchdog", "idx": None}
    counts, sigs, samples, known = {}, set(), [], {}
    for r in results.values():
        for k, v in r.get("counts", {}).items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
        sigs.update(r.get("sigs", []))
        samples += r.get("samples", [])
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
    shutil.rmtree(tmp, ignore_errors=True)
    bad = [r for r in results.values() if r["status"] == "violation"]
    listed = {m: t for (p, m), t in known_findings().items() if p == prop}
    violations = [r for r in bad]
    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"],
          "coverage": {"evaluations": sum(counts.get(k, 0) for k in meta["evaluations"].split("+")), "distinct_nontrivial": len(sigs),
                       "rule": meta["rule"], "samples": samples[:6], "observed": counts, "workers": n},
          "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(violations)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        os.replace(p + ".tmp", p)
    for m, c in known.items():
        if m in listed:
            print(f"KNOWN-FINDING: property={prop} mechanism={m} {listed[m]} (seen {c} times)")
    if violations:
        r = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{prop}-{tier}-{seed}-{r.get('idx')}.json")
        json.dump({"property": prop, "tier": tier, "seed": seed, "idx": r.get("idx"), "msg": r["msg"],
                   "detail": r.get("detail"), "trace": r.get("trace")}, open(rp, "w"), indent=1)
        print(r["msg"])
        for k, v in (r.get("detail") or {}).items():
            print(f"  {k}: {v}"[:1500])
        if r.get("trace"):
            print(r["trace"][-1500:])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for s in ("error", "inconclusive"):
        rs = [r for r in results.values() if r["status"] == s]
        if rs:
            print(f"{s.upper()}: {rs[0]['msg']}\n{rs[0].get('trace', '')}")
            return 2
    low = {k: (counts.get(k, 0), v) for k, v in meta["floors"].items() if counts.get(k, 0) < v}
    if low and only is None:
        print(f"INCONCLUSIVE: too little was observed (seen, needed): {low}")
        return 2
    print(f"held: {prop} {tier} seed={seed} wall={wall:.1f}s distinct={len(sigs)} observed={counts}")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
