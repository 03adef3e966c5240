"""Confirms planted bugs in a scratch copy of /repo and keeps them under /verif/seeded.

usage: python3 tools/plant.py SPECS.py [ID...]     SPECS.py defines BUGS, a list of dictionaries with
id, property, edits [(file, old, new)], demo (Python source), needs, breaks.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/sh\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
MINE = subprocess.run(["git", "-C", "/repo", "rev-list", "60bfaa3..HEAD"], capture_output=True, text=True).stdout.split()


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})})


def plant(b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(tmp, "repo")
        shutil.copytree("/repo", w, symlinks=True)
        sh("git checkout -q -- .", w)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1: return f"edit does not match once ({s.count(old)}): {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        # removed lines have to be lines of the original repository
        removed = 0
        for f in {f for f, _, _ in b["edits"]}:
            blame = sh(f"git blame -s --abbrev=39 HEAD -- {f}", w).stdout.splitlines()
            for h in sh(f"git diff -U0 -- {f}", w).stdout.splitlines():
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(start, start + n):
                        c = blame[k - 1].split()[0].lstrip("^")
                        if any(m.startswith(c) for m in MINE): return f"changes a line of a fix commit: {blame[k - 1]}"
                        removed += 1
        if not removed: return "removes no line of the original"
        d = os.path.join(tmp, "demo"); os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        good = sh(f"sh {d}/demo.sh", "/repo", timeout=300)
        if good.returncode: return f"demo fails without the change: {good.stdout[-500:]}{good.stderr[-1500:]}"
        bad = sh(f"sh {d}/demo.sh", w, timeout=300)
        if not bad.returncode: return f"demo passes with the change: {bad.stdout[-500:]}"
        t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider --benchmark-disable --xdoctest tests benchmarks src/protosym", w, {"PYTHONPATH": w + "/src"})
        if t.returncode: return f"tests fail: {t.stdout[-1500:]}"
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for n in ("demo.sh", "demo.py"): shutil.copy(os.path.join(d, n), out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        res = []
        for c in [b["property"], *b.get("also", [])]:
            r = sh(f"bash check.sh {c} quick", "/verif", {"PV_SRC": w + "/src"})
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            msg = [l for l in r.stdout.splitlines() if "Violation:" in l]
            res.append(f"{c}: {'caught' if hit and r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {(msg or r.stdout.splitlines()[:1] or [''])[-1][:150]}")
        return "kept; " + "; ".join(res)
    finally: shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for b in bugs:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        print(f"{b['id']:28s} {plant(b)}", flush=True)
