"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by[json.load(open(f))["property"]].append(f.split("/")[-2])
rows = "".join(f"| {p} | {', '.join(ids)} |\n" for p, ids in sorted(by.items()))
d = open(root + "/DESIGN.md").read()
d = re.sub(r"(\| check \| planted bugs it catches \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m[1] + rows, d)
open(root + "/DESIGN.md", "w").write(d)
print(sum(map(len, by.values())), "planted bugs")
