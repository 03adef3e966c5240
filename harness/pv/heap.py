"""Scan of the live heap: no two live objects may have the same structure."""
import gc

from protosym.core.atom import Atom
from protosym.core.sym import Sym
from protosym.core.tree import Tree

from pv.core import Violation


def instances():
    """Live Atom, Tree and Sym objects that are completely built."""
    atoms, trees, syms = [], [], []
    for o in gc.get_objects():
        t = type(o)
        if t is Atom: atoms.append(o)
        elif t is Tree: trees.append(o)
        elif isinstance(t, type) and issubclass(t, Sym): syms.append(o)
    return atoms, trees, syms


def scan(ctx=None, what="heap scan"):
    atoms, trees, syms = instances()
    seen = {}
    for o in atoms:
        try: key = ("A", id(o.atom_type), type(o.value).__name__, o.value)
        except AttributeError: continue        # never completed and reachable by nobody
        dup(seen, key, o, what)
    for o in trees:
        try: key = ("T", tuple(map(id, o.children))) if o.children else ("L", id(o.value))
        except AttributeError: continue
        dup(seen, key, o, what)
    for o in syms:
        try: key = ("S", type(o), id(o.rep))
        except AttributeError: continue
        dup(seen, key, o, what)
    n = len(atoms) + len(trees) + len(syms)
    if ctx is not None:
        ctx.obs("heap_scans"); ctx.obs("heap_objects", n)
    return n


def dup(seen, key, o, what):
    if key in seen:
        other = seen[key]
        raise Violation(f"{what}: two live {type(o).__name__} objects have the same structure",
                        first=f"{other!r:.300}", second=f"{o!r:.300}")
    seen[key] = o
