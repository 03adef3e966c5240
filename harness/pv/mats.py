"""Random matrices made in different ways, with their dense table of model nodes."""
import protosym.simplecas as sc
import sympy

from pv.core import Violation
from pv.gen import size


def dense_nodes(m, rng, g, shape, density, size=4):
    pool = [g.atom() for _ in range(2)] + g.pool(size)
    zero = m.int(0)
    rows = []
    for _ in range(shape[0]):
        rows.append([rng.choice(pool) if rng.random() < density else zero for _ in range(shape[1])])
    return rows


def shape(rng, big=False):
    k = rng.random()
    if big and k < .06:
        a = size(rng, 8, 100)
        b = rng.randint(1, max(1, 300 // a))
        return rng.choice([(a, b), (b, a)])
    if k < .1: return (1, 1)
    if k < .25: return (1, rng.randint(2, 7))
    if k < .4: return (rng.randint(2, 7), 1)
    if big and k < .45: return (rng.randint(8, 20), rng.randint(8, 20))
    return (rng.randint(1, 5), rng.randint(1, 5))


def construct(m, rng, build, nodes):
    """A matrix with these entries: from lists, or as a sum of matrices that have none in common."""
    k = rng.choice([1, 1, 1, 2, 3])
    if k > 1:
        z = m.int(0)
        where = [[rng.randrange(k) for _ in row] for row in nodes]
        parts = [from_lists(m, rng, build, [[n if w == p else z for n, w in zip(r, s)] for r, s in zip(nodes, where)]) for p in range(k)]
        M = parts[0]
        for p in parts[1:]: M = M + p
        # only where this leaves the entries as they are
        if M.tolist() == [[build(n) for n in row] for row in nodes]: return M
    return from_lists(m, rng, build, nodes)


def from_lists(m, rng, build, nodes):
    """The list-of-lists constructor, with native ints here and there."""
    return sc.Matrix([[m.value(n) if m.kind(n) == "Integer" and rng.random() < .5 else build(n) for n in row] for row in nodes])


def add_nodes(m, A, B):
    """What addition gives: a missing entry leaves the other one as it is."""
    z = m.int(0)
    out = []
    for ra, rb in zip(A, B):
        out.append([(b if a == z else a if b == z else m.add(a, b)) for a, b in zip(ra, rb)])
    return out
