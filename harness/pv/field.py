"""Exact evaluation in a prime field with uninterpreted functions (a randomised identity test)."""
import hashlib

P = 2**61 - 1


def h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode("utf8", "backslashreplace"), digest_size=16).digest(), "big") % P


def evaluate(m, root, salt, add="Add", mul="Mul", memo=None):
    """Sums and products are exact; symbols and all other operations are arbitrary fixed functions."""
    V = {} if memo is None else memo
    for i in m.post(root, heads=True):
        if i in V: continue
        k = m.kind(i)
        if k == "Integer": V[i] = int(m.value(i)) % P
        elif k is not None: V[i] = h(salt, k, m.value(i))
        else:
            n = m.headname(i)
            args = [V[c] for c in m.args(i)]
            if n == add: V[i] = sum(args) % P
            elif n == mul:
                v = 1
                for a in args: v = v * a % P
                V[i] = v
            else: V[i] = h(salt, V[m.head(i)], tuple(args))
    return V[root]
