"""Exact-ish reference arithmetic: mpmath values, double rounding bounds, Taylor jets."""
import mpmath
from mpmath import mp, mpf

PREC = 640
mp.prec = PREC
U = mpf(2) ** -53


class Undefined(Exception):
    """The real value does not exist."""


class Unsure(Exception):
    """Outside what the reference can judge (too large, ill-conditioned)."""


FAR = mpf(10) ** 40      # sin and cos beyond this lose too many of the digits
BIG, TINY = mpf(10) ** 200, mpf(10) ** -200


def exact_ints(m, root):
    """Nodes that are exact small integers (constant subtrees), as a dict."""
    ex = {}
    for i in m.post(root):
        k = m.kind(i)
        if k == "Integer":
            ex[i] = int(m.value(i)); continue
        n = m.headname(i)
        if n in ("Add", "Mul") and all(c in ex for c in m.args(i)):
            v = 0 if n == "Add" else 1
            for c in m.args(i): v = v + ex[c] if n == "Add" else v * ex[c]
            if abs(v) < 10**60: ex[i] = v
        elif n == "pow" and all(c in ex for c in m.args(i)):
            b, e = (ex[c] for c in m.args(i))
            if 0 <= e <= 40 and abs(b) < 10**4: ex[i] = b**e
    return ex


def rpow(b, e, e_int, eb=0, ee=0):
    """Real b**e; e_int is the exact integer exponent or None; eb, ee bound the error of an actual computation."""
    if eb and abs(b) <= eb and not (e_int is not None and e_int >= 0): raise Unsure("base may be zero")
    if ee and abs(e - mpmath.nint(e)) <= ee and b <= 0: raise Unsure("exponent may be an integer")
    if e_int is not None:
        if e_int == 0: return mpf(1)
        if b == 0:
            if e_int < 0: raise Undefined("0 to a negative power")
            return mpf(0)
        if abs(e_int) > 10**6 and abs(abs(b) - 1) > mpf(10) ** -3: raise Unsure("huge power")
        if abs(mpmath.log(abs(b)) * e_int) > 600: raise Unsure("huge power")
        return mpmath.power(b, e_int)
    if b == 0:
        if e == 0: raise Unsure("0**0.0")
        if e < 0: raise Undefined("0 to a negative power")
        return mpf(0)
    if b < 0:
        if e == mpmath.floor(e): raise Unsure("integer-valued exponent")
        raise Undefined("negative base, non-integer exponent")
    l = mpmath.log(b) * e
    if abs(l) > 600: raise Unsure("huge power")
    return mpmath.exp(l)


def value(m, root, env, funcs=None, bound=False, strict=False):
    """Values of all subexpressions (dict); with bound=True also double error bounds; strict: a power is one operation, not repeated multiplication, and so is a sum."""
    V, E = {}, {}
    ex = exact_ints(m, root)
    for i in m.post(root):
        k = m.kind(i)
        if i in env:
            V[i] = mpf(env[i]); E[i] = mpf(0)
            continue
        if k == "Integer":
            V[i] = mpf(int(m.value(i))); E[i] = U * abs(V[i]) if abs(V[i]) > 2**53 else mpf(0)
            continue
        if k is not None:
            raise Unsure("no value for " + m.show(i))
        n, args = m.headname(i), m.args(i)
        vs = [V[c] for c in args]
        es = [E[c] for c in args] if bound else []
        if n == "Add":
            V[i] = mpmath.fsum(vs)
            if bound:
                E[i] = sum(es) + len(vs) * U * (sum(abs(v) for v in vs) + sum(es))
                if len(vs) < 2 or strict: E[i] = sum(es) + U * (abs(V[i]) + sum(es))
        elif n == "Mul":
            v = mpmath.fprod(vs)
            V[i] = v
            if bound:
                p = mpf(1)
                for a, e in zip(vs, es): p *= abs(a) + e
                inexact = sum(a != 0 and abs(mpmath.frexp(a)[0]) != 0.5 for a in vs)     # multiplying by a power of two is exact
                E[i] = p * (1 + U) ** (inexact + 1 if inexact > 1 or any(es) else 0) - abs(v)
                if p > BIG: raise Unsure("large product")
                part = mpf(1)
                for a in vs:
                    part *= a
                    if part != 0 and not TINY < abs(part) < BIG: raise Unsure("product range")
        elif n == "pow" and len(args) == 2:
            b, e = vs
            V[i] = rpow(b, e, ex.get(args[1]), *es)
            if bound: E[i] = pow_bound(b, es[0], e, es[1], ex.get(args[1]), V[i], 8 if strict else None)
        elif n in ("sin", "cos") and len(args) == 1 and abs(vs[0]) > FAR:
            raise Unsure("argument too large to reduce")
        elif n == "sin" and len(args) == 1:
            V[i] = mpmath.sin(vs[0])
            if bound: E[i] = min(es[0], mpf(2)) * (1 + 2 * U) + 2 * U * abs(V[i])
        elif n == "cos" and len(args) == 1:
            V[i] = mpmath.cos(vs[0])
            if bound: E[i] = min(es[0], mpf(2)) * (1 + 2 * U) + 2 * U * abs(V[i])
        elif funcs and n in funcs:
            V[i] = funcs[n](*vs)
        else:
            raise Unsure("no value for head of " + m.show(i))
        if V[i] != 0 and not TINY < abs(V[i]) < BIG: raise Unsure("range")
    return (V, E) if bound else V


def far_bound(lo, hi, p, v, own):
    """For exponents far out: base between lo and hi in magnitude, exponent an exact double."""
    if lo <= 0 or abs(p) > 2**53: raise Unsure("power")
    c = [mpmath.exp(p * mpmath.log(t)) for t in (lo, hi)]
    if not all(TINY < t < BIG for t in c): raise Unsure("huge power")
    return max(abs(t - abs(v)) for t in c) + (8 + own) * U * max(c)


def pow_bound(b, eb, p, ep, p_int, v, steps=None):
    if p_int is not None:
        own = 2 * abs(p_int) if steps is None else steps
        lo, hi = abs(b) - eb, abs(b) + eb
        if p_int == 0: return 4 * U
        if p_int > 0:
            if abs(p_int) > 2000: return far_bound(lo, hi, p_int, v, own)
            lo = max(lo, mpf(0))
            return max(hi ** p_int - abs(v), abs(v) - lo ** p_int) * (1 + 8 * U) + (8 + own) * U * hi ** p_int \
                + (2 * hi ** p_int if abs(b) <= eb and p_int % 2 else 0)
        if lo <= 0: raise Unsure("pole")
        if abs(p_int) > 2000: return far_bound(lo, hi, p_int, v, own)
        return max(lo ** p_int - abs(v), abs(v) - hi ** p_int) + (8 + own) * U * lo ** p_int
    if b - eb <= 0:
        if b == 0 and eb == 0 and p - ep > 0: return mpf(0)
        raise Unsure("base near zero")
    ls = [x * y for x in (mpmath.log(b - eb), mpmath.log(b + eb)) for y in (p - ep, p + ep)]
    if max(abs(x) for x in ls) > 600: raise Unsure("huge power")
    c = [mpmath.exp(x) for x in ls]
    return max(max(c) - v, v - min(c)) + 8 * U * max(c)


# -- Taylor jets -----------------------------------------------------------

def jmul(a, b):
    n = len(a)
    return [mpmath.fdot([(a[k], b[j - k]) for k in range(j + 1)]) for j in range(n)]


def jsincos(a):
    n = len(a)
    s, c = [mpmath.sin(a[0])], [mpmath.cos(a[0])]
    for k in range(1, n):
        s.append(sum(j * a[j] * c[k - j] for j in range(1, k + 1)) / k)
        c.append(-sum(j * a[j] * s[k - j] for j in range(1, k + 1)) / k)
    return s, c


def jrecip(a):
    n = len(a)
    if a[0] == 0: raise Undefined("1/0")
    r = [1 / a[0]]
    for k in range(1, n):
        r.append(-sum(a[j] * r[k - j] for j in range(1, k + 1)) / a[0])
    return r


def jpowc(a, p, p_int):
    """a**p for a constant p (value p, exact integer p_int or None)."""
    n = len(a)
    if p_int is not None and abs(p_int) <= 64 and (p_int >= 0 or a[0] != 0):
        base = a if p_int >= 0 else jrecip(a)
        r = [mpf(1)] + [mpf(0)] * (n - 1)
        for _ in range(abs(p_int)):
            r = jmul(r, base)
        return r
    if p_int is not None and p_int < 0: raise Undefined("pole")
    if a[0] <= 0: raise Unsure("power of non-positive")
    r = [rpow(a[0], p, p_int)]
    for k in range(1, n):
        r.append(sum((p * j - (k - j)) * a[j] * r[k - j] for j in range(1, k + 1)) / (k * a[0]))
    return r


def jets(m, root, env, var, order, funcs=None):
    """Taylor coefficients (in var) of every subexpression up to order."""
    J = {}
    ex = exact_ints(m, root)
    z = [mpf(0)] * order
    for i in m.post(root):
        k = m.kind(i)
        if i == var:
            J[i] = ([mpf(env[i])] + ([mpf(1)] + z)[:order])[:order + 1]; continue
        if k == "Integer": J[i] = [mpf(int(m.value(i)))] + z; continue
        if i in env: J[i] = [mpf(env[i])] + z; continue
        if k is not None: raise Unsure("no value for " + m.show(i))
        n, args = m.headname(i), m.args(i)
        js = [J[c] for c in args]
        if n == "Add":
            J[i] = [mpmath.fsum(j[t] for j in js) for t in range(order + 1)]
        elif n == "Mul":
            r = [mpf(1)] + z
            for j in js: r = jmul(r, j)
            J[i] = r
        elif n == "pow":
            if any(c != 0 for c in js[1][1:]): raise Unsure("variable exponent")
            J[i] = jpowc(js[0], js[1][0], ex.get(args[1]))
        elif n in ("sin", "cos") and abs(js[0][0]) > FAR: raise Unsure("argument too large to reduce")
        elif n == "sin": J[i] = jsincos(js[0])[0]
        elif n == "cos": J[i] = jsincos(js[0])[1]
        elif funcs and n in funcs: J[i] = funcs[n](*js)
        else: raise Unsure("no jet for head of " + m.show(i))
        if any(abs(c) > BIG for c in J[i]): raise Unsure("range")
    return J


def close(a, b, scale=1, tol=mpf(10) ** -40):
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


FAR_EXPONENTS = [2**k + d for k in (11, 15, 16, 20, 24, 30, 31, 32, 33, 40, 48, 52) for d in (-1, 0, 1)] + [3 * 2**30, 10**6, 10**9, 10**12, 2**53]


def far_power(m, rng, base):
    """(node, value of the base): an integer power with an exponent far out."""
    n = rng.choice(FAR_EXPONENTS)
    v = 1 + rng.choice([-1, 1]) * rng.uniform(.01, 40) / n if rng.random() < .85 else 1.0
    return m.pow(base, m.int(rng.choice([-1, 1]) * n)), v * rng.choice([1, 1, -1])


def points(rng, syms, positive=None):
    """Double-valued sample points for the symbols."""
    pos = rng.random() < .6 if positive is None else positive
    env = {}
    for s in syms:
        t = rng.random()
        if t < .15: v = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
        elif t < .2 and not pos: v = float(rng.choice([0.0, -1.0, -2.5]))
        elif t < .28: v = 10.0 ** rng.uniform(-10, -.5) * (1 if pos else rng.choice([1, -1]))
        else: v = rng.uniform(.1, 2.5) if pos else rng.uniform(-2.5, 2.5)
        env[s] = v
    return env
