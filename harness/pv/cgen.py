"""Compilable expressions, arguments and reference values."""
import math

import protosym.simplecas as sc

from pv import num
from pv.core import Violation
from pv.gen import INTS, SMALL, Gen

OPS = {"Add": 4, "Mul": 4, "pow": 2, "sin": 2, "cos": 2, "neg": 1, "sub": 1, "div": 1}
ODD_NAMES = ["x", "y", "x1", "X", "_", "_out", "out", ".0", ".1", ".2", "0", "1", "a b", 'q"uote', "back\\slash", "\\22", "%x", "@f", "",
             "é", "\u4e00", "double", "ret", "jit_func1", "llvm.sin.f64", "Val", "Val1", "x'", "a;b", "a,b", "{", "}", "new\nline", "tab\t",
             "\x01", "\x7f", "null\0null", "null\0other", ".arg0", ".arg1", "entry", "x" * 300, "sin", "pow", "Add", "-1", "1.5", "!x", "#0", "()"]
# Names that could become the same when they are quoted, cut, normalised or numbered.
CONFUSABLE = [["A", "\\41", "\\5c41", "\\\\41", "\\5C41", "\\5c5c41"], ["\\", "\\5c", "\\\\", "\\5c5c", '"', "\\22", "\\5c22", '\\"'],
              [".arg0", ".arg1", ".arg2", "", "_out", ".out", "\0", "a\0"], [".0", ".1", ".2", ".3", "0", "1", "2"], ["x", "X", "x ", " x", "x\t", "x\n"],
              ["\u00e9", "e\u0301", "\\c3\\a9", "\\C3\\A9", "e"], ["1", "01", "1.0", "-1", "+1"], ["x" * 300, "x" * 299 + "y", "x" * 299, "x" * 1024, "x" * 1023 + "y"],
              ["%x", "x", "@x", "%\"x\"", "\"x\""], ["a,b", "a", "b", "a, double b", "double a"]]


def gen(m, rng, **kw):
    if "names" not in kw and rng.random() < .1: kw["names"] = rng.choice(CONFUSABLE); kw.setdefault("nsyms", rng.choice([2, 3, 5, 8]))
    kw.setdefault("names", ODD_NAMES if rng.random() < .4 else None)
    kw.setdefault("ops", OPS)
    kw.setdefault("ints", SMALL if rng.random() < .8 else INTS)
    kw.setdefault("tame", True)
    kw.setdefault("unary_ac", True)
    return Gen(m, rng, **kw)


def arguments(m, rng, roots, extra=None):
    """The symbols of the roots in random order, with some unused ones."""
    syms = list(dict.fromkeys(s for r in roots for s in m.symbols(r)))
    if extra is None: extra = rng.choice([0, 0, 1, 2]) if rng.random() < .9 else rng.choice([8, 9, 10, 12, 20])
    for _ in range(extra):
        s = m.sym(rng.choice(ODD_NAMES))
        if s not in syms: syms.append(s)
    rng.shuffle(syms)
    return syms


def reference(m, roots, env, factor=16):
    """[(value, tolerance)] or raises Undefined/Unsure."""
    out = []
    for r in roots:
        V, E = num.value(m, r, env, bound=True)
        out.append((V[r], factor * E[r] + num.mpf(10) ** -280))
    return out


def good(got, ref):
    v, tol = ref
    return isinstance(got, float) and math.isfinite(got) and abs(num.mpf(got) - v) <= tol


def judge(m, got, ref, root, env, what):
    if not good(got, ref):
        raise Violation(f"{what}: got {got!r} instead of {num.mpmath.nstr(ref[0], 20)} (tolerance {num.mpmath.nstr(ref[1], 3)})",
                        expr=m.show(root), values={m.value(s): v for s, v in env.items()})
