"""Between the model and the real objects, through protosym's public interface."""
import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.sym import Wild
from protosym.core.tree import Tr, Tree

from pv.core import Violation

KIND_TYPES = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}
ATOM_KINDS = {id(v.atom_type): k for k, v in KIND_TYPES.items()}
ATOM_KINDS[id(Wild)] = "Wild"


class Builder:
    """Builds real Expr (or Tree) objects for model nodes, by varying routes."""

    def __init__(self, m, rng=None, kinds=None, tree=False):
        self.m, self.rng, self.tree = m, rng, tree
        self.kinds = dict(KIND_TYPES)
        if kinds: self.kinds.update(kinds)
        self.memo = {}

    def atom(self, i):
        kind, v = self.m.kind(i), self.m.value(i)
        if kind == "Wild":
            e = sc.Expr.new_wild(v)
        else:
            t = self.kinds[kind]
            if isinstance(t, AtomType):
                e = Tr(t(v))
                return e if self.tree else sc.Expr(e)
            e = t(v)
        return e.rep if self.tree else e

    def __call__(self, root):
        m, memo, rng = self.m, self.memo, self.rng
        for i in m.post(root, heads=True):
            if i in memo: continue
            if m.is_atom(i):
                memo[i] = self.atom(i)
                continue
            ch = [memo[c] for c in m.children(i)]
            if self.tree:
                memo[i] = Tree(*ch) if rng is None or rng.random() < .5 else ch[0](*ch[1:])
                continue
            r = rng.random() if rng is not None else 1
            name = m.headname(i)
            if r < .3:
                memo[i] = sc.Expr(Tree(*[c.rep for c in ch]))
            elif r < .6 and name == "Add" and len(ch) == 3: memo[i] = ch[1] + ch[2]
            elif r < .6 and name == "Mul" and len(ch) == 3: memo[i] = ch[1] * ch[2]
            elif r < .6 and name == "pow" and len(ch) == 3: memo[i] = ch[1] ** ch[2]
            else:
                memo[i] = ch[0](*ch[1:])
        return memo[root]


class Reader:
    """Reads real objects back into a model."""

    def __init__(self, m, kinds=None):
        self.m, self.memo, self.keep = m, {}, []
        self.kinds = dict(ATOM_KINDS)
        if kinds: self.kinds.update({id(t): k for k, t in kinds.items()})

    def __call__(self, obj):
        t = obj if isinstance(obj, Tree) else obj.rep
        memo, m = self.memo, self.m
        stack = [t]
        while stack:
            n = stack[-1]
            if id(n) in memo:
                stack.pop(); continue
            if not isinstance(n, Tree):
                raise Violation(f"a child of an expression is a {type(n).__name__}, not a Tree")
            ch = n.children
            if not ch:
                a = n.value
                at = a.atom_type
                kind = self.kinds.get(id(at)) or f"?{at!r}"
                memo[id(n)] = m.atom(kind, a.value); self.keep.append(n)
                stack.pop(); continue
            todo = [c for c in ch if id(c) not in memo]
            if todo:
                stack.extend(todo)
            else:
                memo[id(n)] = m.app(*[memo[id(c)] for c in ch]); self.keep.append(n)
                stack.pop()
        return memo[id(t)]


def same(m, reader, obj, want, what, **detail):
    """obj must be the expression denoted by the model node want."""
    got = reader(obj)
    if got != want:
        raise Violation(f"{what}: got {m.show(got)} instead of {m.show(want)}", **detail)
