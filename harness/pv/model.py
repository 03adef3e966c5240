"""Independent model of expressions: hash-consed tuples with iterative algorithms.

A node is an int index into Model.keys; a key is ("a", kind, tag, value) for an atom (tag is the type
name of the value, so that 1 and True stay apart) or a tuple of child indices (head first) for a
compound.  Nothing here imports protosym.
"""


class Model:
    def __init__(self):
        self.index = {}
        self.keys = []

    # -- construction -------------------------------------------------
    def _intern(self, key):
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.keys)
            self.keys.append(key)
        return i

    def atom(self, kind, value):
        return self._intern(("a", kind, type(value).__name__, value))

    def app(self, *children):
        assert children
        return self._intern(tuple(children))

    def sym(self, name): return self.atom("Symbol", name)
    def int(self, n): return self.atom("Integer", n)
    def fun(self, name): return self.atom("Function", name)
    def add(self, *args): return self.app(self.fun("Add"), *args)
    def mul(self, *args): return self.app(self.fun("Mul"), *args)
    def pow(self, b, e): return self.app(self.fun("pow"), b, e)
    def sin(self, x): return self.app(self.fun("sin"), x)
    def cos(self, x): return self.app(self.fun("cos"), x)
    def list(self, *args): return self.app(self.fun("List"), *args)
    def neg(self, x): return self.mul(self.int(-1), x)
    def sub(self, a, b): return self.add(a, self.neg(b))
    def div(self, a, b): return self.mul(a, self.pow(b, self.int(-1)))

    # -- access -------------------------------------------------------
    def is_atom(self, i): return self.keys[i][0] == "a"
    def children(self, i):
        k = self.keys[i]
        return () if k[0] == "a" else k
    def head(self, i): return self.keys[i][0]
    def args(self, i): return self.keys[i][1:] if not self.is_atom(i) else ()
    def kind(self, i): return self.keys[i][1] if self.is_atom(i) else None
    def value(self, i): return self.keys[i][3]
    def headname(self, i):
        """Name of the function applied at i, or None."""
        if self.is_atom(i): return None
        h = self.keys[i][0]
        return self.keys[h][3] if self.keys[h][0] == "a" and self.keys[h][1] == "Function" else None

    def show(self, i, limit=400):
        """Prefix text of a node (cut off when long)."""
        out, n, stack = [], 0, [i]
        while stack and n < limit:
            t = stack.pop()
            if isinstance(t, str):
                s = t
            elif self.is_atom(t):
                s = str(self.value(t)) if self.kind(t) in ("Symbol", "Function", "Integer") else f"{self.kind(t)}:{self.value(t)!r}"
            else:
                ch = self.keys[t]
                stack.append(")")
                for k, c in enumerate(reversed(ch[1:])):
                    if k: stack.append(", ")
                    stack.append(c)
                stack.append("(")
                stack.append(ch[0])
                continue
            out.append(s); n += len(s)
        return "".join(out) + ("..." if stack else "")

    # -- traversal ----------------------------------------------------
    def post(self, root, heads=False, exclude=()):
        """Distinct nodes reachable from root in some children-first order."""
        ex = set(exclude)
        if root in ex: return []
        seen, out, stack = {root}, [], [(root, 0)]
        while stack:
            node, k = stack.pop()
            ch = self.children(node) if heads else self.args(node)
            while k < len(ch):
                c = ch[k]; k += 1
                if c not in seen and c not in ex:
                    seen.add(c)
                    stack.append((node, k)); stack.append((c, 0))
                    break
            else:
                out.append(node)
        return out

    def size(self, root): return len(self.post(root))
    def edges(self, root): return sum(len(self.args(i)) for i in self.post(root))

    def tree_count(self, root):
        n = {}
        for i in self.post(root):
            n[i] = 1 + sum(n[c] for c in self.args(i))
        return n[root]

    def depth(self, root):
        n = {}
        for i in self.post(root):
            n[i] = 1 + max((n[c] for c in self.args(i)), default=0)
        return n[root]

    def symbols(self, root):
        return [i for i in self.post(root) if self.kind(i) == "Symbol"]

    # -- rewriting ----------------------------------------------------
    def subst(self, root, reps):
        """Replace outermost occurrences of the keys of reps simultaneously (heads too)."""
        new = dict(reps)
        for i in self.post(root, heads=True, exclude=reps):
            ch = self.children(i)
            new[i] = self.app(*[new[c] for c in ch]) if ch else i
        return new[root]

    def bin_expand(self, root):
        new = {}
        for i in self.post(root):
            if self.is_atom(i):
                new[i] = i
                continue
            h, args = self.head(i), [new[c] for c in self.args(i)]
            name = self.headname(i)
            if name in ("Add", "Mul"):
                if not args:
                    new[i] = self.int(0 if name == "Add" else 1)
                else:
                    acc = args[0]
                    for b in args[1:]:
                        acc = self.app(h, acc, b)
                    new[i] = acc
            else:
                new[i] = self.app(h, *args)
        return new[root]

    def copy_from(self, other, root):
        """Import a node of another model."""
        new = {}
        for i in other.post(root, heads=True):
            k = other.keys[i]
            new[i] = self._intern(k) if k[0] == "a" else self.app(*[new[c] for c in k])
        return new[root]
