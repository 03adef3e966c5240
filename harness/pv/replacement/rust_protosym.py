"""A core for protosym in the place of its own: the same interface, written from its documentation.

It shares no code with protosym.core and counts what is asked of it in CALLS.
"""
import collections, threading, weakref

CALLS = collections.Counter()
_lock = threading.RLock()


class AtomType:
    __slots__ = ("name", "typ", "_known")

    def __init__(self, name, typ): self.name, self.typ, self._known = name, typ, weakref.WeakValueDictionary()
    def __repr__(self): return self.name
    def __call__(self, value): return Atom(self, value)


class Atom:
    __slots__ = ("__weakref__", "atom_type", "value")

    def __new__(cls, atom_type, value):
        CALLS["Atom"] += 1
        with _lock:
            me = atom_type._known.get(value)
            if me is None:
                me = object.__new__(cls)
                me.atom_type, me.value = atom_type, value
                atom_type._known[value] = me
            return me

    def __repr__(self): return "%s(%r)" % (self.atom_type.name, self.value)
    def __str__(self): return str(self.value)


_leaves, _inner = weakref.WeakKeyDictionary(), weakref.WeakValueDictionary()


class Tree:
    __slots__ = ("__weakref__", "_children", "_value", "_key")

    def __new__(cls, *children):
        CALLS["Tree"] += 1
        if not children: raise TypeError("a head is needed")
        for c in children:
            if not isinstance(c, Tree): raise TypeError(f"not a Tree: {c!r}")
        # The children are alive, so that their addresses name them; the tree keeps them alive as long as its entry is there.
        key = tuple(map(id, children))
        with _lock:
            me = _inner.get(key)
            if me is None:
                me = object.__new__(cls)
                me._children, me._value, me._key = children, None, key
                _inner[key] = me
            return me

    @classmethod
    def atom(cls, value): return Tr(value)

    @property
    def children(self): return self._children

    @property
    def value(self):
        if self._children: raise AttributeError("a compound Tree has no value")
        return self._value

    def __call__(self, *args): return Tree(self, *args)

    def _fold(self, leaf, node):
        out, todo = {}, [self]
        while todo:
            t = todo[-1]
            wait = [c for c in t._children if c not in out]
            if wait: todo.extend(wait); continue
            todo.pop()
            out[t] = node([out[c] for c in t._children]) if t._children else leaf(t._value)
        return out[self]

    def __repr__(self): return self._fold(lambda v: f"Tr({v!r})", lambda c: f"Tree({', '.join(c)})")
    def __str__(self): return self._fold(str, lambda c: f"{c[0]}({', '.join(c[1:])})")


def Tr(value):
    CALLS["Tr"] += 1
    if not isinstance(value, Atom): raise TypeError("not an Atom")
    with _lock:
        ref = _leaves.get(value)
        me = ref() if ref is not None else None
        if me is None:
            me = object.__new__(Tree)
            me._children, me._value, me._key = (), value, None
            _leaves[value] = weakref.ref(me)
        return me


def _order(expression, first, outside):
    done, out, todo = set(outside), [], [(expression, False)]
    while todo:
        t, ready = todo.pop()
        if ready: out.append(t)
        elif t not in done:
            done.add(t)
            todo.append((t, True))
            todo += [(c, False) for c in t._children[:first - 1 if first else None:-1] if c not in done]
    return out


def topological_sort(expression, *, heads=False, exclude=None):
    CALLS["topological_sort"] += 1
    return _order(expression, 0 if heads else 1, () if exclude is None else exclude)


def topological_split(expr, *, exclude=None):
    CALLS["topological_split"] += 1
    order = _order(expr, 1, () if exclude is None else exclude)
    nodes = [t for t in order if t._children]
    return [t for t in order if not t._children], {t._children[0] for t in nodes}, nodes


class ForwardGraph:
    def __init__(self, atoms, heads, operations): self.atoms, self.heads, self.operations = atoms, heads, operations
    def __eq__(self, other): return isinstance(other, ForwardGraph) and vars(self) == vars(other)
    __hash__ = None


def forward_graph(expr):
    CALLS["forward_graph"] += 1
    order = _order(expr, 1, ())
    atoms = [t for t in order if not t._children]
    nodes = [t for t in order if t._children]
    at = {t: k for k, t in enumerate([*atoms, *nodes])}
    return ForwardGraph(atoms, {t._children[0] for t in nodes}, [(t._children[0], [at[c] for c in t._children[1:]]) for t in nodes])


class SubsFunc:
    def __init__(self, expr, args):
        CALLS["SubsFunc"] += 1
        args = list(args)
        order = _order(expr, 0, args)
        hit = set(args)
        for t in order:
            if not hit.isdisjoint(t._children): hit.add(t)
        changed = [t for t in order if t in hit]
        below = {c for t in changed for c in t._children} | {expr}
        fixed = [t for t in order if t not in hit and t in below]
        at = {t: k for k, t in enumerate(args)}
        for t in [*fixed, *changed]: at[t] = len(args) + len(at) - len(set(args))
        self.nargs, self.atoms, self.result = len(args), fixed, at[expr]
        self.operations = [[at[c] for c in t._children] for t in changed]

    def __call__(self, *args): return self.call(args)

    def call(self, args):
        CALLS["SubsFunc call"] += 1
        if len(args) != self.nargs: raise TypeError("wrong number of arguments")
        now = [*args, *self.atoms]
        for ix in self.operations: now.append(Tree(*[now[k] for k in ix]))
        return now[self.result]


class DiffProperties:
    def __init__(self, zero, one, add, mul):
        self.zero, self.one, self.add, self.mul = zero, one, add, mul
        self.distributive, self.diff_rules = set(), {}

    def add_distributive(self, head): self.distributive.add(head)
    def add_diff_rule(self, head, argnum, func): self.diff_rules[head, argnum] = func


def diff_forward(expression, sym, prop):
    CALLS["diff_forward"] += 1
    zero, one, d = prop.zero, prop.one, {}
    for t in _order(expression, 1, ()):
        if not t._children: d[t] = one if t is sym else zero; continue
        head, *args = t._children
        da = [d[a] for a in args]
        if head in prop.distributive: d[t] = Tree(head, *da); continue
        terms = []
        for k, a in enumerate(da):
            if a is zero: continue
            if head is prop.add: terms.append(a)
            elif head is prop.mul: terms.append(Tree(head, *args[:k], a, *args[k + 1:]))
            else:
                p = prop.diff_rules[head, k](*args)
                terms.append(p if a is one else Tree(prop.mul, p, a))
        d[t] = zero if not terms else terms[0] if len(terms) == 1 else Tree(prop.add, *terms)
    return d[expression]
