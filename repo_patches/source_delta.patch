From 70caaac9b0351fc007f17a75549c98c3dc6ae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/14] fix: return the right argument when substituting the
 whole expression

SubsFunc(x, [x, y])(1, 2) returned 2 because the top of the stack is the last
argument if the expression is itself one of the arguments. The same made
x.xreplace({x: y, y: z}) give z and a rule like diff[F(a, b), a] = a give b.
---
 src/protosym/core/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..6870368 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,9 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # The result is not always at the top of the stack because expr can
+        # itself be one of the args.
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +526,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From 632bf434273051273d62a1cb4c55b058dfd830b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/14] fix: make the global stores of expressions safe between
 threads

WeakValueDictionary.setdefault is not atomic so two threads creating the same
Atom, Tree or Sym could each get their own object, which then compare unequal.
---
 src/protosym/core/atom.py     |  3 ++-
 src/protosym/core/sym.py      |  3 +--
 src/protosym/core/tree.py     |  2 +-
 src/protosym/core/weakdict.py | 37 +++++++++++++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 4 deletions(-)
 create mode 100644 src/protosym/core/weakdict.py

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..619fa28 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -10,7 +10,8 @@ from typing import Any, cast
 from typing import Generic as _Generic
 from typing import Hashable as _Hashable
 from typing import TypeVar as _TypeVar
-from weakref import WeakValueDictionary as _WeakDict
+
+from protosym.core.weakdict import AtomicWeakDict as _WeakDict
 
 __all__ = [
     "Atom",
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..645a56e 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -16,13 +16,12 @@ from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 if _TYPE_CHECKING:
     from typing_extensions import Self
 
-from weakref import WeakValueDictionary as _WeakDict
-
 from protosym.core.atom import AtomType
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
 from protosym.core.tree import SubsFunc, Tr, Tree
+from protosym.core.weakdict import AtomicWeakDict as _WeakDict
 
 __all__ = ["Sym", "SymAtomType", "SymEvaluator"]
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 6870368..9b816f4 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,9 +7,9 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
-from weakref import WeakValueDictionary as _WeakDict
 
 from protosym.core.atom import Atom, AtomType
+from protosym.core.weakdict import AtomicWeakDict as _WeakDict
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
diff --git a/src/protosym/core/weakdict.py b/src/protosym/core/weakdict.py
new file mode 100644
index 0000000..d0fed1d
--- /dev/null
+++ b/src/protosym/core/weakdict.py
@@ -0,0 +1,37 @@
+"""Weak-value dictionary with an atomic ``setdefault``."""
+
+from __future__ import annotations
+
+from threading import RLock as _RLock
+from typing import TYPE_CHECKING as _TYPE_CHECKING
+from typing import Any
+from weakref import WeakValueDictionary
+
+__all__ = ["AtomicWeakDict"]
+
+
+if _TYPE_CHECKING:
+    AtomicWeakDict = WeakValueDictionary
+
+else:
+
+    class AtomicWeakDict(WeakValueDictionary):
+        """``WeakValueDictionary`` whose ``setdefault`` is safe between threads.
+
+        The ``setdefault`` method inherited from ``WeakValueDictionary`` is a
+        lookup followed by an insertion so that two threads calling it at the
+        same time for the same key can end up with different objects. The
+        global stores of expressions depend on there never being two objects
+        for the same key.
+        """
+
+        def __init__(self) -> None:
+            super().__init__()
+            # Reentrant because hashing or comparing keys and garbage
+            # collection can run arbitrary code.
+            self._lock = _RLock()
+
+        def setdefault(self, key: Any, default: Any = None) -> Any:
+            """Return the existing value for ``key`` or else insert ``default``."""
+            with self._lock:
+                return super().setdefault(key, default)
-- 
2.43.0


From 302df6c015db3f278b9d55de91b9180e4c4a0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 03/14] fix: convert empty tuples and calls without arguments
 from SymPy

Matrix.from_sympy raised NotImplementedError for any zero matrix because the
list of its elements is an empty Tuple.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From e13546ba54760599b6cbc84c33e30f47925ee6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 04/14] fix: reject Tree() which is neither an atom nor
 compound

copy.copy of a Tree makes Tree() and then sets its attributes, so all copies
were the same object and each copy changed the earlier ones.
---
 src/protosym/core/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 9b816f4..86277cd 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -117,6 +117,9 @@ class Tree:
 
     def __new__(cls, *children: Tree) -> Tree:
         """Return a prevously created Tree or a new one."""
+        if not children:
+            raise TypeError("A compound Tree needs at least a head.")
+
         previous = _all_trees.get(children, None)
         if previous is not None:
             return previous
-- 
2.43.0


From beedf234feb43170cd01a10d6d63c6ac6ff057a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 05/14] fix: use a value given for an atom even if it is None

eval_forward ignored the value where eval_recursive used it.
---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From fe3de0a07bffde41fdfa280993fbb87a5ef1f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/14] fix: expand empty sums and products to their neutral
 element

Add().bin_expand() and compiling any expression containing Add() or Mul()
raised TypeError although they evaluate to 0 and 1.
---
 src/protosym/simplecas/expr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/expr.py b/src/protosym/simplecas/expr.py
index dcfe686..8d44c5a 100644
--- a/src/protosym/simplecas/expr.py
+++ b/src/protosym/simplecas/expr.py
@@ -557,8 +557,12 @@ Mul = Function("Mul")
 List = Function("List")
 
 bin_expand = Transformer()
-bin_expand.add_opn(Add.rep, lambda args: reduce(Add.rep, args))
-bin_expand.add_opn(Mul.rep, lambda args: reduce(Mul.rep, args))
+bin_expand.add_opn(
+    Add.rep, lambda args: reduce(Add.rep, args) if args else zero.rep
+)
+bin_expand.add_opn(
+    Mul.rep, lambda args: reduce(Mul.rep, args) if args else one.rep
+)
 
 #
 # An evaluator to count the size of an expression tree.
-- 
2.43.0


From ad7cf6493da7ec9360095710f85f506dc438ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 07/14] fix: print brackets around a base that is a power or
 negative

(x**2)**3 and x**2**3 were both printed as x**2**3, Pow(-1, 2) as -1**2 and
the LaTeX x^{2}^{3} is not even valid.
---
 src/protosym/simplecas/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..b16ffa2 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -57,13 +57,27 @@ eval_f64[cos(a)] = f64_cos(a)
 #                                                                           #
 # ------------------------------------------------------------------------- #
 
+
+def bracket_base(base: str, pow_op: str) -> str:
+    """Put brackets around a printed base that is a power or is negative."""
+    depth = 0
+    for n, char in enumerate(base):
+        if char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+        elif depth == 0 and base.startswith(pow_op, n):
+            return f"({base})"
+    return f"({base})" if base.startswith("-") else base
+
+
 repr_atom = AtomFunc[str](str)
 repr_call = HeadOp[str](lambda head, args: f'{head}({", ".join(args)})')
 str_from_int = PyFunc1[int, str](str)
 str_from_str = PyFunc1[str, str](str)
 repr_add = PyOpN[str](lambda args: f'({" + ".join(args)})')
 repr_mul = PyOpN[str](lambda args: f'({"*".join(args)})')
-repr_pow = PyOp2[str](lambda b, e: f"{b}**{e}")
+repr_pow = PyOp2[str](lambda b, e: f"{bracket_base(b, '**')}**{e}")
 
 
 eval_repr[HeadRule(a, b)] = repr_call(a, b)
@@ -83,7 +97,7 @@ eval_repr[a**b] = repr_pow(a, b)
 
 latex_add = PyOpN(lambda args: f'({" + ".join(args)})')
 latex_mul = PyOpN(lambda args: "(" + r" \times ".join(args) + ")")
-latex_pow = PyOp2(lambda b, e: f"{b}^{{{e}}}")
+latex_pow = PyOp2(lambda b, e: f"{bracket_base(b, '^')}^{{{e}}}")
 latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
-- 
2.43.0


From a3e5973b7cc351fb58aadee2755f424abc2b8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 08/14] fix: apply Matrix.binop to zero entries for operations
 other than Add

A.binop(B, Mul) returned the entry of the other matrix where one entry was 0.
---
 src/protosym/simplecas/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protosym/simplecas/matrix.py b/src/protosym/simplecas/matrix.py
index 9dc7c5c..c5ccbf7 100644
--- a/src/protosym/simplecas/matrix.py
+++ b/src/protosym/simplecas/matrix.py
@@ -112,6 +112,10 @@ class Matrix:
         """Elementwise binary operaton on two matrices."""
         if self.shape != other.shape:
             raise TypeError("Shape mismatch.")
+        if func != Add:
+            # Only for Add can a missing (zero) entry be skipped.
+            rows = zip(self.tolist(), other.tolist())
+            return Matrix([[func(a, b) for a, b in zip(*ab)] for ab in rows])
         new_elements = self.elements.copy()
         new_entrymap = self.entrymap.copy()
         for ij, n_other in other.entrymap.items():
-- 
2.43.0


From 803ff46ae2a2f918ff624ae86cfd7808ded19217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/14] fix: quote the names of arguments in LLVM IR and keep
 them distinct

Symbols with a double quote in their name, with an empty name, or with a name
used in the generated code (_out, .0) could not be compiled.
---
 src/protosym/simplecas/lambdification.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..c8cef81 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -20,6 +20,19 @@ def _double_to_hex(f: float) -> str:
     return hex(struct.unpack("<Q", struct.pack("<d", f))[0])
 
 
+def _llvm_argnames(symargs: list[Tree]) -> dict[Tree, str]:
+    """Distinct and properly quoted LLVM identifiers for the arguments."""
+    argnames: dict[Tree, str] = {}
+    for n, arg in enumerate(symargs):
+        name = str(arg)
+        # Names starting with a dot and _out are used in the generated code.
+        if not name or name[0] == "." or name == "_out" or "\0" in name:
+            name = f".arg{n}"
+        name = name.replace("\\", r"\5c").replace('"', r"\22")
+        argnames[arg] = f'%"{name}"'
+    return argnames
+
+
 _llvm_header = """
 ; ModuleID = "mod1"
 target triple = "unknown-unknown-unknown"
@@ -38,7 +51,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _llvm_argnames(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +167,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _llvm_argnames(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From 89c92bb46d51c3e281410fb89a2f842f5d55c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 10/14] fix: print deeply nested Trees without recursion

The error for a missing rule prints the head so that it was a RecursionError
for a deeply nested head.
---
 src/protosym/core/tree.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 86277cd..76f87ff 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -158,21 +158,28 @@ class Tree:
 
     def __repr__(self) -> str:
         """Show the verbose representaton."""
-        if self.children:
-            argstr = ", ".join(map(repr, self.children))
-            return f"Tree({argstr})"
-        else:
-            return f"Tr({self.value!r})"
+        # Not recursive so that there is no limit on the depth.
+        reprs: dict[Tree, str] = {}
+        for expr in topological_sort(self, heads=True):
+            if expr.children:
+                argstr = ", ".join([reprs[c] for c in expr.children])
+                reprs[expr] = f"Tree({argstr})"
+            else:
+                reprs[expr] = f"Tr({expr.value!r})"
+        return reprs[self]
 
     def __str__(self) -> str:
         """Show the pretty form."""
-        if self.children:
-            head = self.children[0]
-            args = self.children[1:]
-            argstr = ", ".join(map(str, args))
-            return f"{head}({argstr})"
-        else:
-            return str(self.value)
+        # Not recursive so that there is no limit on the depth.
+        strs: dict[Tree, str] = {}
+        for expr in topological_sort(self, heads=True):
+            if expr.children:
+                head, *args = [strs[c] for c in expr.children]
+                argstr = ", ".join(args)
+                strs[expr] = f"{head}({argstr})"
+            else:
+                strs[expr] = str(expr.value)
+        return strs[self]
 
 
 # Convenient shorthand for creating atoms
-- 
2.43.0


From d4d063926363d0fd3f4aee146e0f212b5b250fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 11/14] fix: do not convert calls of something else than a
 function to SymPy

The SymPy function was named after the printed head, so that f(x)(y) became
a call of an unrelated function named 'f(x)' and s(y) with a symbol s as head
became the call of a function named s.
---
 src/protosym/simplecas/sympy_conversions.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index edfd3d6..690d085 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -6,7 +6,8 @@ not needed.
 
 from __future__ import annotations
 
-from typing import Any
+from typing import TYPE_CHECKING as _TYPE_CHECKING
+from typing import Any, Sequence
 
 import sympy
 from sympy.core.function import AppliedUndef
@@ -28,8 +29,19 @@ from protosym.simplecas import (
     sin,
 )
 
+if _TYPE_CHECKING:
+    from protosym.core.tree import Tree
+
 eval_to_sympy = Expr.new_evaluator("to_sympy", sympy.Basic)
 
+
+def _undef_call(head: Tree, args: Sequence[sympy.Basic]) -> sympy.Basic:
+    """Call of an undefined function."""
+    if head.children or head.value.atom_type != Function.atom_type:
+        raise NotImplementedError(f"Cannot convert a call with head {head}")
+    return sympy.Function(str(head))(*args)  # pyright: ignore
+
+
 sympy_integer = PyFunc1[int, sympy.Basic](sympy.Integer)
 sympy_symbol = PyFunc1[str, sympy.Basic](sympy.Symbol)
 sympy_function = PyFunc1[str, sympy.Basic](sympy.Function)  # pyright: ignore
@@ -39,9 +51,7 @@ sympy_pow = PyOp2[sympy.Basic](sympy.Pow)
 sympy_sin = PyOp1[sympy.Basic](sympy.sin)  # pyright: ignore
 sympy_cos = PyOp1[sympy.Basic](sympy.cos)  # pyright: ignore
 sympy_tuple = PyOpN[sympy.Basic](lambda a: sympy.Tuple(*a))  # pyright: ignore
-sympy_undef_call = HeadOp[sympy.Basic](
-    lambda a, b: sympy.Function(str(a))(*b)  # pyright: ignore
-)
+sympy_undef_call = HeadOp[sympy.Basic](_undef_call)
 
 eval_to_sympy[Integer[a]] = sympy_integer(a)
 eval_to_sympy[Symbol[a]] = sympy_symbol(a)
-- 
2.43.0


From 28c015b856a8085dd9dd9504c7beaf3e0f755434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 12/14] fix: do not convert an undefined SymPy function to the
 built-in function of the same name

---
 src/protosym/simplecas/sympy_conversions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index 690d085..38f9926 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -127,6 +127,10 @@ def _from_sympy_cache_args(expr: Any, sympy: Any, cache: dict[Any, Expr]) -> Exp
     elif isinstance(expr, sympy.Tuple):
         return List(*args)
     elif isinstance(expr, AppliedUndef):
-        return Function(expr.name)(*args)  # pyright: ignore
+        func = Function(expr.name)  # pyright: ignore
+        if func in (Add, Mul, Pow, sin, cos, List):
+            # An undefined function that only has the name of a known one.
+            raise NotImplementedError("Cannot convert undefined " + expr.name)
+        return func(*args)
     else:
         raise NotImplementedError("Cannot convert " + type(expr).__name__)
-- 
2.43.0


From f669b8055ba95637c5aaca9d0356e4925c0ec018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 13/14] fix: Make AtomicWeakDict.setdefault atomic within a
 thread

A signal handler or finaliser that built the same expression between the
lookup and the insertion led to two objects for one expression.
---
 src/protosym/core/weakdict.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/protosym/core/weakdict.py b/src/protosym/core/weakdict.py
index d0fed1d..0378774 100644
--- a/src/protosym/core/weakdict.py
+++ b/src/protosym/core/weakdict.py
@@ -5,7 +5,9 @@ from __future__ import annotations
 from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any
+from weakref import KeyedRef as _KeyedRef
 from weakref import WeakValueDictionary
+from weakref import _remove_dead_weakref  # type:ignore
 
 __all__ = ["AtomicWeakDict"]
 
@@ -15,14 +17,15 @@ if _TYPE_CHECKING:
 
 else:
 
-    class AtomicWeakDict(WeakValueDictionary):
-        """``WeakValueDictionary`` whose ``setdefault`` is safe between threads.
+    class AtomicWeakDict(WeakValueDictionary):  # type:ignore
+        """``WeakValueDictionary`` whose ``setdefault`` is atomic.
 
         The ``setdefault`` method inherited from ``WeakValueDictionary`` is a
         lookup followed by an insertion so that two threads calling it at the
-        same time for the same key can end up with different objects. The
-        global stores of expressions depend on there never being two objects
-        for the same key.
+        same time for the same key can end up with different objects. The same
+        happens in a single thread if a signal handler, a finaliser or the
+        hash of the key uses the same key in between. The global stores of
+        expressions depend on there never being two objects for the same key.
         """
 
         def __init__(self) -> None:
@@ -31,7 +34,17 @@ else:
             # collection can run arbitrary code.
             self._lock = _RLock()
 
-        def setdefault(self, key: Any, default: Any = None) -> Any:
+        def setdefault(self: Any, key: Any, default: Any = None) -> Any:
             """Return the existing value for ``key`` or else insert ``default``."""
             with self._lock:
-                return super().setdefault(key, default)
+                new = _KeyedRef(default, self._remove, key)
+                while True:
+                    # Lookup and insertion in a dict are a single step.
+                    previous = self.data.setdefault(key, new)
+                    if previous is new:
+                        return default
+                    value = previous()
+                    if value is not None:
+                        return value
+                    # The callback of the dead reference was not called yet.
+                    _remove_dead_weakref(self.data, key)
-- 
2.43.0


From d5ab42a4a6e719ad65db6ec630075c33f0ce3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 14/14] fix: Release the lock of the stores in forked processes

A process forked while another thread was making an expression could not
make any new expression itself.
---
 src/protosym/core/weakdict.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/protosym/core/weakdict.py b/src/protosym/core/weakdict.py
index 0378774..372086d 100644
--- a/src/protosym/core/weakdict.py
+++ b/src/protosym/core/weakdict.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import os as _os
 from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any
@@ -28,11 +29,9 @@ else:
         expressions depend on there never being two objects for the same key.
         """
 
-        def __init__(self) -> None:
-            super().__init__()
-            # Reentrant because hashing or comparing keys and garbage
-            # collection can run arbitrary code.
-            self._lock = _RLock()
+        # Reentrant because hashing or comparing keys and garbage collection
+        # can run arbitrary code.
+        _lock = _RLock()
 
         def setdefault(self: Any, key: Any, default: Any = None) -> Any:
             """Return the existing value for ``key`` or else insert ``default``."""
@@ -48,3 +47,10 @@ else:
                         return value
                     # The callback of the dead reference was not called yet.
                     _remove_dead_weakref(self.data, key)
+
+    def _new_lock() -> None:
+        AtomicWeakDict._lock = _RLock()  # type:ignore
+
+    # Another thread might hold the lock while the process is forked.
+    if hasattr(_os, "register_at_fork"):
+        _os.register_at_fork(after_in_child=_new_lock)
-- 
2.43.0

