"""Reads printed forms back into the model with the usual precedence rules."""
import re

TEXT = re.compile(r"\s*(?:(\d+)|([A-Za-z_][A-Za-z_0-9]*)|(\*\*|[-+*/(),]))")
LATEX = re.compile(r"\s*(?:(\d+)|([A-Za-z][A-Za-z0-9]*(?:_(?:[A-Za-z0-9]|\{[A-Za-z0-9]+\}))?)|(\\times|\\cdot|\\sin|\\cos|[-+(),{}^]))(?:\\left|\\right)?")


class Unreadable(Exception):
    pass


class Parser:
    """text -> node.  Sums and products of several terms are read left to right as binary ones."""

    def __init__(self, m, text, latex=False, call_form=False):
        self.m, self.latex, self.call_form = m, latex, call_form
        self.toks, self.k = [], 0
        if latex: text = text.replace("\\left", "").replace("\\right", "")
        pat, pos = (LATEX if latex else TEXT), 0
        text = text.rstrip()
        while pos < len(text):
            t = pat.match(text, pos)
            if not t or t.end() == pos: raise Unreadable(f"no token at {text[pos:pos + 20]!r}")
            self.toks.append(next((kind, s) for kind, s in zip(("int", "name", "op"), t.groups()) if s is not None))
            pos = t.end()
        self.toks.append(("end", ""))

    def read(self):
        e = self.sum()
        if self.toks[self.k][0] != "end": raise Unreadable(f"unexpected {self.toks[self.k][1]!r} after the expression")
        return e

    def at(self, *ops):
        kind, s = self.toks[self.k]
        return kind == "op" and s in ops

    def take(self, op):
        if not self.at(op): raise Unreadable(f"expected {op!r}, found {self.toks[self.k][1]!r}")
        self.k += 1

    def sum(self):
        m, e = self.m, self.product()
        while self.at("+", "-"):
            op = self.toks[self.k][1]; self.k += 1
            r = self.product()
            e = m.add(e, r) if op == "+" else m.sub(e, r)
        return e

    def product(self):
        m, e = self.m, self.unary()
        while self.at("*", "/", "\\times", "\\cdot"):
            op = self.toks[self.k][1]; self.k += 1
            r = self.unary()
            e = m.div(e, r) if op == "/" else m.mul(e, r)
        return e

    def unary(self):
        if not self.at("-"): return self.power()
        self.k += 1
        literal = self.toks[self.k][0] == "int"
        e = self.unary()
        if literal and self.m.kind(e) == "Integer": return self.m.int(-self.m.value(e))
        return self.m.neg(e)

    def power(self):
        b = self.postfix()
        if self.latex and self.at("^"):
            self.k += 1
            self.take("{"); e = self.sum(); self.take("}")
            if self.at("^"): raise Unreadable("double superscript")
            return self.m.pow(b, e)
        if self.at("**"):
            self.k += 1
            return self.m.pow(b, self.unary())
        return b

    def postfix(self):
        e = self.primary()
        while self.at("("):
            self.k += 1
            e = self.m.app(e, *self.arguments())
        return e

    def arguments(self):
        args = []
        if not self.at(")"):
            args.append(self.sum())
            while self.at(","): self.k += 1; args.append(self.sum())
        self.take(")")
        return args

    def primary(self):
        m = self.m
        kind, s = self.toks[self.k]
        if kind == "int":
            self.k += 1
            return m.int(int(s))
        if kind == "name" or s in ("\\sin", "\\cos"):
            self.k += 1
            if not self.at("("):
                if kind != "name": raise Unreadable(f"{s} without an argument")
                return m.sym(s)
            self.k += 1
            return m.app(m.fun(s.lstrip("\\")), *self.arguments())
        self.take("(")
        e = self.sum()
        self.take(")")
        return e


def read(m, text, latex=False):
    return Parser(m, text, latex).read()
