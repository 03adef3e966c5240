"""Raises an exception at a chosen point of the repository's code.

Points are the starts of lines, calls and returns, as a trace function sees them.  The visit of a with line when its
block is left is not one: no exception can surface there before __exit__ is called.
"""
import dis, sys, threading, weakref

from pv.load import is_repo_file


class Interrupt(BaseException):
    """Like KeyboardInterrupt."""


def ignore_interrupts(hook=sys.unraisablehook):
    """Those that surface in a weak reference's callback are printed otherwise."""
    sys.unraisablehook = lambda u: None if u.exc_type is not None and issubclass(u.exc_type, Interrupt) else hook(u)


_withs = {}


def with_lines(code):
    r = _withs.get(code)
    if r is None:
        r, line = {}, None
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno: line = i.positions.lineno
            if i.opname == "BEFORE_WITH": r[line] = max(r.get(line, 0), i.offset)
        _withs[code] = r
    return r


def spread(rng, places, cap):
    """Numbers of at most cap points: the places (one for each point) evenly, however often each is passed."""
    n = len(places)
    if n <= cap: return list(range(n))
    by = {}
    for k, p in enumerate(places): by.setdefault(p, []).append(k)
    one = [rng.choice(ks) for ks in by.values()]
    if len(one) > cap * 3 // 4: one = rng.sample(one, cap * 3 // 4)
    some = set(one)
    some.update(rng.sample([k for k in range(n) if k not in some], cap - len(some)))
    return sorted(some)


class Rank:
    """How many cases before this one are of its kind: workers that share the cases take turns in a list."""

    def __init__(self, kind): self.kind, self.at, self.seen = kind, [], {}

    def __call__(self, idx):
        while len(self.at) <= idx:
            k = self.kind(len(self.at))
            self.at.append(self.seen.get(k, 0))
            self.seen[k] = self.at[-1] + 1
        return self.at[idx]


class Points:
    def __init__(self): self.files = {}

    def traced(self, fn):
        r = self.files.get(fn)
        if r is None: r = self.files[fn] = is_repo_file(fn) or fn == weakref.__file__
        return r

    def run(self, fn, at=None, exc=Interrupt, keep=False, places=None):
        """(points passed, result or exception); raises exc at point number at.

        keep: the exception keeps its frames, and so everything they were making."""
        n, where = 0, None
        traced = self.traced
        def local(frame, event, arg):
            nonlocal n, where
            if event == "line":
                w = with_lines(frame.f_code)
                if w and frame.f_lasti > w.get(frame.f_lineno, 10 ** 9): return local
            elif event == "exception" or event == "return" and arg is None: return local
            if n == at:
                n += 1
                where = f"{frame.f_code.co_filename.rsplit('/', 1)[1]}:{frame.f_lineno} {frame.f_code.co_name} {event}"
                raise exc(where)
            n += 1
            if places is not None: places.append((frame.f_code, frame.f_lineno, event))
            return local
        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename): return None
            return local(frame, event, arg)
        old = sys.gettrace()
        sys.settrace(glob)
        try: r = fn()
        except (Exception, Interrupt) as e:
            r = e
            if not keep: r.with_traceback(None); r.__context__ = r.__cause__ = None
        finally: sys.settrace(old)
        return n, r, where


def elsewhere(fn, seconds=20):
    """Runs fn in another thread; True if it ends."""
    out = []
    t = threading.Thread(target=lambda: out.append(fn()), daemon=True)
    t.start(); t.join(seconds)
    return bool(out)
