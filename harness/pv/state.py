"""The global state of the interpreter and of the other packages, as far as it can be read."""
import asyncio, atexit, builtins, contextvars, copyreg, ctypes, decimal, faulthandler, functools, gc, hashlib, itertools, locale, logging, math, operator
import os, random, resource, signal, sys, threading, time, warnings, weakref

libm = ctypes.CDLL("libm.so.6")
SIGNALS = sorted(signal.valid_signals())
NAMESPACES = {m.__name__: m for m in (builtins, math, operator, weakref, functools, itertools, gc, copyreg, random, time, random.Random, weakref.WeakValueDictionary)}
BOUND = {"sys.setrecursionlimit": lambda: sys.setrecursionlimit, "os.fork": lambda: getattr(os, "fork", None), "threading.Lock": lambda: threading.Lock}


def third_party():
    """Imports and uses what protosym imports, without protosym."""
    import numpy, sympy, mpmath, llvmlite.binding as llvm
    sympy.Function("f")(sympy.Symbol("x")).subs({"x": 2}); sympy.Matrix([[1, 2]]).todok(); sympy.srepr(sympy.sin(2))
    numpy.zeros((2, 2), numpy.float64).ctypes.data_as(ctypes.POINTER(ctypes.c_double))
    llvm.initialize(); llvm.initialize_native_target(); llvm.initialize_native_asmprinter()
    mod = llvm.parse_assembly('define double @"warm"(double %x) {\n ret double %x\n}')
    pmb = llvm.create_pass_manager_builder(); pmb.opt_level = 2
    pm = llvm.create_module_pass_manager(); pmb.populate(pm); pm.run(mod)
    e = llvm.create_mcjit_compiler(mod, llvm.Target.from_default_triple().create_target_machine())
    e.finalize_object()
    ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double)(e.get_function_address("warm"))(1.0)
    return e


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f: return tuple(f.read().split())
    except OSError: return ()


def digest(x): return hashlib.blake2b(repr(x).encode("utf8", "replace"), digest_size=6).hexdigest()


def light():
    """What is quick to read."""
    return {
        "recursion limit": sys.getrecursionlimit(), "gc enabled": gc.isenabled(), "gc thresholds": gc.get_threshold(), "gc debug": gc.get_debug(),
        "switch interval": sys.getswitchinterval(), "trace": sys.gettrace(), "profile": sys.getprofile(), "rounding": libm.fegetround(), "fp traps": libm.fegetexcept(),
        "stdout": sys.stdout, "stderr": sys.stderr, "stdin": sys.stdin, "int digits": sys.get_int_max_str_digits(), "decimal": repr(decimal.getcontext()),
        "warning filters": tuple(warnings.filters), "showwarning": warnings.showwarning, "threads": tuple(t.name for t in threading.enumerate() if not t.name.startswith("Dummy")),
        "signal mask": tuple(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
    }


def full():
    s = light()
    s.update({
        "random": digest(random.getstate()), "locale": locale.setlocale(locale.LC_ALL), "environment": tuple(sorted(os.environ.items())),
        "descriptors": tuple(sorted(os.listdir("/proc/self/fd"))), "signals": tuple((n, signal.getsignal(n)) for n in SIGNALS if signal.getsignal(n) != signal.SIG_DFL), "timer": signal.getitimer(signal.ITIMER_REAL),
        "hooks": (sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook, sys.breakpointhook, sys.get_asyncgen_hooks()), "path": tuple(sys.path),
        "meta path": tuple(map(id, sys.meta_path)), "path hooks": tuple(map(id, sys.path_hooks)), "gc callbacks": tuple(gc.callbacks), "exit callbacks": atexit._ncallbacks(),
        "faulthandler": faulthandler.is_enabled(), "stack limit": resource.getrlimit(resource.RLIMIT_STACK),
        "context": len(contextvars.copy_context()), "copyreg": len(copyreg.dispatch_table), "monitoring": tuple(sys.monitoring.get_tool(k) for k in range(6)),
        "coroutine origin": sys.get_coroutine_origin_tracking_depth(), "event loop policy": id(asyncio.get_event_loop_policy()),
        "logging": (logging.root.level, logging.root.manager.disable, tuple(logging.root.handlers), logging.raiseExceptions, logging.getLoggerClass()),
        "child processes": children(),
        "trace in threads": (threading.gettrace(), threading.getprofile()), "dlopen flags": sys.getdlopenflags(), "time zone": time.tzname,
    })
    for n, m in NAMESPACES.items(): s["names of " + n] = hash(tuple(sorted((k, id(v)) for k, v in vars(m).items() if k != "_")))
    for n, fn in BOUND.items(): s[n] = fn()
    try: s["directory"] = (os.getcwd(), tuple(sorted(os.listdir("."))))
    except FileNotFoundError: s["directory"] = None
    if (np := sys.modules.get("numpy")) is not None: s["numpy"] = (tuple(sorted(np.geterr().items())), repr(np.get_printoptions()), digest(np.random.get_state()))
    if (mp := sys.modules.get("mpmath")) is not None: s["mpmath"] = (mp.mp.prec, mp.mp.dps, mp.mp.pretty, mp.mp.trap_complex)
    if (sy := sys.modules.get("sympy")) is not None:
        from sympy.core.parameters import global_parameters as gp
        s["sympy"] = (gp.evaluate, gp.distribute, gp.exp_is_pow, digest(sorted(map(str, sy.StrPrinter._global_settings.items()))), sy.Basic.__repr__, sy.Basic.__eq__, sy.Basic.__hash__)
    return s


def differences(a, b): return {k: (a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)}
