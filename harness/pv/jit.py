"""Our own LLVM pipeline for IR text."""
import ctypes

import llvmlite.binding as llvm

llvm.initialize()
llvm.initialize_native_target()
llvm.initialize_native_asmprinter()
_target = llvm.Target.from_default_triple()


def parse(ir):
    m = llvm.parse_assembly(ir)
    m.verify()
    return m


def definitions(mod):
    return [f for f in mod.functions if not f.is_declaration]


def compile_ir(ir, opt, name, codegen=None):
    mod = parse(ir)
    if opt:
        pmb = llvm.create_pass_manager_builder()
        pmb.opt_level = opt
        pm = llvm.create_module_pass_manager()
        pmb.populate(pm)
        pm.run(mod)
    tm = _target.create_target_machine(opt=opt if codegen is None else codegen)
    eng = llvm.create_mcjit_compiler(mod, tm)
    eng.finalize_object()
    return eng, eng.get_function_address(name)


def scalar(ir, nargs, opt, name):
    eng, p = compile_ir(ir, opt, name)
    f = ctypes.CFUNCTYPE(ctypes.c_double, *[ctypes.c_double] * nargs)(p)
    f._eng = eng
    return f


def matrix(ir, nargs, opt, name):
    eng, p = compile_ir(ir, opt, name)
    f = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_double), *[ctypes.c_double] * nargs)(p)
    f._eng = eng
    return f
