"""C37: numba is optional, and compiled functions stay compilable."""
import ast
import builtins
import os
from .common import *
from .c18 import warn_cond
from sa.values import FuncV, ModuleV, WrapV
from sa.harness import SRC

MIN_OBLIGATIONS = 60
U = "einsteinpy.coordinates.utils."
NUMBA_BUILTINS = {"abs", "min", "max", "range", "len", "complex", "float", "int", "bool", "round", "zip", "enumerate", "tuple", "sum", "pow", "divmod", "print", "slice", "isinstance", "hash",
                  "True", "False", "None", "ValueError", "Exception", "ZeroDivisionError", "RuntimeError", "TypeError", "IndexError", "list", "set", "str", "any", "all", "sorted", "reversed", "map", "filter", "iter", "next", "chr", "ord"}
BAD = (ast.Try, ast.With, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Await, ast.AsyncFunctionDef, ast.Delete, ast.DictComp, ast.SetComp)


def jitted(I, v):
    while isinstance(v, WrapV):
        v = v.func
    return isinstance(v, FuncV) and any(_isjit(d) for d in getattr(v.node, "decorator_list", []))


def _isjit(d):
    if isinstance(d, ast.Call):
        d = d.func
    n = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
    return n in ("jit", "njit")


def run(R):
    R.rule("without numba the package loads, warns, and jit in every form (bare, called, with options, applied) returns the very function, so every compiled function computes the same with and "
           "without; a compiled function refers only to its own variables, numpy, supported builtins, numbers and other compiled functions, and uses no statement numba cannot compile")
    I = R.interp()
    N = R.interp(missing=("numba",))
    J = "einsteinpy.ijit."

    def forms(N=N):
        R.group = "without numba"
        R.where = R.loc_of(N, "einsteinpy.ijit")
        f = N.global_(U + "lorentz_factor")
        for attr in ("jit", "ijit"):
            j = N.global_(J + attr)
            for lbl, g in (("bare", lambda: N.call(j, [f], {})), ("called", lambda: N.call(N.call(j, [], {}), [f], {})),
                           ("options", lambda: N.call(N.call(j, [], dict(nopython=True, cache=True)), [f], {})),
                           ("signature", lambda: N.call(N.call(j, ["f8(f8)"], {}), [f], {})),
                           ("signature and options", lambda: N.call(N.call(j, ["f8(f8)", "x"], dict(cache=True)), [f], {}))):
                out = R.ev(N, lambda: (g() is f))
                if R.no_raise("%s %s" % (attr, lbl), out):
                    R.equal("%s %s returns the function" % (attr, lbl), out.value, True, out.facts, out.guard)
        ws = [e for e in N.load_trace if e.name == "warn"]
        R.require("a warning announces the fallback", len(ws) >= 1, "no warning")
        ws = [e for e in I.load_trace if e.name == "warn"]
        R.require("no warning when numba is there", not ws, "%d warnings on import" % len(ws))
        R.require("jit is numba's when numba is there", getattr(I.global_(J + "jit"), "path", "").startswith("numba."), "jit is %r" % (I.global_(J + "jit"),))
    R.guard("forms", forms)

    # same values
    def values():
        V = {"t": S("t0"), "alpha": S("al"), "th": S("th0"), "r": S("r0", True), "p": S("ph0")}
        mod = I.modules["einsteinpy.coordinates.utils"]
        for nm, v in sorted(I.content(mod.frame).d.items()):
            if isinstance(v, FuncV) and v.mod is mod or jitted(I, v):
                fv = v.func if isinstance(v, WrapV) else v
                ps = [a.arg for a in fv.node.args.args]
                if nm.endswith("_fast"):
                    continue
                R.group = nm
                R.where = R.loc_of(I, U + nm)

                def call(K):
                    a = []
                    for p in ps:
                        if p in ("g_cov_mat",):
                            a.append(K.new_arr((4, 4), [S("g%d%d" % (min(i, j), max(i, j))) for i in range(4) for j in range(4)]))
                        else:
                            a.append(V.get(p, S(p)))
                    return K.call(K.global_(U + nm), a, {})
                o1, o2 = R.ev(I, lambda: call(I)), R.ev(N, lambda: call(N))
                if R.no_raise("with numba", o1) and R.no_raise("without numba", o2):
                    R.same_all("same value", o2.value, o1.value, o2)
    R.guard("values", values)

    # ---- compilability
    for nm, m in sorted(I.modules.items()):
        with open(m.path) as fh:
            tree = ast.parse(fh.read())
        rel = os.path.relpath(m.path, os.path.dirname(SRC))
        env = I.content(m.frame).d
        for fn_ in ast.walk(tree):
            if not isinstance(fn_, ast.FunctionDef) or not any(_isjit(d) for d in fn_.decorator_list):
                continue
            R.group = "%s.%s" % (nm, fn_.name)
            R.where = "%s:%d (%s)" % (rel, fn_.lineno, fn_.name)
            bad = [n for n in ast.walk(fn_) if isinstance(n, BAD)]
            R.require("statements", not bad, "; ".join("%s at line %d cannot be compiled" % (type(n).__name__, n.lineno) for n in bad))
            nested = [n for n in ast.walk(fn_) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn_]
            R.require("arguments", not fn_.args.kwarg and not fn_.args.kwonlyargs, "keyword-only or ** arguments")
            local = {a.arg for a in fn_.args.args + fn_.args.posonlyargs} | ({fn_.args.vararg.arg} if fn_.args.vararg else set())
            for n in ast.walk(fn_):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    local.add(n.id)
            for n in nested:
                local |= {a.arg for a in n.args.args}
                if isinstance(n, ast.FunctionDef):
                    local.add(n.name)
            body = [x for s in fn_.body for x in ast.walk(s)]
            for n in body:
                if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)) or n.id in local:
                    continue
                v = env.get(n.id)
                w = "%s:%d" % (rel, n.lineno)
                if n.id not in env:
                    R.require("name %s" % n.id, n.id in NUMBA_BUILTINS or not hasattr(builtins, n.id), "compiled code uses %s" % n.id, w)
                elif isinstance(v, (FuncV, WrapV)) and not isinstance(v, ExtV):
                    R.require("callee %s" % n.id, jitted(I, v), "compiled function calls %s, which is not compiled" % n.id, w)
                elif isinstance(v, ExtV):
                    R.require("library %s" % n.id, v.path.split(".")[0] in ("numpy", "math", "cmath", "numba"), "compiled function uses %s" % v.path, w)
                else:
                    R.require("global %s" % n.id, isinstance(v, (int, str, tuple, T)) and not isinstance(v, QuantV), "compiled function uses the global %s = %r, which is no plain number" % (n.id, v), w)
