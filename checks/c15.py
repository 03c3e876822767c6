"""C15: dual number arithmetic is forward-mode differentiation."""
from .common import *

MIN_OBLIGATIONS = 80
DN = "einsteinpy.utils.dual.DualNumber"


def run(R):
    R.rule("for every operator and elementary function of DualNumber the value component is the operation on values and the derivative component is "
           "its formal total derivative (dx, dy arbitrary); 0/0 is resolved by the ratio of derivatives; equality compares both components")
    I = R.interp()
    x, y, dx, dy, k = S("x"), S("y"), S("dx"), S("dy"), S("k")
    R.where = R.loc_of(I, DN)
    D = lambda a, b: I.call(I.global_(DN), [a, b], {})
    parts = lambda o: (get(I, o, "val"), get(I, o, "deriv"))
    eps = S("_eps")

    def total(f):
        """(value, derivative) of f(x + eps dx, y + eps dy)"""
        e = f(x + eps * dx, y + eps * dy)
        return tm.subs(e, {eps: ZERO}), tm.subs(tm.diff(e, eps), {eps: ZERO})
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    nz = [b_not(eqz(y)), b_not(eqz(x))]

    def binary():
        R.group = "operator"
        for o, f in ops.items():
            for lbl, mk, w in (("dual dual", lambda: (D(x, dx), D(y, dy)), total(f)),
                               ("dual number", lambda: (D(x, dx), k), total(lambda a, b: f(a, k))),
                               ("number dual", lambda: (k, D(y, dy)), total(lambda a, b: f(k, b))),
                               ("dual int", lambda: (D(x, dx), 3), total(lambda a, b: f(a, tm.as_t(3)))),
                               ("int dual", lambda: (2, D(y, dy)), total(lambda a, b: f(tm.as_t(2), b)))):
                def g(mk=mk, o=o):
                    a, b = mk()
                    return parts(I.binop(o, a, b))
                # any values, zero included; only divisors are not zero
                out = R.ev(I, g, [b_not(eqz({"dual dual": y, "number dual": y, "dual number": k}.get(lbl, y)))] if o == "/" else [])
                if R.no_raise("%s %s" % (lbl, o), out):
                    R.same_all("%s %s" % (lbl, o), out.value, w, out)
        # the reflected methods called directly (a.__radd__(b) is b + a, whatever b is)
        for o, nm in (("+", "radd"), ("-", "rsub"), ("*", "rmul"), ("/", "rtruediv")):
            out = R.ev(I, lambda: parts(meth(I, D(y, dy), "__%s__" % nm, D(x, dx))), nz[:1] if o == "/" else [])
            if R.no_raise("__%s__" % nm, out):
                R.same_all("__%s__" % nm, out.value, total(ops[o]), out)
    R.guard("binary", binary)

    def compound():
        R.group = "compound"
        def ev(e, a, b):
            if isinstance(e, tuple):
                return I.binop(e[0], ev(e[1], a, b), ev(e[2], a, b))
            return {"a": a, "b": b}.get(e, e)

        def te(e, a, b):
            if isinstance(e, tuple):
                p, q = te(e[1], a, b), te(e[2], a, b)
                return p ** q if e[0] == "**" else ops[e[0]](p, q)
            return {"a": a, "b": b}[e] if isinstance(e, str) else tm.as_t(e)
        for e in (("/", ("+", ("*", "a", "b"), "a"), ("+", ("*", "b", "b"), 2)), ("-", 1, ("/", 2, ("*", "a", "b"))),
                  ("*", ("-", "a", "b"), ("-", 5, "a")), ("/", ("/", "a", "b"), ("+", "a", "b"))):
            out = R.ev(I, lambda: parts(ev(e, D(x, dx), D(y, dy))), nz + [b_not(eqz(x + y))])
            if R.no_raise("%r" % (e,), out):
                R.same_all("%r" % (e,), out.value, total(lambda a, b: te(e, a, b)), out)
    R.guard("compound", compound)

    def power():
        R.group = "power"
        for n in (2, 3, 4, -1, -2, tm.Fraction(1, 2), tm.Fraction(3, 2)):
            out = R.ev(I, lambda: parts(I.binop("**", D(S("x", True), dx), tm.as_t(n) if not isinstance(n, int) else n)))
            if R.no_raise("** %s" % n, out):
                X = S("x", True)
                R.same_all("** %s" % n, out.value, (X ** n, dx * n * X ** (n - 1)), out)
        # at particular values, zero and negative ones included
        for x0 in (0, -1, -2, 3):
            for n in (1, 2, 3):
                out = R.ev(I, lambda: parts(I.binop("**", D(tm.as_t(x0), dx), n)))
                if R.no_raise("(%d) ** %d" % (x0, n), out):
                    R.same_all("(%d) ** %d" % (x0, n), out.value, (tm.as_t(x0 ** n), dx * n * x0 ** (n - 1)), out)
    R.guard("power", power)

    def unary():
        R.group = "function"
        out = R.ev(I, lambda: parts(I.unop("-", D(x, dx))))
        if R.no_raise("negation", out):
            R.same_all("negation", out.value, (-x, -dx), out)
        xr = S("x")
        for X in (S("x", True), xr):
            for nm, f, df in (("sin", tm.sin, tm.cos(X)), ("cos", tm.cos, -tm.sin(X)), ("tan", tm.tan, ONE / tm.cos(X) ** 2), ("log", tm.log, ONE / X),
                              ("exp", tm.exp, tm.exp(X))):
                if nm == "log" and X is xr:
                    continue
                for how in ("numpy", "method"):
                    def g():
                        d = D(X, dx)
                        return parts(I.call(ExtV("numpy." + nm), [d], {}) if how == "numpy" else meth(I, d, nm))
                    out = R.ev(I, g)
                    if R.no_raise("%s %s" % (how, nm), out):
                        R.same_all("%s %s" % (how, nm), out.value, (f(X), df * dx), out)
    R.guard("unary", unary)

    def zero():
        R.group = "0/0"
        nzd = [b_not(eqz(dx)), b_not(eqz(dy))]
        out = R.ev(I, lambda: parts(I.binop("/", D(ZERO, dx), D(ZERO, dy))), nzd)
        if R.no_raise("dual/dual", out):
            R.equal("limit value", out.value[0], dx / dy, out.facts, out.guard)
        # only at 0/0: one vanishing value alone divides normally
        out = R.ev(I, lambda: parts(I.binop("/", D(ZERO, dx), D(y, dy))), nz[:1])
        if R.no_raise("0/dual", out):
            R.same_all("0/dual", out.value, (ZERO, dx / y), out)
    R.guard("zero", zero)

    def eq():
        R.group = "equality"
        both = b_and(eqz(x - y), eqz(dx - dy))
        out = R.ev(I, lambda: (I.truth(I.compare("==", D(x, dx), D(y, dy))), I.truth(I.compare("!=", D(x, dx), D(y, dy)))))
        if R.no_raise("==", out):
            R.equal("==", out.value[0], both, out.facts, out.guard)
            R.equal("!=", out.value[1], b_not(both), out.facts, out.guard)
    R.guard("eq", eq)

    def ctor():
        R.group = "constructor"
        out = R.ev(I, lambda: parts(D(x, dx)))
        if R.no_raise("DualNumber", out):
            R.same_all("components", out.value, (x, dx), out)
    R.guard("ctor", ctor)

    def deriv():
        R.group = "_deriv"
        nm = "einsteinpy.utils.dual._deriv"
        X = S("x", True)
        np_ = lambda f, a: I.call(ExtV("numpy." + f), [a], {})
        for lbl, f, w in (("x*sin(x)", lambda a: I.binop("*", a, np_("sin", a)), tm.sin(X) + X * tm.cos(X)), ("constant", lambda a: 3, ZERO),
                          ("sin(x) at 0", lambda a: np_("sin", a), ONE), ("x*x*x at 0", lambda a: I.binop("*", a, I.binop("*", a, a)), ZERO), ("1/(1+x**2)", lambda a: I.binop("/", 1, I.binop("+", 1, I.binop("**", a, 2))), -2 * X / (ONE + X * X) ** 2)):
            out = R.ev(I, lambda: I.call(I.global_(nm), [PyFn(lambda I2, a, kw: f(a[0]), "f"), ZERO if lbl.endswith("at 0") else X], {}))
            if R.no_raise(lbl, out):
                R.equal(lbl, out.value, w, out.facts, out.guard, where=R.loc_of(I, nm))
    R.guard("deriv", deriv)
