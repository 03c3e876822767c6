"""C35: physical constants have one source, and unit stripping is exact."""
import ast
import os
from .symcommon import *
from sa.harness import SRC
from sa.values import Opaque

MIN_OBLIGATIONS = 60
K = "einsteinpy.constant."
KNOWN = {"speed of light": 299792458.0, "gravitational constant": 6.6743e-11, "vacuum permittivity": 8.8541878128e-12, "Coulomb constant": 8.9875517923e9,
         "cosmological constant": 2.036e-35, "solar mass": 1.9891e30, "solar radius": 6.957e8}


def literals(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield n


def run(R):
    R.rule("einsteinpy.constant re-exports the CODATA constants c, G, eps0 of astropy, k = 1/(4 pi eps0), the documented Lambda, solar mass and solar radius; no other module contains a "
           "literal copy of a physical constant; primitive() turns every quantity into its SI value, in order, and leaves numbers alone; symbolic constants are found by name")
    I = R.interp()
    R.group = "constant"
    R.where = R.loc_of(I, "einsteinpy.constant")
    fr = lambda x: tm.as_t(tm.Fraction(x))
    for n, v, un in (("c", C, "m / s"), ("G", G, dict(L=3, M=-1, T=-2)), ("eps0", EPS0, dict(M=-1, L=-3, T=4, I=2)), ("coulombs_const", KC, dict(M=1, L=3, T=-4, I=-2)), ("Cosmo_Const", fr("2.036e-35"), "1 / s2"),
                     ("Solar_Mass", fr("1.9891e30"), "kg"), ("R_sun", fr("695510"), "km")):
        if isinstance(un, dict):
            un = Unit(ONE, {k: tm.Fraction(e) for k, e in un.items()})

        def one(n=n, v=v, un=un):
            uu = unit(I, un) if isinstance(un, str) else un
            out = R.ev(I, lambda: (get(I, get(I, I.global_(K + n), "si"), "value"), get(I, Q(I, v, un), "si").value, get(I, I.global_(K + n), "unit")))
            if R.no_raise(n, out):
                R.equal(n + " value", out.value[0], out.value[1], out.facts, out.guard)
                R.require(n + " dimension", out.value[2].dims == uu.dims, "dimension %r" % (out.value[2].dims,))
        R.guard(n, one)

    # one source: no literal copies elsewhere
    R.group = "literal copies"
    for nm, m in sorted(I.modules.items()):
        if nm == "einsteinpy.constant" or nm == "einsteinpy.bodies":
            continue
        with open(m.path) as fh:
            tree = ast.parse(fh.read())
        rel = os.path.relpath(m.path, os.path.dirname(SRC))
        bad = []
        for n in literals(tree):
            for k, v in KNOWN.items():
                if n.value and abs(abs(n.value) / v - 1) < 3e-3:
                    bad.append("%s:%d literal %r is a copy of the %s" % (rel, n.lineno, n.value, k))
        R.where = rel + ":1"
        R.require(nm, not bad, "; ".join(bad))

    # the numeric modules use those objects: every module global called c, G, _c, _G ... is that constant
    R.group = "module constants"
    VAL = {"c": C, "G": G, "Cc": KC, "eps0": EPS0}
    for nm, m in sorted(I.modules.items()):
        if nm.startswith("einsteinpy.symbolic") or nm in ("einsteinpy.constant",):
            continue
        d = I.content(m.frame).d
        for k, v in d.items():
            b = k.lstrip("_")
            if b in VAL and isinstance(v, (T, QuantV)):
                def one(k=k, v=v, b=b):
                    R.where = os.path.relpath(m.path, os.path.dirname(SRC)) + ":1"
                    x = v.value if isinstance(v, QuantV) else v
                    R.equal("%s.%s" % (nm, k), x, VAL[b])
                R.guard(k, one)

    def prim():
        R.group = "primitive"
        R.where = R.loc_of(I, "einsteinpy.units.primitive")
        x = [S("x%d" % i) for i in range(6)]
        f = I.global_("einsteinpy.units.primitive")
        units = ["kg", "km", "g", "h", "deg", "C", "m / s", "km / h", "", "solMass", "AU", "min", "cm",
                 "rad", "arcmin", "arcsec", "ms", "d", "yr", "wk", "pc", "kpc", "lyr", "mm", "t", "earthMass", "mC", "km / s", "deg / h", "rad / s"]
        for un in units:
            try:
                q = Q(I, x[0], un)
            except Exception:
                continue
            out = R.ev(I, lambda: tuple(I.iterate(I.call(f, [q], {}))))
            if R.no_raise(un, out):
                R.same_all("[%s]" % un, out.value, (get(I, get(I, q, "si"), "value"),), out)
                R.same_all("[%s] scale" % un, out.value, (x[0] * unit(I, un).scale,), out)
        out = R.ev(I, lambda: tuple(I.iterate(I.call(f, [Q(I, x[0], "km"), x[1], Q(I, x[2], "g"), 7, x[3]], {}))))
        if R.no_raise("mixed", out):
            R.same_all("mixed", out.value, (x[0] * 1000, x[1], x[2] / 1000, 7, x[3]), out)
        out = R.ev(I, lambda: tuple(I.iterate(I.call(f, [], {}))))
        if R.no_raise("empty", out):
            R.same_all("empty", out.value, (), out)
        out = R.ev(I, lambda: I.call(f, [QuantV(arr(I, x[:3]), unit(I, "km"))], {}))
        if R.no_raise("array quantity", out):
            R.same_all("array quantity", out.value, (tuple(v * 1000 for v in x[:3]),), out)
    R.guard("primitive", prim)

    def symb():
        R.group = "symbolic constants"
        J = sym_interp(R)
        R.where = R.loc_of(J, SY + "constants")
        sym = dict(c="c", G="G", Cosmo_Const="Lambda", eps_0="eps_0")
        long = dict(c="Speed Of Light", G="Gravitational Constant", Cosmo_Const="Cosmological Constant", eps_0="Permittivity of free space")
        for n, s in sym.items():
            out = R.ev(J, lambda: (J.binop("*", J.call(J.global_(SY + "constants.get_constant"), [n], {}), ONE), J.binop("*", J.global_(SY + "constants." + n), ONE),
                                   J.getattr_(J.call(J.global_(SY + "get_constant"), [n], {}), "descriptive_name")))
            if R.no_raise(n, out):
                R.same_all(n, out.value, (S(s), S(s), long[n]), out)
        for bad in ("", "h", "C", "Lambda"):
            must_raise(R, J, "get_constant(%r)" % bad, lambda: J.call(J.global_(SY + "constants.get_constant"), [bad], {}), ("KeyError",))
        out = R.ev(J, lambda: (lambda o: (J.binop("*", o, ONE), J.getattr_(o, "descriptive_name")))(J.call(J.global_(SY + "constants.SymbolicConstant"), ["k", "Boltzmann"], {})))
        if R.no_raise("SymbolicConstant", out):
            R.same_all("SymbolicConstant", out.value, (S("k"), "Boltzmann"), out)
        out = R.ev(J, lambda: J.getattr_(J.call(J.global_(SY + "constants.SymbolicConstant"), ["k"], {}), "descriptive_name"))
        if R.no_raise("SymbolicConstant without description", out):
            R.same_all("SymbolicConstant without description", out.value, None, out)
        out = R.ev(J, lambda: J.binop("*", J.call(J.global_(SY + "constants.SymbolicConstant"), ["k_assumed", "Boltzmann"], dict(positive=True)), ONE))
        if R.no_raise("assumptions", out):
            gen = tm.is_gen(tm.as_t(out.value))
            R.require("assumptions are kept", gen is not None and gen.name == "k_assumed" and gen.positive, "positive=True is lost")
        C = J.global_(SY + "constants.SymbolicConstant")
        odd = [n for n in ("__eq__", "__ne__", "__hash__", "_hashable_content", "compare", "sort_key") if n in {q.name for q in C.node.body if isinstance(q, ast.FunctionDef)}]
        R.require("told apart from user symbols by its class", not odd, "redefines %s" % odd)
    R.guard("symbolic", symb)
