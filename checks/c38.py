"""C38: the Schwarzschild embedding surface."""
from .common import *
from sa.values import WrapV

MIN_OBLIGATIONS = 60
H = "einsteinpy.hypersurface.SchwarzschildEmbedding"


def run(R):
    R.rule("for a mass of m = M/(1e23 kg) length units: R(r) = r / sqrt(1 - 2m/r); dZ/dr makes the surface isometric to the optical geometry, dZ^2 + dR^2 = dr^2/(1 - 2m/r)^2; the tabulated curve "
           "starts at r = 3m + 1e-4 and is its Euler sum outwards to 9m (surface: 20m) and inwards to 9m/4 in steps m/alpha; the surface is the curve revolved about the Z axis")
    I = R.interp()
    cls = I.global_(H)
    M, r, al = S("M", True), S("r", True), S("alpha", True)
    E23 = tm.as_t(10 ** 23)
    small = tm.as_t(tm.Fraction(1, 10000))

    def consts():
        for un, sc in (("kg", ONE), ("g", tm.as_t(tm.Fraction(1, 1000)))):
            m = M * sc / E23
            R.group = "M in " + un
            mk = lambda: I.call(cls, [Q(I, M, un)], {})
            R.where = R.loc_of(I, H + ".__init__")
            out = R.ev(I, lambda: (lambda o: (get(I, get(I, o, "M"), "value"), get(I, get(I, o, "r_init"), "value")))(mk()))
            if R.no_raise("constructor", out):
                R.same_all("M, r_init", out.value, (m, 3 * m + small), out)
            R.where = R.loc_of(I, H + ".radial_coord")
            out = R.ev(I, lambda: meth(I, mk(), "radial_coord", r))
            Rr = r / tm.sqrt(ONE - 2 * m / r)
            if R.no_raise("radial_coord", out):
                R.equal("radial_coord", out.value, Rr, out.facts, out.guard)
            R.where = R.loc_of(I, H + ".gradient")
            out = R.ev(I, lambda: meth(I, mk(), "gradient", r))
            if R.no_raise("gradient", out):
                f = ONE - 2 * m / r
                s2 = (4 * m * r - 9 * m * m) / (r * r * f ** 3)
                want = tm.diff(Rr, r)
                R.equal("isometric: (dZ/dr)^2 = 1/f^2 - (dR/dr)^2", out.value * out.value, s2, out.facts, out.guard, known="F3", alt=s2 * Rr)
                R.equal("spec consistency", ONE / (f * f) - want * want, s2)
                # sign: dZ/dr has the sign of r - 3m (the curve is traversed outwards and, below, inwards)
                k = (4 * m * r - 9 * m * m) * Rr / sq(r - 3 * m)
                R.equal("gradient", out.value, (ONE - 3 * m / r) * tm.sqrt(k) / tm.sqrt(f) ** 3, out.facts, out.guard)
    R.guard("formulas", consts)
    must_raise(R, I, "M in m", lambda: I.call(cls, [Q(I, M, "m")], {}), ("UnitConversionError", "UnitsError"))
    must_raise(R, I, "M a plain number", lambda: I.call(cls, [M], {}), ("AttributeError", "TypeError"))

    # ---- tabulation, with gradient and radial coordinate uninterpreted
    def stub(name, f):
        return WrapV("stub", PyFn(lambda J, a, k: tm.func(f, [tm.as_t(J.force(x)) for x in (list(a[1:]) + list(k.values()))]), name))

    class Stubbed:
        def __enter__(self):
            self.st = I.st
            I.st = I.st.copy()
            I.setattr_(cls, "gradient", stub("gradient", "dZ"))
            I.setattr_(cls, "radial_coord", stub("radial_coord", "Rc"))

        def __exit__(self, *a):
            I.st = self.st
    dZ, Rc = (lambda x: tm.func("dZ", [x])), (lambda x: tm.func("Rc", [x]))

    def sweep(r0, step, go):
        z, x, out = ZERO, r0, []
        while go(x):
            out.append((Rc(tm.as_t(x)), z))
            z = z + dZ(tm.as_t(x)) * tm.as_t(abs(step))
            x = x + step
        return out
    Fr = tm.Fraction

    def tables():
        phis = [S("phi%d" % i) for i in range(3)]
        log = []

        def lin(J, a, k):
            log.append((tm.as_t(J.force(a[0])), tm.as_t(J.force(a[1]))))
            return arr(J, phis)
        I.hooks["numpy.linspace"] = lin
        for m, alpha in ((Fr(1), 1), (Fr(1), 4), (Fr(5), 2), (Fr(3, 7), 3), (Fr(40), 1), (Fr(1, 50), 2)):
            R.group = "m = %s, alpha = %s" % (m, alpha)
            r0, st = 3 * m + Fr(1, 10000), m / alpha
            mk = lambda: I.call(cls, [Q(I, tm.as_t(m) * E23, "kg")], {})
            with Stubbed():
                R.where = R.loc_of(I, H + ".get_values")
                out = R.ev(I, lambda: meth(I, mk(), "get_values", alpha))
                if R.no_raise("get_values", out):
                    up = sweep(r0, st, lambda x: x < 9 * m)
                    dn = sweep(r0, -st, lambda x: x > Fr(9, 4) * m)
                    R.same_all("get_values", out.value, (tuple(p[0] for p in up + dn), tuple(p[1] for p in up + dn)), out)
                R.where = R.loc_of(I, H + ".get_values_surface")
                del log[:]
                out = R.ev(I, lambda: meth(I, mk(), "get_values_surface", alpha))
                if R.no_raise("get_values_surface", out):
                    up = sweep(r0, st, lambda x: x < 20 * m)
                    X, Y, Z = out.value
                    R.same_all("X", X, tuple(tuple(p[0] * tm.cos(f) for p in up) for f in phis), out, at=(0,))
                    R.same_all("Y", Y, tuple(tuple(p[0] * tm.sin(f) for p in up) for f in phis), out, at=(1,))
                    flat = tuple(e for row in Z for e in row) if Z and isinstance(Z[0], tuple) else Z
                    R.same_all("Z, row by row", flat, tuple(p[1] for p in up) * len(phis), out, at=(2,))
                    R.require("full turn", len(log) >= 1 and all(tm.equal(b - a, tm.PI * 2) for a, b in log), "azimuth interval %r" % (log,))
        I.hooks.clear()
    R.guard("tables", tables)

    # ---- fine steps: slope 1 and R(r) = r keep every entry a number
    def fine():
        for m, alpha in ((Fr(1), 2000), (Fr(2), 150), (Fr(1, 3), Fr(1, 2))) if not R.thorough else ((Fr(1), 5000), (Fr(1), 2000), (Fr(2), 150), (Fr(7, 3), 40), (Fr(1, 3), Fr(1, 2))):
            R.group = "m = %s, alpha = %s, unit slope" % (m, alpha)
            r0, st = 3 * m + Fr(1, 10000), m / alpha

            def sw(step, go):
                z, x, o = Fr(0), r0, []
                while go(x):
                    o.append((x, z))
                    z, x = z + abs(step), x + step
                return o
            mk = lambda: I.call(cls, [Q(I, tm.as_t(m) * E23, "kg")], {})
            st_ = I.st
            I.st = I.st.copy()
            I.setattr_(cls, "gradient", WrapV("stub", PyFn(lambda J, a, k: ONE, "gradient")))
            I.setattr_(cls, "radial_coord", WrapV("stub", PyFn(lambda J, a, k: tm.as_t(J.force(a[1])), "radial_coord")))
            R.where = R.loc_of(I, H + ".get_values")
            out = R.ev(I, lambda: meth(I, mk(), "get_values", alpha if isinstance(alpha, int) else tm.as_t(alpha)))
            I.st = st_
            if R.no_raise("get_values", out):
                w = sw(st, lambda x: x < 9 * m) + sw(-st, lambda x: x > Fr(9, 4) * m)
                for k in (0, 1):
                    got = [tm.as_t(e).as_const() for e in out.value[k]]
                    bad = [i for i, (a, b) in enumerate(zip(got, [p[k] for p in w])) if a is None or a != b]
                    R.require("number of entries of %s" % "RZ"[k], len(got) == len(w), "%d entries, expected %d" % (len(got), len(w)))
                    R.require("entries of %s" % "RZ"[k], not bad, "entry %d is %s, expected %s" % ((bad[0], got[bad[0]], w[bad[0]][k]) if bad else (0, 0, 0)))
    R.guard("fine", fine)
