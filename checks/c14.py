"""C14: initial 4-momentum lies on the mass shell of the metric."""
from .common import *

MIN_OBLIGATIONS = 60


def user_metric(pats=None, name="g"):
    """arbitrary symmetric contravariant metric: every entry an uninterpreted function of coordinates and parameters"""
    def fn(I, args, kw):
        xs = [tm.as_t(v) for v in I.iterate(args[0])]
        pr = [tm.as_t(v) for v in args[1:]]
        return I.new_arr((4, 4), [tm.func("%s%d%d" % (name, min(i, j), max(i, j)), tuple(xs + pr)) for i in range(4) for j in range(4)])
    return PyFn(fn, name)


def entries(xs, pr=(), name="g"):
    return [[tm.func("%s%d%d" % (name, min(i, j), max(i, j)), tuple(xs) + tuple(pr)) for j in range(4)] for i in range(4)]


def root(g, p, mu):
    A = g[0][0]
    B = 2 * tm.tsum(g[0][i + 1] * p[i] for i in range(3))
    Cq = tm.tsum(g[i + 1][j + 1] * p[i] * p[j] for i in range(3) for j in range(3)) + mu
    return (-B + tm.sqrt(B * B - 4 * A * Cq)) / (2 * A)


def no_integration(I):
    """replace the integration by a stub: only the constructor's own work is analysed"""
    I.setattr_(I.global_("einsteinpy.geodesic.Geodesic"), "calculate_trajectory", PyFn(lambda I2, a, k: None, "calculate_trajectory"))


def run(R):
    R.rule("the 4-momentum (p_t, p1, p2, p3) computed for an arbitrary symmetric contravariant metric satisfies g^{ab} p_a p_b = -1 (time-like) or 0 "
           "(null), p_t = (-B + sqrt(B^2 - 4AC)) / 2A, spatial components are the given ones, the metric is evaluated at (0, position) with the given parameters")
    I = R.interp()
    p = (S("p1"), S("p2"), S("p3"))
    x3 = (S("r", True), S("th"), S("ph"))
    prm = (S("a"), S("Q"))
    GU = "einsteinpy.geodesic.utils._P"

    def func():
        R.group = "_P"
        R.where = R.loc_of(I, GU)
        x = vec4()
        for tl in (True, False, None, 1, 0):
            mu = ZERO if tl in (False, 0) and tl is not None else ONE
            out = R.ev(I, lambda: I.call(I.global_(GU), [user_metric(), prm, arr(I, x), p] + ([] if tl is None else [tl]), {}))
            lbl = "default" if tl is None else "time_like=%s" % tl
            if not R.no_raise(lbl, out):
                continue
            g = entries(x, prm)
            R.same_all(lbl, out.value, (root(g, p, mu),) + p, out)
            P = out.value
            R.equal(lbl + " norm", tm.tsum(g[i][j] * P[i] * P[j] for i in range(4) for j in range(4)), -mu, out.facts, out.guard)
        # integers are as good as floats
        for lbl, q, pp in (("integer momentum list", x, (3, -1, 2)), ("integer event and momentum", (0, 7, 1, 2), (3, -1, 2)), ("integer momentum array", x, None)):
            out = R.ev(I, lambda: I.call(I.global_(GU), [user_metric(), prm, arr(I, q), pp if pp else arr(I, (3, -1, 2))], {}))
            if R.no_raise(lbl, out):
                R.same_all(lbl, out.value, (root(entries([tm.as_t(v) for v in q], prm), [tm.as_t(v) for v in (3, -1, 2)], ONE), 3, -1, 2), out)
    R.guard("_P", func)

    for cls, tl in (("Geodesic", None), ("Geodesic", True), ("Geodesic", False), ("Geodesic", 1), ("Geodesic", 0), ("Timelike", None), ("Nulllike", None)):
        def one(cls=cls, tl=tl):
            R.group = cls + ("" if tl is None else " time_like=%s" % tl)
            R.where = R.loc_of(I, "einsteinpy.geodesic.%s.__init__" % cls)
            null = cls == "Nulllike" or tl is not None and not tl
            mu = ZERO if null else ONE
            for met, pr in ((user_metric(), prm), ("Schwarzschild", ()), ("Schwarzschild", (ZERO,)), ("Kerr", (S("a"),)), ("KerrNewman", prm)):
                lbl = met if isinstance(met, str) else "user metric"

                def f():
                    no_integration(I)
                    kw = {} if tl is None else dict(time_like=tl)
                    o = I.call(I.global_("einsteinpy.geodesic." + cls), [met, pr, x3, p], kw)
                    return tuple(I.truth(get(I, o, n)) if n == "time_like" else get(I, o, n) for n in ("position", "momentum", "time_like", "kind"))
                out = R.ev(I, f)
                if not R.no_raise(lbl, out):
                    continue
                x0 = (ZERO,) + x3
                R.same_all(lbl + " position", out.value[0], x0, out, at=(0,))
                if isinstance(met, str):
                    mo = R.ev(I, lambda: I.call(I.global_("einsteinpy.geodesic.utils." + {"Schwarzschild": "_sch", "Kerr": "_kerr", "KerrNewman": "_kerrnewman"}[met]),
                                                [arr(I, x0)] + list(pr), {}))
                    g = mo.value
                else:
                    g = entries(x0, pr)
                R.same_all(lbl + " momentum", out.value[1], (root(g, p, mu),) + p, out, at=(1,))
                R.equal(lbl + " time_like", out.value[2], not null, out.facts, out.guard)
                R.equal(lbl + " kind", out.value[3], "Null-like" if null else "Time-like", out.facts, out.guard)
        R.guard(cls, one)
