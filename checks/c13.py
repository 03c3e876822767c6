"""C13: contravariant metrics of the geodesic module."""
from .common import *
from .c14 import no_integration

MIN_OBLIGATIONS = 60


def run(R):
    R.rule("abstract value of the built-in metric function selected by name equals the inverse of the textbook metric in geometrized units "
           "(c = G = M = 1, signature (-,+,+,+)), and its product with the covariant metric is the identity; sigma and delta equal their formulas")
    I = R.interp()
    t, r, th, ph = vec4()
    a, Qc = S("a"), S("Q")
    s, co = tm.sin(th), tm.cos(th)

    def cov(a, Qc):
        Sg = r * r + a * a * co * co
        m = 2 * r - Qc * Qc
        D = r * r - m + a * a - ZERO
        g = [[ZERO] * 4 for _ in range(4)]
        g[0][0] = -(ONE - m / Sg)
        g[1][1] = Sg / D
        g[2][2] = Sg
        g[3][3] = (r * r + a * a + m * a * a * s * s / Sg) * s * s
        g[0][3] = g[3][0] = -m * a * s * s / Sg
        return tuple(tuple(x) for x in g)
    G_ = "einsteinpy.geodesic.Geodesic"
    for nm, fn, prm, g in (("Schwarzschild", "_sch", (ZERO,), cov(ZERO, ZERO)), ("Kerr", "_kerr", (a,), cov(a, ZERO)),
                           ("KerrNewman", "_kerrnewman", (a, Qc), cov(a, Qc))):
        def one(nm=nm, fn=fn, prm=prm, g=g):
            R.group = nm
            R.where = R.loc_of(I, "einsteinpy.geodesic.utils." + fn)

            def pick():
                no_integration(I)
                # the function the public class uses for this name
                o = I.call(I.global_(G_), [nm, prm, (r, th, ph), (S("p1"), S("p2"), S("p3"))], dict(steps=1))
                return get(I, o, "metric"), get(I, o, "metric_params")

            def f():
                m, mp = pick()
                return I.call(m, [arr(I, vec4())] + list(mp), {})
            out = R.ev(I, f)
            if not R.no_raise("metric", out):
                return
            want = spec_inverse(g)
            R.same_all("contravariant", out.value, want, out)
            R.same_all("product with covariant", matmul(out.value, g), eye(4), out)
            out = R.ev(I, lambda: I.call(I.global_("einsteinpy.geodesic.utils." + fn), [arr(I, vec4())] + list(prm), {}))
            if R.no_raise(fn, out):
                R.same_all(fn, out.value, want, out)
            int_case(R, I, fn, lambda x4: I.call(I.global_("einsteinpy.geodesic.utils." + fn), [x4] + list(prm), {}), 4)
            regular(R, fn, I, lambda: I.call(I.global_("einsteinpy.geodesic.utils." + fn), [arr(I, vec4())] + list(prm), {}), METRIC_LOCI[:2] + [
                ("a = 0", {a: ZERO}), ("Q = 0", {Qc: ZERO}), ("a = Q = 0", {a: ZERO, Qc: ZERO})])
        R.guard(nm, one)

    def helpers():
        R.group = "helpers"
        for nm, args, w in (("sigma", [r, th, a], r * r + a * a * co * co), ("delta", [r, a, Qc], r * r - 2 * r + a * a + Qc * Qc),
                            ("delta", [r, a], r * r - 2 * r + a * a)):
            out = R.ev(I, lambda: I.call(I.global_("einsteinpy.geodesic.utils." + nm), args, {}))
            if R.no_raise(nm, out):
                R.equal("%s/%d" % (nm, len(args)), out.value, w, out.facts, out.guard, where=R.loc_of(I, "einsteinpy.geodesic.utils." + nm))
    R.guard("helpers", helpers)
