"""C12: the time component of the 4-velocity normalises it."""
from .common import *

MIN_OBLIGATIONS = 60


def run(R):
    R.rule("abstract value of <X>Differential.velocity(metric) is (u0, v1, v2, v3) with g_ab u^a u^b = c^2 for the metric at the event, u0 being the "
           "root (-B + sqrt(B^2 - 4AC)) / 2A; v_t is unset before and is recomputed for every metric; lorentz_factor = 1/sqrt(1 - v^2/c^2)")
    I = R.interp()
    sym = lambda p: [[S("%s%d%d" % (p, min(i, j), max(i, j))) for j in range(4)] for i in range(4)]

    def root(g, v):
        A = g[0][0]
        B = 2 * tm.tsum(g[0][i + 1] * v[i] for i in range(3))
        Cq = tm.tsum(g[i + 1][j + 1] * v[i] * v[j] for i in range(3) for j in range(3)) - C * C
        return (-B + tm.sqrt(B * B - 4 * A * Cq)) / (2 * A)

    def gmetric(I, o, p):
        g = sym(p)

        def cov(I2, args, kw):
            return arr(I2, [e for row in g for e in row], (4, 4))
        return I.call(I.global_("einsteinpy.metric.BaseMetric"), [], dict(coords=o, M=Q(I, S("M", True), "kg"), metric_cov=PyFn(cov, "cov")))

    def func():
        R.group = "v0"
        nm = "einsteinpy.coordinates.utils.v0"
        R.where = R.loc_of(I, nm)
        g, v = sym("g"), [S("v1"), S("v2"), S("v3")]
        out = R.ev(I, lambda: I.call(I.global_(nm), [arr(I, [e for row in g for e in row], (4, 4))] + v, {}))
        if R.no_raise("v0", out):
            R.equal("generic metric", out.value, root(g, v), out.facts, out.guard)
            u = [out.value] + v
            R.equal("g u u = c^2", tm.tsum(g[i][j] * u[i] * u[j] for i in range(4) for j in range(4)), C * C, out.facts, out.guard)
    R.guard("v0", func)

    for s in SYS:
        def one(s=s):
            R.group = s + "Differential"
            R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.velocity" % s)
            v = vsyms(s)
            out = R.ev(I, lambda: get(I, BUILD[s](I), "v_t"))
            if R.no_raise("v_t before", out):
                R.require("v_t unset before a metric is given", out.value is None, "v_t is %r" % (out.value,))

            def f():
                o = BUILD[s](I)
                m = gmetric(I, o, "g")
                m2 = gmetric(I, o, "h")
                a = meth(I, o, "velocity", m)
                t1 = get(I, o, "v_t")
                b = meth(I, o, "velocity", m2)
                t2 = get(I, o, "v_t")
                I.setattr_(o, "v_t", (m,))
                t3 = get(I, o, "v_t")
                return a, b, (t1, t2, t3), tuple(get(I, o, n) for n in ("t",) + CN[s] + VN[s]), \
                    meth(I, o, "values"), meth(I, o, "position")
            out = R.ev(I, f)
            if not R.no_raise("velocity", out):
                return
            g, h = sym("g"), sym("h")
            r1, r2 = root(g, v), root(h, v)
            R.same_all("velocity(metric)", out.value[0], (r1,) + v, out, at=(0,))
            R.same_all("velocity(second metric)", out.value[1], (r2,) + v, out, at=(1,))
            R.same_all("v_t", out.value[2], tuple(Q(I, r, "m/s") for r in (r1, r2, r1)), out, at=(2,))
            q = (Q(I, S("t0"), "s"),) + tuple(Q(I, a, b) for a, b in zip(psyms(s), PU[s])) + tuple(Q(I, a, b) for a, b in zip(v, VU[s]))
            R.same_all("components untouched", out.value[3], q, out, at=(3,))
            R.same_all("values() untouched", out.value[4], (S("t0"),) + psyms(s) + v, out, at=(4,))
            R.same_all("position() untouched", out.value[5], (C * S("t0"),) + psyms(s), out, at=(5,))
        R.guard(s, one)

        def pert(s=s):
            R.group = s + "Differential, perturbed metric"
            v = vsyms(s)
            g, h = sym("g"), sym("h")
            full = [[g[i][j] + h[i][j] for j in range(4)] for i in range(4)]

            def f():
                o = BUILD[s](I)
                mat = lambda m, nm: PyFn(lambda I2, a, k: arr(I2, [e for row in m for e in row], (4, 4)), nm)
                m = I.call(I.global_("einsteinpy.metric.BaseMetric"), [], dict(coords=o, M=Q(I, S("M", True), "kg"), metric_cov=mat(g, "cov"), perturbation=mat(h, "p")))
                return meth(I, o, "velocity", m)
            out = R.ev(I, f)
            if R.no_raise("velocity", out):
                R.same_all("velocity(metric)", out.value, (root(full, v),) + v, out)
        R.guard(s, pert)

    for n in MODQ:
        def one(n=n):
            R.group = PYNAME[n]
            R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.velocity" % ("Spherical" if n == "schw" else "BoyerLindquist"))
            mk = sph if n == "schw" else bl

            def f():
                o = mk(I)
                return meth(I, o, "velocity", make_metric(I, n, coords=o))
            out = R.ev(I, f, SPIN_OK(S("a")))
            if not R.no_raise("velocity", out):
                return
            x = [C * S("t0"), S("r0", True), S("th0"), S("ph0")]
            g = spec_metric(n, x)
            v = vsyms("Spherical")
            R.same_all("velocity", out.value, (root(g, v),) + v, out)
        R.guard(n, one)

    def lf():
        R.group = "lorentz_factor"
        nm = "einsteinpy.coordinates.utils.lorentz_factor"
        R.where = R.loc_of(I, nm)
        v = [S("v1"), S("v2"), S("v3")]
        out = R.ev(I, lambda: I.call(I.global_(nm), v, {}))
        if R.no_raise("lorentz_factor", out):
            R.equal("value", out.value, ONE / tm.sqrt(ONE - tm.tsum(a * a for a in v) / (C * C)), out.facts, out.guard)
    R.guard("lorentz", lf)
