"""C16: automatic differentiation of metrics is exact."""
from .common import *

MIN_OBLIGATIONS = 200
DN = "einsteinpy.utils.dual.DualNumber"


def dual_parts(I, v):
    if isinstance(v, Ref) and isinstance(I.content(v), Inst):
        return tm.as_t(get(I, v, "val")), tm.as_t(get(I, v, "deriv"))
    return tm.as_t(v), None


def dual_metric(name="g", idx=None, sym=True, dep=(0, 1, 2, 3)):
    """arbitrary user metric that accepts numbers and dual numbers: entries are uninterpreted functions of the coordinates, lifted to
    dual numbers by the chain rule"""
    def fn(I, args, kw):
        xs = [dual_parts(I, v) for v in I.iterate(args[0])]
        pr = tuple(tm.as_t(v) for v in args[1:])
        isd = any(d is not None for _, d in xs)
        y = [S("_y%d" % k) for k in range(4)]
        at = {y[k]: xs[k][0] for k in range(4)}
        els = []
        for i in range(4):
            for j in range(4):
                a, b = (min(i, j), max(i, j)) if sym else (i, j)
                if idx is not None and (a, b) not in idx:
                    els.append(0)
                    continue
                f = tm.func("%s%d%d" % (name, a, b), tuple(y[k] for k in dep) + pr)
                v = tm.subs(f, at)
                if isd:
                    d = tm.tsum(tm.subs(tm.diff(f, y[k]), at) * (xs[k][1] if xs[k][1] is not None else ZERO) for k in range(4))
                    els.append(I.call(I.global_(DN), [v, d], {}))
                else:
                    els.append(v)
        return I.new_arr((4, 4), els)
    return PyFn(fn, name)


def run(R):
    R.rule("abstract value of the automatic-differentiation derivative of a metric entry equals its formal partial derivative, for the three built-in "
           "metrics and for a metric of uninterpreted functions; the Hamiltonian force is d_k g^{ij} p_i p_j; invalid indices raise ValueError")
    I = R.interp()
    x = vec4()
    a, Qc = S("a"), S("Q")
    U = "einsteinpy.utils.dual."
    mets = [("_sch", (ZERO,)), ("_kerr", (a,)), ("_kerrnewman", (a, Qc)), ("user", (a, Qc))]

    def fnof(nm):
        return dual_metric() if nm == "user" else I.global_("einsteinpy.geodesic.utils." + nm)
    p = [S("p%d" % i) for i in range(4)]
    r, th = x[1], x[2]
    Sg = r * r + a * a * tm.cos(th) ** 2
    # regular points: Sigma > 0, Delta != 0, off the axis
    pre = [gtz(Sg), b_not(eqz(tm.sin(th))), b_not(eqz(r - 2)), b_not(eqz(r * r - 2 * r + a * a)), b_not(eqz(r * r - 2 * r + a * a + Qc * Qc)), b_not(eqz(a)), b_not(eqz(Qc)),
           b_not(eqz(Sg - 2 * r))]
    for nm, prm in mets:
        def one(nm=nm, prm=prm):
            R.group = nm
            o = R.ev(I, lambda: I.call(fnof(nm), [arr(I, x)] + list(prm), {}))
            g = tuple(tuple(tm.as_t(e) for e in row) for row in o.value)
            R.where = R.loc_of(I, U + "_jacobian_g")
            for k in range(4):
                want = tuple(tuple(tm.diff(g[i][j], x[k]) for j in range(4)) for i in range(4))
                out = R.ev(I, lambda: I.call(I.global_(U + "_jacobian_g"), [fnof(nm), prm, arr(I, x), k], {}), pre)
                if R.no_raise("_jacobian_g wrt %d" % k, out):
                    R.same_all("_jacobian_g wrt %d" % k, out.value, want, out)
                for i in range(4):
                    for j in range(4):
                        out = R.ev(I, lambda: I.call(I.global_(U + "_diff_g"), [fnof(nm), prm, arr(I, x), (i, j), k], {}), pre)
                        if R.no_raise("_diff_g (%d,%d) wrt %d" % (i, j, k), out):
                            R.equal("_diff_g (%d,%d) wrt %d" % (i, j, k), out.value, want[i][j], out.facts, out.guard, where=R.loc_of(I, U + "_diff_g"))
                if nm in ("user", "_sch", "_kerr"):
                    try:
                        pf = I.global_("einsteinpy.integrators.utils._PartHamFlow")
                    except AnalysisError:
                        continue           # inlined: covered by C17
                    out = R.ev(I, lambda: I.call(pf, [fnof(nm), prm, arr(I, x), arr(I, p), k], {}), pre)
                    if R.no_raise("force %d" % k, out):
                        R.equal("force %d" % k, out.value, tm.tsum(want[i][j] * p[i] * p[j] for i in range(4) for j in range(4)), out.facts, out.guard,
                                where=R.loc_of(I, "einsteinpy.integrators.utils._PartHamFlow"))
        R.guard(nm, one)

    def constant():
        R.group = "plain-number entries"
        R.where = R.loc_of(I, U + "_diff_g")

        def cm(I2, args, kw):
            return I2.new_arr((4, 4), [S("s%d%d" % (min(i, j), max(i, j))) for i in range(4) for j in range(4)])
        for k in range(4):
            out = R.ev(I, lambda: I.call(I.global_(U + "_jacobian_g"), [PyFn(cm, "const"), (), arr(I, x), k], {}))
            if R.no_raise("_jacobian_g wrt %d" % k, out):
                R.same_all("_jacobian_g wrt %d" % k, out.value, tuple((ZERO,) * 4 for _ in range(4)), out)
    R.guard("constant", constant)

    def bad():
        R.group = "invalid"
        R.where = R.loc_of(I, U + "_diff_g")
        for w in (4, -1, 7):
            must_raise(R, I, "wrt=%d" % w, lambda: I.call(I.global_(U + "_diff_g"), [dual_metric(), (), arr(I, x), (0, 1), w], {}), ("ValueError",))
            must_raise(R, I, "jacobian wrt=%d" % w, lambda: I.call(I.global_(U + "_jacobian_g"), [dual_metric(), (), arr(I, x), w], {}), ("ValueError",))
        for ix in ((0,), (0, 1, 2)):
            must_raise(R, I, "indices %r" % (ix,), lambda: I.call(I.global_(U + "_diff_g"), [dual_metric(), (), arr(I, x), ix, 1], {}), ("ValueError",))
    R.guard("bad", bad)
