"""C02: contravariant metric is the inverse of the (perturbed) covariant metric."""
from .common import *

MIN_OBLIGATIONS = 100


def run(R):
    R.rule("metric_covariant(x) . metric_contravariant(x) = identity as terms, for every shipped metric and for a user-supplied "
           "metric with and without perturbation; covariant = user metric + perturbation; both user functions receive the caller's x")
    I = R.interp()
    for n in MODQ:
        def one(n=n):
            R.group = PYNAME[n]
            R.where = R.loc_of(I, MODQ[n] + ".metric_contravariant")

            def f():
                m = make_metric(I, n)
                x = arr(I, vec4())
                return meth(I, m, "metric_covariant", x), meth(I, m, "metric_contravariant", x)
            out = R.ev(I, f, SPIN_OK(S("a")))
            if R.no_raise("metric_contravariant", out):
                g, gi = out.value
                R.same_all("inverse", gi, spec_inverse(spec_metric(n)), out, at=(1,))
                R.require("numeric shape", len(g) == 4 and len(gi) == 4)
                R.same_all("g.ginv", matmul(g, gi), eye(4), out)
        R.guard(n, one)

    BM = "einsteinpy.metric.BaseMetric"
    pats = {
        "block": [(0, 0), (1, 1), (2, 2), (3, 3), (0, 3)],
        "block12": [(0, 0), (1, 1), (2, 2), (3, 3), (1, 2)],
        "dense": [(i, j) for i in range(4) for j in range(i, 4)],
    }
    variants = [(p, q, None, bl, {}) for p in pats for q in (False, True)]
    SP, CH = (lambda: Q(I, S("a"), "")), (lambda: Q(I, S("Q"), "C"))
    variants += [("block", q, None, mk, kw) for q in (False, True) for mk, kw in ((bl, dict(Q=CH)), (bl, dict(a=SP, Q=CH)), (sph, dict(Q=CH)), (sph, dict(a=SP)), (cart, dict(a=SP, Q=CH)))]
    variants += [("block", True, nm, mk, {}) for nm, mk in (("Base Metric", bl), ("Schwarzschild Metric", sph), ("my metric", bl), ("", cart), ("Kerr Metric", cart))]
    for pat, pert, mname, mk, par in variants:
        if True:
            def two(pat=pat, idx=pats[pat], pert=pert, mname=mname, mk=mk, par=par):
                R.group = "BaseMetric %s%s%s" % (pat, " perturbed" if pert else "", "" if mname is None else " named %r in %s coordinates" % (mname, mk.__name__)) + (" with %s, %s" % (", ".join(par), mk.__name__) if par else "")
                R.where = R.loc_of(I, BM + ".metric_covariant")
                x4 = vec4()

                def mat(nm, x):
                    g = [[ZERO] * 4 for _ in range(4)]
                    for i, j in idx:
                        g[i][j] = g[j][i] = tm.func("%s%d%d" % (nm, i, j), tuple(x))
                    return g

                def user(nm):
                    def fn(I_, args, kw):
                        v = args[0] if args else next(iter(kw.values()))
                        xs = list(I_.iterate(v))
                        return I_.new_arr((4, 4), [e for r in mat(nm, [tm.as_t(q) for q in xs]) for e in r])
                    return PyFn(fn, nm)

                def f():
                    kw = dict(coords=mk(I), M=Q(I, S("M", True), "kg"), metric_cov=user("g"))
                    if mname is not None:
                        kw["name"] = mname
                    kw.update({k: v() for k, v in par.items()})
                    if pert:
                        kw["perturbation"] = user("p")
                    m = I.call(I.global_(BM), [], kw)
                    x = arr(I, x4)
                    return (meth(I, m, "metric_covariant", x), meth(I, m, "metric_contravariant", x),
                            I.call(get(I, m, "metric_cov"), [x], {}))
                out = R.ev(I, f, SPIN_OK(S("a")) if "a" in par else ())
                if not R.no_raise("metric", out):
                    return
                g0 = mat("g", x4)
                w = [[g0[i][j] + (mat("p", x4)[i][j] if pert else ZERO) for j in range(4)] for i in range(4)]
                w = tuple(tuple(r) for r in w)
                R.same_all("covariant", out.value[0], w, out, at=(0,))
                R.same_all("unperturbed metric_cov", out.value[2], tuple(tuple(r) for r in g0), out, at=(2,))
                inv = I.models.mat_inv_terms(I, w)
                R.same_all("contravariant", out.value[1], tuple(tuple(r) for r in inv), out, at=(1,))
            R.guard(pat, two)
    def kept():
        """the user's functions may hand out arrays they keep: evaluating the metric leaves those arrays alone"""
        R.group = "arrays kept by the user"
        R.where = R.loc_of(I, BM + ".metric_covariant")
        sy = lambda p: tuple(tuple(S("%s%d%d" % (p, min(i, j), max(i, j))) for j in range(4)) for i in range(4))
        g0, p0 = sy("g"), sy("p")

        def f():
            G, P = arr(I, [e for r in g0 for e in r], (4, 4)), arr(I, [e for r in p0 for e in r], (4, 4))
            m = I.call(I.global_(BM), [], dict(coords=bl(I), M=Q(I, S("M", True), "kg"), metric_cov=PyFn(lambda J, a, k: G, "g"), perturbation=PyFn(lambda J, a, k: P, "p")))
            x = arr(I, vec4())
            a = meth(I, m, "metric_covariant", x)
            meth(I, m, "metric_contravariant", x)
            return a, meth(I, m, "metric_covariant", x), G, P, x
        out = R.ev(I, f)
        if R.no_raise("metric", out):
            w = tuple(tuple(a + b for a, b in zip(r, s)) for r, s in zip(g0, p0))
            R.same_all("first", out.value[0], w, out, at=(0,))
            R.same_all("again", out.value[1], w, out, at=(1,))
            R.same_all("metric array", out.value[2], g0, out, at=(2,))
            R.same_all("perturbation array", out.value[3], p0, out, at=(3,))
            R.same_all("position array", out.value[4], tuple(vec4()), out, at=(4,))
    R.guard("kept", kept)
    R.guard("regular", lambda: metric_regular(R, I, "metric_contravariant", lambda fn: I.call(fn, [arr(I, vec4())], {})))
    R.guard("integers", lambda: metric_ints(R, I, ("metric_contravariant",)))
