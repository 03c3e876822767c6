"""C06: horizons, ergospheres and the published metric helper functions."""
from .common import *

MIN_OBLIGATIONS = 30


def run(R):
    R.rule("singularities() radii and sigma/delta/rho/alpha/schwarzschild_radius equal their defining formulas as terms; horizon radii "
           "are roots of delta, ergosphere radii are roots of g_tt; delta is the one used in the metric")
    I = R.interp()
    BM = "einsteinpy.metric.BaseMetric"
    t, r, th, ph = vec4()
    rs, al, rq2 = params()
    co = tm.cos(th)

    def helpers():
        R.group = "helpers"
        R.where = R.loc_of(I, BM)
        M, a, Qc = S("M", True), S("a"), S("Q")
        Sg = r * r + al * al * co * co
        D0 = r * r - rs * r + al * al
        want = {"sigma": Sg, "rho": tm.sqrt(Sg), "delta": D0 + rq2, "delta0": D0, "schwarzschild_radius": rs, "alpha": al}
        args = {"sigma": (r, th, M, a), "rho": (r, th, M, a), "delta": (r, M, a, Qc), "delta0": (r, M, a),
                "schwarzschild_radius": (M,), "alpha": (M, a)}
        un = {"sigma": ("m", "rad", "kg", ""), "rho": ("m", "rad", "kg", ""), "delta": ("m", "kg", "", "C"),
              "delta0": ("m", "kg", ""), "schwarzschild_radius": ("kg",), "alpha": ("kg", "")}
        for k in want:
            for q in (False, True):
                def f(k=k, q=q):
                    c = I.global_(BM)
                    av = [Q(I, x, u) if q else x for x, u in zip(args[k], un[k])]
                    return I.call(I.getattr_(c, k.rstrip("0")), av, {})
                out = R.ev(I, f, SPIN_OK(a))
                nm = "%s(%s)" % (k, "quantities" if q else "floats")
                if R.no_raise(nm, out):
                    R.equal(nm, out.value, want[k], out.facts, out.guard, where=R.loc_of(I, BM + "." + k.rstrip("0")))
    R.guard("helpers", helpers)

    for n in MODQ:
        def one(n=n):
            R.group = PYNAME[n]
            R.where = R.loc_of(I, MODQ[n] + ".singularities")
            a = S("a")

            def f():
                m = make_metric(I, n)
                d = meth(I, m, "singularities")
                c = I.content(d)
                res = []
                for k in ("inner_ergosphere", "inner_horizon", "outer_horizon", "outer_ergosphere"):
                    v = c.d.get(k)
                    if v is None:
                        res.append(None)
                        continue
                    if n != "schw" and k.endswith("ergosphere"):
                        v = I.call(v, [th], {})
                    res.append(v)
                return tuple(res) + (len(c.d),)
            out = R.ev(I, f, SPIN_OK(a))
            if not R.no_raise("singularities", out):
                return
            ie, ih, oh, oe, k = out.value
            R.require("keys", k == 4 and None not in (ie, ih, oh, oe), "singularities() must publish exactly the four documented radii")
            if n == "schw":
                for nm, v, w in (("inner_ergosphere", ie, ZERO), ("inner_horizon", ih, ZERO), ("outer_horizon", oh, rs), ("outer_ergosphere", oe, rs)):
                    R.equal(nm, v, w, out.facts, out.guard)
                return
            q2 = ZERO if n == "kerr" else rq2
            dh = tm.sqrt(rs * rs / 4 - al * al - q2)
            de = tm.sqrt(rs * rs / 4 - al * al * co * co - q2)
            h = rs / 2
            for nm, v, w in (("inner_ergosphere", ie, h - de), ("inner_horizon", ih, h - dh), ("outer_horizon", oh, h + dh), ("outer_ergosphere", oe, h + de)):
                R.equal(nm, v, w, out.facts, out.guard)

            def g():
                m = make_metric(I, n)
                return meth(I, m, "metric_covariant", arr(I, vec4()))
            gm = R.ev(I, g, SPIN_OK(a))
            if R.no_raise("metric", gm):
                v = gm.value
                for nm, rad in (("inner_ergosphere", ie), ("outer_ergosphere", oe)):
                    R.equal("g_tt vanishes at %s" % nm, tm.subs(tm.as_t(v[0][0]), {r: tm.as_t(rad)}), ZERO, out.facts, out.guard)
                for nm, rad in (("inner_horizon", ih), ("outer_horizon", oh)):
                    R.equal("1/g_rr vanishes at %s" % nm, tm.subs(ONE / tm.as_t(v[1][1]), {r: tm.as_t(rad)}), ZERO, out.facts, out.guard)
        R.guard(n, one)

    # the published helpers are the ones the metric is built from
    def base():
        R.group = "BaseMetric"
        R.where = R.loc_of(I, BM)

        def f():
            m = make_metric(I, "kn")
            return get(I, m, "sch_rad")
        o = R.ev(I, f, SPIN_OK(S("a")))
        if R.no_raise("sch_rad", o):
            R.equal("sch_rad attribute", o.value, rs, o.facts, o.guard)
    R.guard("base", base)
