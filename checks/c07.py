"""C07: results do not depend on the unit a quantity is expressed in."""
from .common import *

MIN_OBLIGATIONS = 150


def run(R):
    R.rule("the same physical mass / charge / spin given in any unit (unit scale an arbitrary positive symbol k) yields the same metric, "
           "inverse, connection, horizons and helper values as in SI units")
    I = R.interp()
    k1, k2 = S("kM", True), S("kQ", True)
    x = vec4()
    M, a, Qc = S("M", True), S("a"), S("Q")
    kg, Cc = unit(I, "kg"), unit(I, "C")
    um, uq = Unit(kg.scale * k1, kg.dims), Unit(Cc.scale * k2, Cc.dims)
    NAMED = (("solMass", "mC"), ("g", "uC"), ("earthMass", "kC"), ("ton", "A h"))
    for n, nm in [(n, w) for n in MODQ for w in (None,) + NAMED]:
        def one(n=n, nm=nm, um=um, uq=uq, k1=k1, k2=k2):
            R.group = PYNAME[n]
            if nm:
                um, uq = unit(I, nm[0]), unit(I, nm[1])
                k1, k2 = um.scale / kg.scale, uq.scale / Cc.scale
                R.group += " in %s, %s" % nm
            R.where = R.loc_of(I, "einsteinpy.metric.BaseMetric.__init__")

            def f():
                m = make_metric(I, n, M=Q(I, M / k1, um), Qc=Q(I, Qc / k2, uq), **({} if n == "schw" or nm is None else dict(a=Q(I, a * 100, "percent"))))
                g = meth(I, m, "metric_covariant", arr(I, x))
                gi = meth(I, m, "metric_contravariant", arr(I, x))
                ch = I.call(get(I, m, "christoffels"), [arr(I, x)], {})
                d = I.content(meth(I, m, "singularities"))
                em = meth(I, m, "em_potential_covariant", arr(I, x)) if n == "kn" else None
                return g, gi, ch, d.d["outer_horizon"], get(I, m, "sch_rad"), em
            out = R.ev(I, f, SPIN_OK(a))
            if not R.no_raise("metric in other units", out):
                return
            g = spec_metric(n)
            gi = spec_inverse(g)
            rs, al, rq2 = params()
            R.same_all("metric_covariant", out.value[0], g, out, at=(0,))
            R.same_all("metric_contravariant", out.value[1], gi, out, at=(1,))
            R.same_all("christoffels", out.value[2], spec_christoffel(g, gi, x), out, at=(2,))
            h = rs if n == "schw" else rs / 2 + tm.sqrt(rs * rs / 4 - al * al - (rq2 if n == "kn" else ZERO))
            R.equal("outer_horizon", out.value[3], h, out.facts, out.guard)
            R.equal("sch_rad", out.value[4], rs, out.facts, out.guard)
        R.guard(n, one)

    HU = (("solMass", "uC", "km", "deg"), ("g", "mC", "AU", "arcmin"), ("earthMass", "kC", "lyr", "arcsec"), ("ton", "A h", "solRad", "mrad"))

    def helpers(names=None, um=um, uq=uq, k1=k1, k2=k2):
        R.group = "helpers" if names is None else "helpers in %s, %s, %s, %s" % names
        BM = "einsteinpy.metric.BaseMetric"
        t, r, th, ph = x
        rs, al, rq2 = params()
        co = tm.cos(th)
        Sg = r * r + al * al * co * co
        k3, k4 = S("kL", True), S("kA", True)
        mt, rad = unit(I, "m"), unit(I, "rad")
        ul, ua = Unit(mt.scale * k3, mt.dims), Unit(rad.scale * k4, rad.dims)
        if names is not None:
            um, uq, ul, ua = (unit(I, q) for q in names)
            k1, k2, k3, k4 = um.scale, uq.scale, ul.scale, ua.scale
        qr, qth, qM, qa, qQ = Q(I, r / k3, ul), Q(I, th / k4, ua), Q(I, M / k1, um), Q(I, a, "") if names is None else Q(I, a * 100, "percent"), Q(I, Qc / k2, uq)
        for nm, args, w in (("sigma", (qr, qth, qM, qa), Sg), ("rho", (qr, qth, qM, qa), tm.sqrt(Sg)),
                            ("delta", (qr, qM, qa, qQ), r * r - rs * r + al * al + rq2), ("schwarzschild_radius", (qM,), rs),
                            ("alpha", (qM, qa), al)):
            def f(nm=nm, args=args):
                return I.call(I.getattr_(I.global_(BM), nm), list(args), {})
            o = R.ev(I, f, SPIN_OK(a))
            if R.no_raise(nm, o):
                R.equal(nm, o.value, w, o.facts, o.guard, where=R.loc_of(I, BM + "." + nm))
    R.guard("helpers", helpers)
    for names in HU:
        R.guard("helpers", lambda: helpers(names))

    def charge():
        R.group = "KerrNewman q"
        R.where = R.loc_of(I, MODQ["kn"] + ".__init__")
        kq = S("kq", True)
        base = unit(I, "C / kg")
        u2 = Unit(base.scale * kq, base.dims)
        u = [S("u%d" % i) for i in range(4)]

        def f(q):
            m = make_metric(I, "kn", q=q)
            return I.call(get(I, m, "f_vec"), [S("lam"), arr(I, x + u)], {})
        o1 = R.ev(I, lambda: f(Q(I, S("qm") / kq, u2)), SPIN_OK(a))
        o2 = R.ev(I, lambda: f(Q(I, S("qm"), "C / kg")), SPIN_OK(a))
        if R.no_raise("f_vec", o1) and R.no_raise("f_vec SI", o2):
            R.same_all("f_vec", o1.value, o2.value, o1)
        for un in ("C / g", "uC / kg", "mC / ton"):
            o3 = R.ev(I, lambda: f(Q(I, S("qm") * base.scale / unit(I, un).scale, un)), SPIN_OK(a))
            if R.no_raise("f_vec " + un, o3):
                R.same_all("f_vec " + un, o3.value, o2.value, o3)
    R.guard("q", charge)

    # coordinates given in other length / angle / time units
    def coords():
        kt, kl, ka = S("kt", True), S("kL", True), S("kA", True)

        def U(name, sc):
            b = unit(I, name)
            return Unit(b.scale * sc, b.dims)
        tt = U("s", kt)
        sets = {
            "BoyerLindquistDifferential": dict(t=("t0", "s", kt), r=("r0", "m", kl), theta=("th0", "rad", ka), phi=("ph0", "rad", ka),
                                               v_r=("vr", "m / s", kl / kt), v_th=("vth", "rad / s", ka / kt), v_p=("vp", "rad / s", ka / kt)),
            "SphericalDifferential": dict(t=("t0", "s", kt), r=("r0", "m", kl), theta=("th0", "rad", ka), phi=("ph0", "rad", ka),
                                          v_r=("vr", "m / s", kl / kt), v_th=("vth", "rad / s", ka / kt), v_p=("vp", "rad / s", ka / kt)),
            "CartesianDifferential": dict(t=("t0", "s", kt), x=("x0", "m", kl), y=("y0", "m", kl), z=("z0", "m", kl),
                                          v_x=("vx", "m / s", kl / kt), v_y=("vy", "m / s", kl / kt), v_z=("vz", "m / s", kl / kt)),
        }
        POS = {"r0"}
        for cls, kw in sets.items():
            R.group = cls
            R.where = R.loc_of(I, "einsteinpy.coordinates." + cls)

            def mk(si, cls=cls, kw=kw):
                c = {}
                for k, (s, un, sc) in kw.items():
                    v = S(s, s in POS)
                    c[k] = Q(I, v, un) if si else Q(I, v / sc, U(un, sc))
                return I.call(I.global_("einsteinpy.coordinates." + cls), [], c)
            targets = {"CartesianDifferential": ("spherical_differential",), "SphericalDifferential": ("cartesian_differential",),
                       "BoyerLindquistDifferential": ("cartesian_differential", "spherical_differential")}[cls]
            if cls == "CartesianDifferential":
                targets += ("bl_differential",)
            if cls == "SphericalDifferential":
                targets += ("bl_differential",)
            for tg in targets:
                km = {} if cls != "BoyerLindquistDifferential" and tg != "bl_differential" else \
                    dict(M=Q(I, M, "kg"), a=Q(I, a, ""))
                km2 = {} if not km else dict(M=Q(I, M / k1, um), a=Q(I, a, ""))

                def f(si):
                    o = mk(si)
                    r = meth(I, o, tg, **(km if si else km2))
                    names = [q for q in I.content(r).d if isinstance(I.content(r).d[q], QuantV)]
                    return tuple((q, get(I, r, q)) for q in sorted(names))
                pre = SPIN_OK(a) if km else []
                o1 = R.ev(I, lambda: f(True), pre)
                o2 = R.ev(I, lambda: f(False), pre)
                if R.no_raise(tg, o1) and R.no_raise(tg + " other units", o2):
                    R.same_all(tg, o2.value, o1.value, o2)
    R.guard("coords", coords)

    # every reported component of coordinate objects
    CU = (("yr", "AU", "deg", "km / h", "deg / d", "solMass"), ("h", "km", "arcmin", "AU / yr", "arcsec / s", "g"),
          ("ms", "pc", "arcsec", "cm / s", "mrad / min", "ton"), ("day", "solRad", "deg", "km / s", "rad / h", "earthMass"))

    def reports(names=None, k1=k1, um=um):
        kt, kl, ka = S("kt", True), S("kL", True), S("kA", True)
        sc = {"s": kt, "m": kl, "rad": ka, "m / s": kl / kt, "rad / s": ka / kt}
        if names:
            sc = {b: unit(I, n).scale / unit(I, b).scale for b, n in zip(("s", "m", "rad", "m / s", "rad / s"), names)}
            um = unit(I, names[5])
            k1 = um.scale / kg.scale
        suffix = " in %s" % ", ".join(names) if names else ""

        def U(name):
            b = unit(I, name)
            return Unit(b.scale * sc[name], b.dims)
        for s in SYS:
            for diff in (False, True):
                cls = s + ("Differential" if diff else "")
                R.group = cls + suffix
                R.where = R.loc_of(I, "einsteinpy.coordinates." + cls)
                items = [("t", S("t0"), "s")] + list(zip(CN[s], psyms(s), PU[s])) + (list(zip(VN[s], vsyms(s), VU[s])) if diff else [])

                def mk(si, items=items, cls=cls):
                    kw = {n: (Q(I, v, un) if si else Q(I, v / sc[un], U(un))) for n, v, un in items}
                    return I.call(I.global_("einsteinpy.coordinates." + cls), [], kw)

                def mM(si):
                    return dict(M=Q(I, M, "kg") if si else Q(I, M / k1, um), a=Q(I, a, ""))
                calls = [("values", {}), ("position", {})]
                if not diff:
                    for d in SYS:
                        if d != s:
                            calls.append(("to_" + SHORT[d], d))
                for nm, d in calls:
                    def f(si, nm=nm, d=d, diff=diff):
                        if not d:
                            return meth(I, mk(si), nm)
                        r = meth(I, mk(si), nm, **mM(si))
                        return tuple(get(I, r, q) for q in ("t",) + CN[d])
                    o1 = R.ev(I, lambda: f(True), SPIN_OK(a))
                    o2 = R.ev(I, lambda: f(False), SPIN_OK(a))
                    if R.no_raise(nm, o1) and R.no_raise(nm + " other units", o2):
                        R.same_all(nm, o2.value, o1.value, o2)
                if diff:
                    for d in SYS:
                        if d == s:
                            continue

                        def f(si, d=d):
                            r = meth(I, mk(si), SHORT[d] + "_differential", **mM(si))
                            return tuple(get(I, r, q) for q in ("t",) + CN[d] + VN[d])
                        o1 = R.ev(I, lambda: f(True), SPIN_OK(a))
                        o2 = R.ev(I, lambda: f(False), SPIN_OK(a))
                        nm = SHORT[d] + "_differential"
                        if R.no_raise(nm, o1) and R.no_raise(nm + " other units", o2):
                            R.same_all(nm, o2.value, o1.value, o2)
                if not diff:
                    def f(si):
                        o = mk(si)
                        return tuple(I.getitem(o, i) for i in range(4))
                    o1, o2 = R.ev(I, lambda: f(True)), R.ev(I, lambda: f(False))
                    if R.no_raise("[i]", o1) and R.no_raise("[i] other units", o2):
                        R.same_all("[i]", o2.value, o1.value, o2)
                else:
                    def f(si):
                        o = mk(si)
                        gg = [[S("g%d%d" % (min(i, j), max(i, j))) for j in range(4)] for i in range(4)]

                        def cov(I2, args, kwargs):
                            return arr(I, [e for row in gg for e in row], (4, 4))
                        g = I.call(I.global_("einsteinpy.metric.BaseMetric"), [], dict(coords=o, M=mM(si)["M"], metric_cov=PyFn(cov, "cov")))
                        return meth(I, o, "velocity", g), get(I, o, "v_t"), tuple(get(I, o, n) for n, _, _ in items)
                    o1, o2 = R.ev(I, lambda: f(True)), R.ev(I, lambda: f(False))
                    if R.no_raise("velocity", o1) and R.no_raise("velocity other units", o2):
                        R.same_all("velocity, v_t and components", o2.value, o1.value, o2)
    R.guard("reports", reports)
    for names in CU:
        R.guard("reports", lambda: reports(names))
