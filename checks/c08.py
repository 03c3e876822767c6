"""C08: invalid input is rejected with the documented exception, never evaluated."""
from .common import *

MIN_OBLIGATIONS = 100
METHODS = ("metric_covariant", "metric_contravariant", "christoffels", "f_vec", "singularities")


def run(R):
    R.rule("for each public entry point: the documented exception is raised exactly on the invalid inputs (spin outside [0,1], metric and "
           "coordinates of different systems, wrong physical dimension, missing mass or spin, unsupported name/order/era) and on no others")
    I = R.interp()
    x = vec4()
    u = [S("u%d" % i) for i in range(4)]
    a = S("a")
    bad_a = b_or(gtz(-a), gtz(a - 1))

    def callm(m, k):
        if k == "f_vec":
            return I.call(get(I, m, k), [S("lam"), arr(I, x + u)], {})
        if k == "singularities":
            return meth(I, m, k)
        return I.call(get(I, m, k), [arr(I, x)], {})

    PAIRS = (("Cartesian", "to_bl"), ("Spherical", "to_bl"), ("BoyerLindquist", "to_cartesian"), ("BoyerLindquist", "to_spherical"))

    def pos(cls):
        kw = dict(t=Q(I, S("t0"), "s"))
        kw.update((n, Q(I, v, un)) for n, v, un in zip(CN[cls], psyms(cls), PU[cls]))
        return I.call(I.global_("einsteinpy.coordinates." + cls), [], kw)

    def spin():
        R.group = "spin"
        for n in ("kerr", "kn"):
            for k in METHODS + (("em_potential_covariant", "em_tensor_covariant", "em_tensor_contravariant") if n == "kn" else ()):
                R.where = R.loc_of(I, MODQ[n] + "." + k)
                out = R.ev(I, lambda: callm(make_metric(I, n), k))
                R.raises_iff("%s.%s" % (PYNAME[n], k), out, bad_a, ("ValueError",))
        for how in ("M=,a=",):
            for cls, mk, ms in (("Cartesian", cart, ("convert_bl", "bl_differential")), ("Spherical", sph, ("convert_bl", "bl_differential")),
                                ("BoyerLindquist", bl, ("convert_cartesian", "convert_spherical", "cartesian_differential", "spherical_differential"))):
                for k in ms:
                    R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.%s" % (cls, k))
                    for qty in (True, False):
                        kw = dict(M=Q(I, S("M", True), "kg"), a=Q(I, a, "")) if qty else dict(M=S("M", True), a=a)
                        out = R.ev(I, lambda: meth(I, mk(I), k, **kw))
                        R.raises_iff("%s.%s" % (cls, k), out, bad_a, ("ValueError",))
        for cls, d in PAIRS:
            for k in (d, "convert_" + d[3:]):
                R.where = R.loc_of(I, "einsteinpy.coordinates.%s.%s" % (cls, k))
                for qty in (True, False):
                    kw = dict(M=Q(I, S("M", True), "kg"), a=Q(I, a, "")) if qty else dict(M=S("M", True), a=a)
                    out = R.ev(I, lambda: meth(I, pos(cls), k, **kw))
                    R.raises_iff("%s.%s" % (cls, k), out, bad_a, ("ValueError",))
        out = R.ev(I, lambda: I.call(I.getattr_(I.global_("einsteinpy.metric.BaseMetric"), "alpha"), [S("M", True), a], {}))
        R.raises_iff("BaseMetric.alpha", out, bad_a, ("ValueError",), where=R.loc_of(I, "einsteinpy.metric.BaseMetric.alpha"))
    R.guard("spin", spin)

    def systems():
        R.group = "system"
        mk = {"Cartesian": cart, "Spherical": sph, "BoyerLindquist": bl}
        own = {"schw": "Spherical", "kerr": "BoyerLindquist", "kn": "BoyerLindquist"}
        for n in MODQ:
            for s in mk:
                for k in METHODS:
                    R.where = R.loc_of(I, MODQ[n] + "." + k)
                    out = R.ev(I, lambda: callm(make_metric(I, n, coords=mk[s](I)), k), SPIN_OK(a))
                    R.raises_iff("%s in %s .%s" % (PYNAME[n], s, k), out, s != own[n], ("CoordinateError",))
                # velocity / v_t of coordinates in system s with metric n defined in its own system
            for s in mk:
                R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.velocity" % s)

                def vel():
                    m = make_metric(I, n)
                    return meth(I, mk[s](I), "velocity", m)
                out = R.ev(I, vel, SPIN_OK(a))
                R.raises_iff("%sDifferential.velocity(%s)" % (s, PYNAME[n]), out, s != own[n], ("CoordinateError",))

                def vt():
                    m = make_metric(I, n)
                    o = mk[s](I)
                    I.setattr_(o, "v_t", (m,))
                    return get(I, o, "v_t")
                out = R.ev(I, vt, SPIN_OK(a))
                R.raises_iff("%sDifferential.v_t=(%s,)" % (s, PYNAME[n]), out, s != own[n], ("CoordinateError",))
        # ... and with a metric the user made, under any name
        for ms, mkm in mk.items():
            for nm in (None, "my metric", "Kerr Metric", ""):
                for s in mk:
                    R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.velocity" % s)

                    def um():
                        kw = dict(coords=mkm(I), M=Q(I, S("M", True), "kg"), metric_cov=PyFn(lambda I2, ar, k2: arr(I2, [ONE if i == j else ZERO for i in range(4) for j in range(4)], (4, 4)), "g"))
                        if nm is not None:
                            kw["name"] = nm
                        return I.call(I.global_("einsteinpy.metric.BaseMetric"), [], kw)
                    for how in ("velocity", "v_t"):
                        def go():
                            o = mk[s](I)
                            if how == "v_t":
                                return I.setattr_(o, "v_t", (um(),))
                            return meth(I, o, "velocity", um())
                        out = R.ev(I, go)
                        R.raises_iff("%sDifferential.%s with a metric%s in %s" % (s, how, "" if nm is None else " named %r" % nm, ms), out, s != ms, ("CoordinateError",))
    R.guard("systems", systems)

    def messages():
        """the rejected system is named in the error (documented text)"""
        R.group = "message"
        mk = {"Cartesian": cart, "Spherical": sph, "BoyerLindquist": bl}
        for s in mk:
            other = "kerr" if s != "BoyerLindquist" else "schw"
            osys = "BoyerLindquist" if other == "kerr" else "Spherical"
            R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential" % s)
            out = R.ev(I, lambda: meth(I, mk[s](I), "velocity", make_metric(I, other)), SPIN_OK(a))
            for st, e in out.raises:
                msg = e.args[0] if e.args else None
                if isinstance(msg, str):
                    R.require("%s names the metric's system" % s, osys in msg, "message does not contain the offending system %r: %r" % (osys, msg))
    R.guard("messages", messages)

    def kinds():
        R.group = "dimension"
        wrong = Q(I, S("w", True), "K")
        for cls, mk, names in (("Cartesian", cart, ("t", "x", "y", "z", "v_x", "v_y", "v_z")),
                               ("Spherical", sph, ("t", "r", "theta", "phi", "v_r", "v_th", "v_p")),
                               ("BoyerLindquist", bl, ("t", "r", "theta", "phi", "v_r", "v_th", "v_p"))):
            for nm in names:
                must_raise(R, I, "%sDifferential(%s in kelvin)" % (cls, nm), lambda: mk(I, **{nm: wrong}), ("UnitsError", "UnitConversionError"),
                           where=R.loc_of(I, "einsteinpy.coordinates.%sDifferential.__init__" % cls))
            pos = {n2: Q(I, S(n2 + "0", n2 == "r"), "s" if n2 == "t" else ("rad" if n2 in ("theta", "phi") else "m")) for n2 in names[:4]}
            for nm in names[:4]:
                kw = dict(pos)
                kw[nm] = wrong
                must_raise(R, I, "%s(%s in kelvin)" % (cls, nm), lambda: I.call(I.global_("einsteinpy.coordinates." + cls), [], kw),
                           ("UnitsError", "UnitConversionError"), where=R.loc_of(I, "einsteinpy.coordinates.%s.__init__" % cls))
        for n, kws in (("schw", ("M",)), ("kerr", ("M", "a")), ("kn", ("M", "a", "Qc", "q"))):
            for k in kws:
                must_raise(R, I, "%s(%s in kelvin)" % (PYNAME[n], k), lambda: make_metric(I, n, **{k: wrong}), ("UnitsError", "UnitConversionError"),
                           where=R.loc_of(I, MODQ[n] + ".__init__"))
    R.guard("kinds", kinds)

    def missing():
        R.group = "missing"
        kM, ka = dict(M=Q(I, S("M", True), "kg")), dict(a=Q(I, a, ""))
        for cls, mk, ms in (("Cartesian", cart, ("convert_bl", "bl_differential")), ("Spherical", sph, ("convert_bl", "bl_differential")),
                            ("BoyerLindquist", bl, ("convert_cartesian", "convert_spherical", "cartesian_differential", "spherical_differential"))):
            for k in ms:
                for lbl, kw in (("no M", ka), ("no a", kM), ("neither", {})):
                    must_raise(R, I, "%s.%s %s" % (cls, k, lbl), lambda: meth(I, mk(I), k, **kw), ("KeyError",),
                               where=R.loc_of(I, "einsteinpy.coordinates.%sDifferential.%s" % (cls, k)))
        for cls, k in [(c, k) for c, d in PAIRS for k in (d, "convert_" + d[3:])]:
            for lbl, kw in (("no M", ka), ("no a", kM), ("neither", {})):
                must_raise(R, I, "%s.%s %s" % (cls, k, lbl), lambda: meth(I, pos(cls), k, **kw), ("KeyError",),
                           where=R.loc_of(I, "einsteinpy.coordinates.%s.%s" % (cls, k)))
    R.guard("missing", missing)

    def others():
        R.group = "geodesic"
        for nm in ("Reissner", "schwarzschild", "kerr", ""):
            for cls in ("Geodesic", "Timelike", "Nulllike"):
                must_raise(R, I, "%s(%r)" % (cls, nm), lambda: I.call(I.global_("einsteinpy.geodesic." + cls), [], dict(
                    metric=nm, metric_params=(a,), position=I.new_list([S("p0"), S("p1"), S("p2")]),
                    momentum=I.new_list([S("q0"), S("q1"), S("q2")]))), ("NotImplementedError",), where=R.loc_of(I, "einsteinpy.geodesic.Geodesic.__init__"))
        for order in (0, 1, 3, 5, 7, 10):
            must_raise(R, I, "GeodesicIntegrator(order=%d)" % order, lambda: I.call(I.global_("einsteinpy.integrators.GeodesicIntegrator"), [], dict(
                metric=PyFn(lambda I_, ar, kw: None, "metric"), metric_params=(a,), q0=I.new_list([S("p%d" % i) for i in range(4)]),
                p0=I.new_list([S("q%d" % i) for i in range(4)]), order=order)), ("NotImplementedError",),
                where=R.loc_of(I, "einsteinpy.integrators.GeodesicIntegrator.__init__"))
        R.group = "scalar_factor"
        for fn in ("scalar_factor", "scalar_factor_derivative"):
            for era in ("", "MD", "matter", "xx"):
                must_raise(R, I, "%s(era=%r)" % (fn, era), lambda: I.call(I.global_("einsteinpy.utils.scalar_factor." + fn), [Q(I, S("t", True), "s"), era], {}),
                           ("ValueError",), where=R.loc_of(I, "einsteinpy.utils.scalar_factor." + fn))
        R.group = "dual"
        for w in (-1, 4, 5):
            must_raise(R, I, "_diff_g(wrt=%d)" % w, lambda: I.call(I.global_("einsteinpy.utils.dual._diff_g"), [], dict(
                g=PyFn(lambda I_, ar, kw: None, "g"), g_prms=(), coords=I.new_list(list(x)), indices=(0, 0), wrt=w)), ("ValueError",),
                where=R.loc_of(I, "einsteinpy.utils.dual._diff_g"))
        for ind in ((0,), (0, 1, 2)):
            must_raise(R, I, "_diff_g(indices of length %d)" % len(ind), lambda: I.call(I.global_("einsteinpy.utils.dual._diff_g"), [], dict(
                g=PyFn(lambda I_, ar, kw: None, "g"), g_prms=(), coords=I.new_list(list(x)), indices=ind, wrt=1)), ("ValueError",),
                where=R.loc_of(I, "einsteinpy.utils.dual._diff_g"))
    R.guard("others", others)
