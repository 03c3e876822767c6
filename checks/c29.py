"""C29: predefined metrics are the published solutions."""
from .symcommon import *

MIN_OBLIGATIONS = 200
P = SY + "predefined."
c, G_, e0, k, l = S("c"), S("G"), S("eps_0"), S("k"), S("l")
t, r, th, ph = S("t"), S("r"), S("theta"), S("phi")
x, y, z, ch, rho = S("x"), S("y"), S("z"), S("chi"), S("rho")
rs, a, Q, M, B, gam = S("r_s"), S("a"), S("Q"), S("M"), S("B"), S("gam")
F = lambda n, d=1: tm.as_t(tm.Fraction(n, d))


def tanh(v):
    return tm.sinh(v) / tm.cosh(v)


def vac(D, m, c, a, r, th):
    """Kerr family: m = r_s r - r_Q^2"""
    Sg = r * r + sq(a * tm.cos(th))
    s2 = sq(tm.sin(th))
    g = [[ZERO] * 4 for _ in range(4)]
    g[0][0] = ONE - m / Sg
    g[1][1] = -Sg / (D * c * c)
    g[2][2] = -Sg / (c * c)
    g[3][3] = -(r * r + a * a + m * a * a * s2 / Sg) * s2 / (c * c)
    g[0][3] = g[3][0] = m * a * s2 / (Sg * c)
    return tuple(map(tuple, g))


def specs():
    """name -> (coordinates, parameter list (name, default symbol), metric(**parameters), name)"""
    sp4 = (t, r, th, ph)
    s2 = sq(tm.sin(th))

    def rq(Q, G, eps_0, c):
        return Q * Q * G / (4 * tm.PI * eps_0 * c ** 4)
    d = {}
    d["MinkowskiCartesian"] = ((t, x, y, z), [("c", c)], lambda c: diag_metric(-ONE, ONE / (c * c), ONE / (c * c), ONE / (c * c)), "MinkowskiMetric")
    d["Minkowski"] = d["MinkowskiCartesian"]
    d["MinkowskiPolar"] = (sp4, [("c", c)], lambda c: diag_metric(-ONE, ONE / (c * c), sq(r / c), sq(r * tm.sin(th) / c)), "MinkowskiMetricPolar")
    d["Schwarzschild"] = (sp4, [("c", c), ("sch", rs)],
                          lambda c, sch: vac(r * r - sch * r, sch * r, c, ZERO, r, th), "SchwarzschildMetric")
    d["Kerr"] = (sp4, [("c", c), ("sch", rs), ("a", a)], lambda c, sch, a: vac(r * r - sch * r + a * a, sch * r, c, a, r, th), "KerrMetric")
    d["KerrNewman"] = (sp4, [("c", c), ("G", G_), ("eps_0", e0), ("sch", rs), ("a", a), ("Q", Q)],
                       lambda c, G, eps_0, sch, a, Q: vac(r * r - sch * r + a * a + rq(Q, G, eps_0, c), sch * r - rq(Q, G, eps_0, c), c, a, r, th), "KerrNewmanMetric")
    d["ReissnerNordstorm"] = (sp4, [("c", c), ("G", G_), ("eps_0", e0), ("sch", rs), ("Q", Q)],
                              lambda c, G, eps_0, sch, Q: vac(r * r - sch * r + rq(Q, G, eps_0, c), sch * r - rq(Q, G, eps_0, c), c, ZERO, r, th), "ReissnerNordstormMetric")
    al = S("alpha")
    ex = tm.exp(2 * t / al)
    d["DeSitter"] = ((t, x, y, z), [], lambda: diag_metric(-ONE, ex, ex, ex), "DeSitterMetric")
    sh = tm.sinh(ch)
    d["AntiDeSitter"] = ((t, ch, th, ph), [], lambda: diag_metric(-ONE, sq(tm.cos(t)), sq(tm.cos(t) * sh), sq(tm.cos(t) * sh * tm.sin(th))), "AntiDeSitterMetric")
    d["AntiDeSitterStatic"] = (sp4, [], lambda: diag_metric(-sq(tm.cosh(r)), ONE, sq(tm.sinh(r)), sq(tm.sinh(r) * tm.sin(th))), "AntiDeSitterStaticMetric")
    om = S("omega")

    def godel():
        e = tm.exp(tm.sqrt(F(2)) * om * x)
        return ((-ONE, ZERO, -e, ZERO), (ZERO, ONE, ZERO, ZERO), (-e, ZERO, -e * e / 2, ZERO), (ZERO, ZERO, ZERO, ONE))
    d["Godel"] = ((t, x, y, z), [], godel, "GodelMetric")
    d["BarriolaVilekin"] = (sp4, [("c", c), ("k", k)], lambda c, k: diag_metric(-ONE, ONE / (c * c), sq(k * r / c), sq(k * r * tm.sin(th) / c)), "BarriolaVilekinMetric")
    d["BertottiKasner"] = (sp4, [("c", c), ("k", k), ("lambd", l)],
                           lambda c, k, lambd: diag_metric(-ONE, tm.exp(2 * tm.sqrt(lambd) * c * t) / (c * c), ONE / (lambd * c * c), s2 / (lambd * c * c)), "BertottiKasnerMetric")

    def ernst(B, M):
        L, w = ONE + sq(B * r * tm.sin(th)), ONE - 2 * M / r
        return diag_metric(-L * L * w, L * L / w, sq(r * L), sq(r * tm.sin(th) / L))
    d["Ernst"] = (sp4, [("B", B), ("M", M)], ernst, "ErnstMetric")

    def jnw(c, G, gam, M):
        A = ONE - 2 * G * M / (c * c * gam * r)
        return diag_metric(-tm.power(A, gam), tm.power(A, -gam) / (c * c), r * r * tm.power(A, ONE - gam) / (c * c), r * r * tm.power(A, ONE - gam) * s2 / (c * c))
    d["JanisNewmanWinicour"] = (sp4, [("c", c), ("G", G_), ("gam", gam), ("M", M)], jnw, "JanisNewmanWinicourMetric")

    def alc(x_s, sigma, R, v):
        rr = tm.sqrt(sq(x - x_s) + y * y + z * z)
        f = (tanh(sigma * (rr + R)) - tanh(sigma * (rr - R))) / (2 * tanh(sigma * R))
        return ((sq(v * f) - ONE, -v * f, ZERO, ZERO), (-v * f, ONE, ZERO, ZERO), (ZERO, ZERO, ONE, ZERO), (ZERO, ZERO, ZERO, ONE))
    d["AlcubierreWarp"] = ((t, x, y, z), [("x_s", S("x_s")), ("sigma", S("sigma")), ("R", S("R")), ("v", S("v"))], alc, "AlcubierreWarpMetric")

    def bess(C):
        J0, J1 = tm.bessel(ZERO, rho), tm.bessel(ONE, rho)
        U = C * J0 * tm.cos(t)
        K = C * C * rho * (rho * (J0 * J0 + J1 * J1) - 2 * J0 * J1 * sq(tm.cos(t))) / 2
        return diag_metric(-tm.exp(2 * K - 2 * U), tm.exp(2 * K - 2 * U), tm.exp(-2 * U) * rho * rho, tm.exp(2 * U))
    d["BesselGravitationalWave"] = ((t, rho, ph, z), [("C", S("C"))], bess, "BesselGravitationalWaveMetric")

    def dav():
        e = tm.power(ONE + r * r, F(2, 5))
        return diag_metric(-e * e * e, tm.power(t, F(4, 3)) * e, tm.power(t, F(-2, 3)) / e, tm.power(t, F(4, 3)) * r * r / e)
    d["Davidson"] = ((t, r, z, ph), [], dav, "DavidsonMetric")

    def cm():
        f, h, q = fn("f", x), fn("h", y), sq(x + y)
        return diag_metric(-h / q, ONE / (q * f), ONE / (q * h), f / q)
    d["CMetric"] = ((t, x, y, ph), [], cm, "CMetric")
    return d


def run(R):
    R.rule("each predefined metric has the published line element in its documented coordinates, covariant, with each argument in its documented place; "
           "vacuum solutions have zero Ricci tensor, charged ones zero scalar curvature, (anti) de Sitter Ricci = Lambda g, flat ones zero Riemann tensor")
    I = sym_interp(R)
    SP = specs()
    for nm, (co, prm, f, name) in SP.items():
        def one(nm=nm, co=co, prm=prm, f=f, name=name):
            R.group = nm
            R.where = R.loc_of(I, P + nm)
            call = lambda args=(), kw={}: I.call(I.global_(P + nm), list(args), dict(kw))

            def look(o):
                return comp(I, o), tuple(I.iterate(get(I, o, "syms"))), get(I, o, "config"), get(I, o, "name"), outcls(I, o)
            out = R.ev(I, lambda: look(call()))
            if not R.no_raise("default", out):
                return
            R.same_all("components", out.value[0], f(**dict(prm)), out, at=(0,))
            R.equal("coordinates", out.value[1], co, out.facts, out.guard)
            R.equal("labels", out.value[2:], ("ll", name, "MetricTensor"), out.facts, out.guard)
            if prm:
                new = {n: S("arg_" + n) for n, _ in prm}
                for lbl, args, kw in (("positional", list(new.values()), {}), ("keyword", (), new)):
                    out = R.ev(I, lambda: comp(I, call(args, kw)))
                    if R.no_raise(lbl, out):
                        R.same_all(lbl + " arguments", out.value, f(**new), out)
                for n, _ in prm:
                    out = R.ev(I, lambda: comp(I, call((), {n: new[n]})))
                    if R.no_raise(n, out):
                        R.same_all("argument %s alone" % n, out.value, f(**dict(dict(prm), **{n: new[n]})), out)
        R.guard(nm, one)

    # ---- field equations on the components the source defines
    def comps(nm):
        out = R.ev(I, lambda: comp(I, I.call(I.global_(P + nm), [], {})))
        return Curv(SP[nm][0], deepmap(tm.as_t, out.value)), out

    def zero(lbl, v, out):
        R.same_all(lbl, v, deepmap(lambda e: ZERO, v), out)

    def deepmap(f, v):
        return tuple(deepmap(f, e) for e in v) if isinstance(v, tuple) else f(v)
    for nm in ("MinkowskiCartesian", "MinkowskiPolar"):
        def flat(nm=nm):
            R.group = nm + " field equations"
            R.where = R.loc_of(I, P + nm)
            cv, out = comps(nm)
            zero("Riemann = 0", cv.riem, out)
        R.guard(nm, flat)
    for nm in ("Schwarzschild", "Kerr"):
        def v0(nm=nm):
            R.group = nm + " field equations"
            R.where = R.loc_of(I, P + nm)
            cv, out = comps(nm)
            zero("Ricci = 0", cv.ric, out)
        R.guard(nm, v0)
    for nm, lam in (("DeSitter", 3 / sq(S("alpha"))), ("AntiDeSitter", F(-3)), ("AntiDeSitterStatic", F(-3)), ("BertottiKasner", l * c * c)):
        def ds(nm=nm, lam=lam):
            R.group = nm + " field equations"
            R.where = R.loc_of(I, P + nm)
            cv, out = comps(nm)
            R.same_all("Ricci = Lambda g", cv.ric, deepmap(lambda e: lam * e, cv.g), out)
        R.guard(nm, ds)
    for nm in ("ReissnerNordstorm", "KerrNewman", "Davidson"):
        def em(nm=nm):
            R.group = nm + " field equations"
            R.where = R.loc_of(I, P + nm)
            cv, out = comps(nm)
            R.equal("scalar curvature", cv.sc, ZERO, out.facts, out.guard)
        R.guard(nm, em)

    def god():
        R.group = "Godel field equations"
        R.where = R.loc_of(I, P + "Godel")
        cv, out = comps("Godel")
        w2 = sq(S("omega"))
        # dust with Lambda: Ricci_ab = 2 omega^2 u_a u_b with u = d/dt
        u = cv.g[0]
        R.same_all("Ricci = 2 omega^2 u u", cv.ric, tuple(tuple(2 * w2 * u[i] * u[j] for j in range(4)) for i in range(4)), out)
    R.guard("godel", god)
