"""C21: Riemann, Ricci and scalar curvature."""
from .symcommon import *
from .c24 import configs

MIN_OBLIGATIONS = 300


def opaque_gamma(x):
    n = len(x)
    return tuple(tuple(tuple(fn("G%d%d%d" % (i, min(j, k), max(j, k)), *x) for k in range(n)) for j in range(n)) for i in range(n))


def opaque_riemann(n):
    """R^t_{srm} antisymmetric in the last pair, otherwise independent components"""
    def c(t, s, r, m):
        if r == m:
            return ZERO
        return S("R%d%d%d%d" % (t, s, r, m)) if r < m else -S("R%d%d%d%d" % (t, s, m, r))
    return tuple(tuple(tuple(tuple(c(t, s, r, m) for m in range(n)) for r in range(n)) for s in range(n)) for t in range(n))


def opaque_ricci(n):
    return sym_metric(n, None, lambda i, j: S("K%d%d" % (i, j)))


def moved(v, old, new, g, gi):
    """components of v (index position old) with the index position new; g diagonal"""
    def rec(x, k, f):
        if k == len(old):
            return f * x
        return tuple(rec(x[i], k + 1, f if old[k] == new[k] else f * (g[i][i] if new[k] == "l" else gi[i][i])) for i in range(len(x)))
    return rec(v, 0, ONE)


def run(R):
    R.rule("Riemann[t,s,r,n] = d_r Gamma^t_sn - d_n Gamma^t_sr + Gamma^p_sn Gamma^t_pr - Gamma^p_sr Gamma^t_pn; Ricci_sn = Riemann[k,s,k,n]; scalar = g^{sn} Ricci_sn; "
           "every from_* route gives the same tensor, whatever index position its input is given in")
    I = sym_interp(R)
    # ---- stage by stage, arbitrary components
    for n in (2, 3, 4):
        x = X4[:n]

        def riem(n=n, x=x):
            R.group = "%dD from_christoffels" % n
            R.where = R.loc_of(I, SY + "RiemannCurvatureTensor.from_christoffels")
            Gm = opaque_gamma(x)
            out = R.ev(I, lambda: comp(I, from_(I, "RiemannCurvatureTensor", "christoffels", tens(I, "ChristoffelSymbols", x, Gm))))
            if R.no_raise("Riemann", out):
                R.same_all("Riemann", out.value, riemann(Gm, x), out)
            R.where = R.loc_of(I, SY + "RicciTensor.from_christoffels")
            out = R.ev(I, lambda: comp(I, from_(I, "RicciTensor", "christoffels", tens(I, "ChristoffelSymbols", x, Gm))))
            if R.no_raise("Ricci", out):
                R.same_all("Ricci", out.value, ricci(riemann(Gm, x)), out)
        R.guard("riem", riem)

        def ric(n=n, x=x):
            R.group = "%dD from_riemann" % n
            R.where = R.loc_of(I, SY + "RicciTensor.from_riemann")
            Rm = opaque_riemann(n)
            g = diag_metric(*[S("g%d" % i) for i in range(n)])
            gi = inverse(g)
            out = R.ev(I, lambda: comp(I, from_(I, "RicciTensor", "riemann", tens(I, "RiemannCurvatureTensor", x, Rm))))
            if R.no_raise("Ricci", out):
                R.same_all("Ricci", out.value, ricci(Rm), out)
            R.where = R.loc_of(I, SY + "RicciScalar.from_riemann")
            out = R.ev(I, lambda: get(I, from_(I, "RicciScalar", "riemann", tens(I, "RiemannCurvatureTensor", x, Rm, parent_metric=metric(I, x, g))), "expr"))
            if R.no_raise("scalar", out):
                R.equal("scalar", out.value, scalar(ricci(Rm), gi), out.facts, out.guard)
            # input with its first index lowered
            Rl = lower_first(Rm, g)
            for how in ("parent", "argument", "both"):
                def f(how=how, cls="RicciTensor"):
                    m = metric(I, x, g)
                    r = tens(I, "RiemannCurvatureTensor", x, Rl, config="llll", **({} if how == "argument" else dict(parent_metric=m)))
                    return from_(I, cls, "riemann", r, **({} if how == "parent" else dict(parent_metric=m)))
                R.where = R.loc_of(I, SY + "RicciTensor.from_riemann")
                out = R.ev(I, lambda: comp(I, f()))
                if R.no_raise("Ricci from llll, metric as " + how, out):
                    R.same_all("Ricci from llll, metric as " + how, out.value, ricci(Rm), out)
                R.where = R.loc_of(I, SY + "RicciScalar.from_riemann")
                out = R.ev(I, lambda: get(I, f(cls="RicciScalar"), "expr"))
                if R.no_raise("scalar from llll, metric as " + how, out):
                    R.equal("scalar from llll, metric as " + how, out.value, scalar(ricci(Rm), gi), out.facts, out.guard)
        R.guard("ric", ric)

        def sc(n=n, x=x):
            R.group = "%dD from_riccitensor" % n
            R.where = R.loc_of(I, SY + "RicciScalar.from_riccitensor")
            K = opaque_ricci(n)
            g = sym_metric(n, None, lambda i, j: S("g%d%d" % (i, j))) if n < 4 else \
                tuple(tuple(S("g%d%d" % (min(i, j), max(i, j))) if i == j or {i, j} == {0, 3} else ZERO for j in range(4)) for i in range(4))
            gi = inverse(g)
            want = scalar(K, gi)
            forms = {"ll": K, "ul": matmul(gi, K), "lu": matmul(K, gi), "uu": matmul(matmul(gi, K), gi)}
            for cfg, v in forms.items():
                for how in ("parent", "argument"):
                    def f(cfg=cfg, v=v, how=how):
                        m = metric(I, x, g)
                        r = tens(I, "RicciTensor", x, v, config=cfg, **(dict(parent_metric=m) if how == "parent" else {}))
                        return get(I, from_(I, "RicciScalar", "riccitensor", r, **({} if how == "parent" else dict(parent_metric=m))), "expr")
                    out = R.ev(I, f)
                    if R.no_raise("Ricci given as %s, metric as %s" % (cfg, how), out):
                        R.equal("Ricci given as %s, metric as %s" % (cfg, how), out.value, want, out.facts, out.guard)
        R.guard("sc", sc)

    # ---- Christoffel symbols with another index position as the source
    def chris_ll():
        R.group = "Christoffel symbols given as lll"
        x = X4[:3]
        g = diag_metric(fn("a", *x), fn("b", *x), fn("c", *x))
        c = Curv(x, g)
        low = tuple(tuple(tuple(g[i][i] * c.gam[i][j][k] for k in range(3)) for j in range(3)) for i in range(3))
        for cls, want in (("RiemannCurvatureTensor", c.riem), ("RicciTensor", c.ric), ("RicciScalar", None)):
            R.where = R.loc_of(I, SY + cls + ".from_christoffels")
            for how in ("parent", "argument"):
                def f(how=how, cls=cls):
                    m = metric(I, x, g)
                    ch = tens(I, "ChristoffelSymbols", x, low, config="lll", **(dict(parent_metric=m) if how == "parent" else {}))
                    o = from_(I, cls, "christoffels", ch, **({} if how == "parent" else dict(parent_metric=m)))
                    return get(I, o, "expr") if cls == "RicciScalar" else comp(I, o)
                out = R.ev(I, f)
                if R.no_raise("%s, metric as %s" % (cls, how), out):
                    R.same_all("%s, metric as %s" % (cls, how), out.value, c.sc if want is None else want, out)
    R.guard("chris_ll", chris_ll)

    # ---- every index position of the source tensor, every way of naming the metric
    x2 = X4[:2]
    gg, hh = diag_metric(fn("a", *x2), fn("b", *x2)), diag_metric(fn("c", *x2), fn("d", *x2))
    G2, R2, K2 = opaque_gamma(x2), opaque_riemann(2), opaque_ricci(2)
    rm = riemann(G2, x2)
    want = {("RiemannCurvatureTensor", "christoffels"): rm, ("RicciTensor", "christoffels"): ricci(rm), ("RicciScalar", "christoffels"): scalar(ricci(rm), inverse(gg)),
            ("RicciTensor", "riemann"): ricci(R2), ("RicciScalar", "riemann"): scalar(ricci(R2), inverse(gg)), ("RicciScalar", "riccitensor"): scalar(K2, inverse(gg))}
    src = {"christoffels": ("ChristoffelSymbols", G2, "ull"), "riemann": ("RiemannCurvatureTensor", R2, "ulll"), "riccitensor": ("RicciTensor", K2, "ll")}
    for (cls, how), w in want.items():
        def every(cls=cls, how=how, w=w):
            R.where = R.loc_of(I, SY + "%s.from_%s" % (cls, how))
            sc, T, std = src[how]
            for cfg in configs(len(std)):
                R.group = "%s.from_%s, source as %s" % (cls, how, cfg)
                v = moved(T, std, cfg, gg, inverse(gg))
                for lbl in ("parent", "argument", "argument wins"):
                    def f():
                        m, m2 = metric(I, x2, gg), metric(I, x2, hh)
                        kw = {"parent": dict(parent_metric=m), "argument": {}, "argument wins": dict(parent_metric=m2)}[lbl]
                        o = from_(I, cls, how, tens(I, sc, x2, v, config=cfg, **kw), **({} if lbl == "parent" else dict(parent_metric=m)))
                        return get(I, o, "expr") if cls == "RicciScalar" else comp(I, o)
                    out = R.ev(I, f)
                    if R.no_raise(lbl, out):
                        R.same_all(lbl, out.value, w, out)
        R.guard(cls + how, every)

    # ---- end to end
    for lbl, x, g in families(R.thorough) + (deep() if R.thorough else []):
        for cfg in ("ll",) if "dense" in lbl else ("ll", "uu"):
            def e2e(lbl=lbl, x=x, g=g, cfg=cfg):
                R.group = "%s given as %s from_metric" % (lbl, cfg)
                gi = inverse(g)
                c = Curv(x, g, gi) if cfg == "ll" else Curv(x, gi, g)
                for cls, want in (("RiemannCurvatureTensor", "riem"), ("RicciTensor", "ric"), ("RicciScalar", "sc")):
                    R.where = R.loc_of(I, SY + cls + ".from_metric")
                    out = R.ev(I, lambda: (lambda o: get(I, o, "expr") if cls == "RicciScalar" else comp(I, o))(from_(I, cls, "metric", metric(I, x, g, cfg))))
                    if R.no_raise(cls, out):
                        R.same_all(cls, out.value, getattr(c, want), out)
            R.guard(lbl, e2e)
