"""C25: tensors stay labelled with what they are: class, index positions, coordinates, metric, name."""
from .symcommon import *
from .c24 import RANK, DEFAULT, opaque, configs

MIN_OBLIGATIONS = 200
CFG = {"ChristoffelSymbols": "ull", "RiemannCurvatureTensor": "ulll", "RicciTensor": "ll", "EinsteinTensor": "ll", "SchoutenTensor": "ll",
       "StressEnergyMomentumTensor": "ll", "WeylTensor": "llll", "RicciScalar": ""}
CTOR = {"ChristoffelSymbols": "ull", "RiemannCurvatureTensor": "ulll", "RicciTensor": "ll", "EinsteinTensor": "ll", "SchoutenTensor": "ll",
        "StressEnergyMomentumTensor": "ll", "WeylTensor": "ulll", "GenericVector": "u"}


def run(R):
    R.rule("the result of from_*, change_config, lorentz_transform, subs, tensor(), order, symbols, inv keeps class, configuration, coordinates, parent metric "
           "(the metric it was computed with; None after a Lorentz transform) and name (with the documented suffix)")
    I = sym_interp(R)
    n = 3
    x = X4[:3]
    g = diag_metric(-fn("A", x[1]), fn("B", x[0]), x[1] * x[1])
    xw = X4
    gw = diag_metric(-fn("A", x[1]), ONE, ONE, ONE)

    def desc(I, o, m=None):
        pm = get(I, o, "parent_metric")
        return (outcls(I, o), get(I, o, "config"), get(I, o, "order"), tuple(I.iterate(get(I, o, "syms"))), tuple(I.iterate(meth(I, o, "symbols"))),
                get(I, o, "dims"), "none" if pm is None else ("given" if m is not None and I.truth(I.compare("is", pm, m)) is True else "other"), get(I, o, "name"))
    KEYS = ("class", "configuration", "order", "syms", "symbols()", "dims", "parent metric", "name")

    def check(lbl, f, want):
        out = R.ev(I, f)
        if not R.no_raise(lbl, out):
            return
        for k, a, b in zip(KEYS, out.value, want):
            R.equal("%s: %s" % (lbl, k), a, b, out.facts, out.guard)

    # ---- constructor defaults
    for cls, cfg in CTOR.items():
        def ctor(cls=cls, cfg=cfg):
            R.group = cls + " constructor"
            R.where = R.loc_of(I, SY + cls + ".__init__")
            rk = RANK[cls]
            T = opaque(rk, 3)
            check("defaults", lambda: desc(I, tens(I, cls, x, T)), (cls, cfg, rk, x, x, 3, "none", cls))

            def given():
                m = metric(I, x, g)
                return desc(I, tens(I, cls, x, T, config="u" * rk, parent_metric=m, name="nm"), m)
            check("given", given, (cls, "u" * rk, rk, x, x, 3, "given", "nm"))
        R.guard(cls, ctor)

    # ---- from_metric and the other routes
    for cls, cfg in CFG.items():
        def fm(cls=cls, cfg=cfg):
            R.group = cls + " from_metric"
            R.where = R.loc_of(I, SY + cls + ".from_metric")
            xx, gg = (xw, gw) if cls == "WeylTensor" else (x, g)
            for c in ("ll", "uu"):
                def f():
                    m = metric(I, xx, gg, c)
                    return desc(I, from_(I, cls, "metric", m), m)
                check("given as " + c, f, (cls, cfg, len(cfg), xx, xx, len(xx), "given", cls))
        R.guard(cls, fm)

    G3, R4, K2 = opaque(3, 3, "G"), opaque(4, 3, "R"), opaque(2, 3, "K")
    routes = [("RiemannCurvatureTensor", "christoffels", "ChristoffelSymbols", G3, "ull"), ("RicciTensor", "christoffels", "ChristoffelSymbols", G3, "ull"),
              ("RicciScalar", "christoffels", "ChristoffelSymbols", G3, "ull"), ("RicciTensor", "riemann", "RiemannCurvatureTensor", R4, "ulll"),
              ("RicciScalar", "riemann", "RiemannCurvatureTensor", R4, "ulll"), ("RicciScalar", "riccitensor", "RicciTensor", K2, "ll")]
    for cls, how, src, T, scfg in routes:
        def rt(cls=cls, how=how, src=src, T=T, scfg=scfg):
            R.group = "%s from_%s" % (cls, how)
            R.where = R.loc_of(I, SY + "%s.from_%s" % (cls, how))
            w = lambda p: (cls, CFG[cls], len(CFG[cls]), x, x, 3, p, cls)

            def inherit():
                m = metric(I, x, g)
                return desc(I, from_(I, cls, how, tens(I, src, x, T, parent_metric=m)), m)
            check("inherits the parent metric", inherit, w("given"))

            def arg():
                m = metric(I, x, g)
                return desc(I, from_(I, cls, how, tens(I, src, x, T), parent_metric=m), m)
            if not (cls == "RicciScalar" and how != "riccitensor") or True:
                check("metric argument", arg, w("given"))

            def both():
                m, m2 = metric(I, x, g), metric(I, x, g)
                return desc(I, from_(I, cls, how, tens(I, src, x, T, parent_metric=m2), parent_metric=m), m)
            check("metric argument wins", both, w("given"))
            x2, g2 = x[:2], diag_metric(fn("A", x[1]), fn("B", x[0]))
            w2 = lambda p: (cls, CFG[cls], len(CFG[cls]), x2, x2, 2, p, cls)
            T2 = opaque(len(scfg), 2, "T")
            for c in configs(len(scfg)):
                def src_cfg(parent, argument):
                    m, m2 = metric(I, x2, g2), metric(I, x2, g2)
                    pm = {} if parent is None else dict(parent_metric=m if parent else m2)
                    return desc(I, from_(I, cls, how, tens(I, src, x2, T2, config=c, **pm), **(dict(parent_metric=m) if argument else {})), m)
                check("source as %s inherits" % c, lambda: src_cfg(True, False), w2("given"))
                check("source as %s metric argument" % c, lambda: src_cfg(None, True), w2("given"))
                check("source as %s metric argument wins" % c, lambda: src_cfg(False, True), w2("given"))
            if cls != "RicciScalar":
                check("no metric", lambda: desc(I, from_(I, cls, how, tens(I, src, x, T))), w("none"))
        R.guard(how, rt)

    # ---- change_config
    for cls, rk in RANK.items():
        def cc(cls=cls, rk=rk):
            R.group = cls + " change_config"
            R.where = R.loc_of(I, SY + cls + ".change_config")
            T = opaque(rk, 3)
            for old in ("u" * rk, "l" * rk):
                for new in ("u" * rk, "l" * rk, DEFAULT[cls]):
                    def parent():
                        m = metric(I, x, g)
                        return desc(I, meth(I, tens(I, cls, x, T, config=old, parent_metric=m), "change_config", new), m)
                    check("%s to %s" % (old, new), parent, (cls, new, rk, x, x, 3, "given", cls + "__" + new))

            def arg(name=None):
                m = metric(I, x, g)
                return desc(I, meth(I, tens(I, cls, x, T, parent_metric=metric(I, x, g), name=name), "change_config", "u" * rk, m), m)
            check("metric argument becomes the parent, unnamed", arg, (cls, "u" * rk, rk, x, x, 3, "given", None))
            check("empty name", lambda: arg(""), (cls, "u" * rk, rk, x, x, 3, "given", "__" + "u" * rk))
            check("named", lambda: arg("nm"), (cls, "u" * rk, rk, x, x, 3, "given", "nm__" + "u" * rk))
        R.guard(cls, cc)

    # ---- lorentz_transform
    for cls, rk in list(RANK.items()) + [("BaseRelativityTensor", 2)]:
        def lt(cls=cls, rk=rk):
            R.group = cls + " lorentz_transform"
            R.where = R.loc_of(I, SY + cls + ".lorentz_transform")
            L = diag_metric(S("b0"), S("b1"))
            T = opaque(rk, 2)
            for cfg in ("u" * rk, "l" * rk, "u" + "l" * (rk - 1)):
                for nm in ("nm", None, "", "nm__lt"):
                    def f():
                        m = metric(I, x[:2], diag_metric(S("g0"), S("g1")))
                        return desc(I, meth(I, tens(I, cls, x[:2], T, config=cfg, parent_metric=m, name=nm), "lorentz_transform", nested(I, L)), m)
                    check("%s named %s" % (cfg, nm), f, (cls, cfg, rk, x[:2], x[:2], 2, "none", None if nm is None else nm + "__lt"))
        R.guard(cls, lt)

    # ---- metric
    def met():
        R.where = R.loc_of(I, SY + "MetricTensor")
        g2, x2 = diag_metric(fn("A", x[0]), fn("B", x[1])), x[:2]
        R.group = "MetricTensor"

        def dm(o, src=None):
            p = get(I, o, "parent_metric")
            return (outcls(I, o), get(I, o, "config"), get(I, o, "order"), tuple(I.iterate(get(I, o, "syms"))), tuple(I.iterate(meth(I, o, "symbols"))),
                    get(I, o, "dims"), "self" if I.truth(I.compare("is", p, o)) is True else ("none" if p is None else "other"), get(I, o, "name"))
        W = lambda cfg, nm: ("MetricTensor", cfg, 2, x2, x2, 2, "self", nm)
        check("defaults", lambda: dm(I.call(I.global_(SY + "MetricTensor"), [nested(I, g2), x2], {})), W("ll", "GenericMetricTensor"))
        for cfg, o in (("ll", "uu"), ("uu", "ll")):
            check(cfg, lambda: dm(metric(I, x2, g2, cfg, "nm")), W(cfg, "nm"))
            check(cfg + " change_config", lambda: dm(meth(I, metric(I, x2, g2, cfg, "nm"), "change_config", o)), W(o, "nm__" + o))
            check(cfg + " inv", lambda: dm(meth(I, metric(I, x2, g2, cfg, "nm"), "inv")), W(o, "nm__" + o))
            check(cfg + " lorentz_transform", lambda: dm(meth(I, metric(I, x2, g2, cfg, "nm"), "lorentz_transform", nested(I, diag_metric(S("b0"), S("b1"))))), W(cfg, "nm__lt"))

            def ident(cfg=cfg, o=o):
                m = metric(I, x2, g2, cfg, "nm")
                is_ = lambda a, b: I.truth(I.compare("is", a, b))
                same = meth(I, m, "change_config", cfg)
                inv = meth(I, m, "inv")
                return (is_(same, m), is_(meth(I, inv, "inv"), m), is_(meth(I, meth(I, m, "change_config", o), "inv"), m),
                        is_(meth(I, m, "lower_config"), m if cfg == "ll" else inv))
            out = R.ev(I, ident)
            if R.no_raise(cfg + " identities", out):
                for k, v in zip(("no-op change_config returns the metric", "inv of inv is the metric", "inv of change_config is the metric", "lower_config"), out.value):
                    R.equal("%s %s" % (cfg, k), v, True, out.facts, out.guard)
    R.guard("metric", met)

    # ---- subs, simplify, indexing
    def sub():
        R.group = "subs / simplify"
        R.where = R.loc_of(I, SY + "tensor.Tensor.subs")
        a, b, y = S("a"), S("b"), S("y")
        T = ((a * b, fn("f", a)), (tm.sin(a) + b, ONE / a))
        tc = I.global_(SY + "Tensor")
        for lbl, args, m in (("pair", lambda: [a, y], {a: y}), ("list", lambda: [I.new_list([(a, y), (b, ONE)])], {a: y, b: ONE}), ("number", lambda: [b, tm.as_t(3)], {b: tm.as_t(3)})):
            for cfg in ("ll", "ul", "uu"):
                for cls in ("Tensor", "BaseRelativityTensor", "RicciTensor", "MetricTensor"):
                    if cls == "MetricTensor" and cfg == "ul":
                        continue

                    def f():
                        o = I.call(tc, [nested(I, T)], dict(config=cfg, name="nm")) if cls == "Tensor" else tens(I, cls, (a, b), T, config=cfg, name="nm")
                        r = meth(I, o, "subs", *args())
                        return comp(I, r), get(I, r, "config"), get(I, r, "name"), get(I, r, "order"), comp(I, o)
                    out = R.ev(I, f)
                    if R.no_raise("%s %s %s" % (cls, cfg, lbl), out):
                        w = tuple(tuple(tm.subs(e, m) for e in row) for row in T)
                        R.same_all("%s %s %s" % (cls, cfg, lbl), out.value, (w, cfg, "nm", 2, T), out)
        R.where = R.loc_of(I, SY + "tensor.Tensor.simplify")
        for ss in (None, True, False):
            for rk in (1, 2, 3):
                T = opaque(rk, 2)

                def f():
                    o = tens(I, "BaseRelativityTensor", (a, b), T, config="l" * rk)
                    r = meth(I, o, "simplify", **({} if ss is None else dict(set_self=ss)))
                    return r, comp(I, o), get(I, o, "config")
                out = R.ev(I, f)
                if R.no_raise("simplify set_self=%s rank %d" % (ss, rk), out):
                    R.same_all("simplify set_self=%s rank %d" % (ss, rk), out.value, (T, T, "l" * rk), out)
            # a scalar keeps its value through simplify and subs
            e = fn("f", a) * b

            def g():
                o = I.call(I.global_(SY + "RicciScalar"), [e, I.new_list([a, b])], {})
                r = meth(I, o, "simplify", **({} if ss is None else dict(set_self=ss)))
                q = meth(I, o, "subs", b, y)
                return tuple(I.iterate(r)), get(I, o, "expr"), tuple(I.iterate(get(I, q, "arr"))), get(I, q, "order")
            out = R.ev(I, g)
            if R.no_raise("scalar simplify set_self=%s" % ss, out):
                R.same_all("scalar simplify set_self=%s" % ss, out.value, ((e,), e, (fn("f", a) * y,), 0), out)
    R.guard("subs", sub)

    def index():
        R.group = "indexing"
        R.where = R.loc_of(I, SY + "tensor.Tensor.__getitem__")
        for rk in (1, 2, 3):
            T = opaque(rk, 2)
            o = lambda: tens(I, "BaseRelativityTensor", (S("a"), S("b")), T, config="l" * rk)
            from .c24 import at
            import itertools
            for ix in itertools.product(range(2), repeat=rk):
                out = R.ev(I, lambda: I.getitem(o(), ix if rk > 1 else ix[0]))
                if R.no_raise(str(ix), out):
                    R.equal("component %s" % (ix,), out.value, at(T, ix), out.facts, out.guard)
            out = R.ev(I, lambda: I.getitem(o(), 1))
            if R.no_raise("slice", out):
                R.same_all("slab", out.value, T[1], out)
    R.guard("index", index)
