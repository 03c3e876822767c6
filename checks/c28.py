"""C28: symbolic tensors: accepted inputs, rejected inputs, free symbols, numeric functions."""
import itertools
from .symcommon import *
from .c24 import RANK, opaque, at, configs

MIN_OBLIGATIONS = 200


def tuple_map(f, v):
    return tuple(tuple_map(f, q) for q in v) if isinstance(v, tuple) else f(v)


def run(R):
    R.rule("a tensor holds exactly the given components; data that is no array, a configuration that is no string over {u,l}, a rank or a dimension that does not fit, "
           "coordinates, variables or functions of the wrong type are rejected with the documented exception; variables are the free symbols that are no coordinates, "
           "in alphabetical order; the lambdified tensor takes (coordinates, variables) in that order, or the given arguments, and returns the components")
    I = sym_interp(R)
    TC, BC = SY + "tensor.Tensor", SY + "BaseRelativityTensor"
    x = (S("x"), S("y"))
    V2, M2, T3 = opaque(1, 2, "v"), opaque(2, 2, "m"), opaque(3, 2, "t")

    def forms():
        R.group = "Tensor data"
        R.where = R.loc_of(I, TC + ".__init__")
        arrf = lambda v: I.call(ExtV("sympy.ImmutableDenseNDimArray"), [nested(I, v)], {})
        for rk, v in ((1, V2), (2, M2), (3, T3)):
            for lbl, mk in (("list", lambda: nested(I, v)), ("tuple", lambda: v), ("sympy array", lambda: arrf(v)), ("numpy array", lambda: I.call(ExtV("numpy.array"), [nested(I, v)], {}))):
                for cfg in configs(rk):
                    out = R.ev(I, lambda: (lambda o: (comp(I, o), get(I, o, "config"), get(I, o, "order"), get(I, o, "name")))(I.call(I.global_(TC), [mk()], dict(config=cfg, name="nm"))))
                    if R.no_raise("%s rank %d" % (lbl, rk), out):
                        R.same_all("%s rank %d %s" % (lbl, rk, cfg), out.value, (v, cfg, rk, "nm"), out)
        out = R.ev(I, lambda: (lambda o: (comp(I, o), get(I, o, "config"), get(I, o, "name")))(I.call(I.global_(TC), [nested(I, M2)], {})))
        if R.no_raise("defaults", out):
            R.same_all("defaults", out.value, (M2, "ll", None), out)
        bad = [("string", lambda: "abc"), ("None", lambda: None), ("dict", lambda: I.new_dict({})), ("function", lambda: PyFn(lambda *a: None, "f"))]
        for lbl, mk in bad:
            must_raise(R, I, lbl, lambda: I.call(I.global_(TC), [mk()], {}), ("TypeError",), where=R.where)
            must_raise(R, I, "relativity tensor " + lbl, lambda: I.call(I.global_(BC), [mk(), x], {}), ("TypeError",), where=R.where)
    R.guard("forms", forms)

    def config():
        for cls, mk in ((TC, lambda v, c: I.call(I.global_(TC), [nested(I, v)], dict(config=c))), (BC, lambda v, c: I.call(I.global_(BC), [nested(I, v), x], dict(config=c)))):
            R.group = cls.split(".")[-1] + " configuration"
            R.where = R.loc_of(I, TC + ".__init__")
            for bad in ("lx", "UL", "l ", "ul1", 2, None, ("u", "l"), S("ll")):
                must_raise(R, I, "%r" % (bad,), lambda: mk(M2, bad), ("TypeError",), where=R.where)
            for rk, v in ((1, V2), (2, M2), (3, T3)):
                for k in range(0, 5):
                    if k != rk:
                        must_raise(R, I, "rank %d as %r" % (rk, "l" * k), lambda: mk(v, "l" * k), ("ValueError",), where=R.where)
    R.guard("config", config)

    def rel():
        R.group = "BaseRelativityTensor"
        R.where = R.loc_of(I, BC + ".__init__")
        for nsym in (1, 3, 4):
            must_raise(R, I, "2 components, %d coordinates" % nsym, lambda: tens(I, "BaseRelativityTensor", X4[:nsym], V2, config="u"), ("ValueError",), where=R.where)
            must_raise(R, I, "2x2 components, %d coordinates" % nsym, lambda: tens(I, "BaseRelativityTensor", X4[:nsym], M2), ("ValueError",), where=R.where)
            must_raise(R, I, "metric, %d coordinates" % nsym, lambda: metric(I, X4[:nsym], M2), ("ValueError",), where=R.where)
        must_raise(R, I, "coordinates as string", lambda: I.call(I.global_(BC), [nested(I, M2), "xy"], {}), ("TypeError",), where=R.where)
        must_raise(R, I, "coordinates as dict", lambda: I.call(I.global_(BC), [nested(I, M2), I.new_dict({"x": 1, "y": 2})], {}), ("TypeError",), where=R.where)
        for k in ("variables", "functions"):
            for bad in ("abc", 3, None):
                must_raise(R, I, "%s=%r" % (k, bad), lambda: tens(I, "BaseRelativityTensor", x, M2, **{k: bad}), ("TypeError",), where=R.where)
        for cont in ("list", "tuple"):
            sy = (lambda: I.new_list(list(x))) if cont == "list" else (lambda: x)
            out = R.ev(I, lambda: (lambda o: (tuple(I.iterate(get(I, o, "syms"))), get(I, o, "dims")))(I.call(I.global_(BC), [nested(I, M2), sy()], {})))
            if R.no_raise("coordinates as " + cont, out):
                R.same_all("coordinates as " + cont, out.value, (x, 2), out)
    R.guard("rel", rel)

    def ranks():
        for cls, rk in list(RANK.items()) + [("MetricTensor", 2)]:
            R.group = cls
            R.where = R.loc_of(I, SY + cls + ".__init__")
            for k in range(1, 5):
                if k == rk:
                    continue
                must_raise(R, I, "rank %d" % k, lambda: tens(I, cls, x, opaque(k, 2), config="l" * k), ("ValueError",), where=R.where)
            must_raise(R, I, "rank and configuration differ", lambda: tens(I, cls, x, opaque(rk, 2), config="l" * (rk + 1)), ("ValueError",), where=R.where)
            must_raise(R, I, "configuration characters", lambda: tens(I, cls, x, opaque(rk, 2), config="l" * (rk - 1) + "d"), ("TypeError",), where=R.where)
            must_raise(R, I, "data type", lambda: I.call(I.global_(SY + cls), ["abc", x], {}), ("TypeError",), where=R.where)
            must_raise(R, I, "coordinates type", lambda: I.call(I.global_(SY + cls), [nested(I, opaque(rk, 2)), "xy"], {}), ("TypeError",), where=R.where)
    R.guard("ranks", ranks)

    a, b, k, M = S("a"), S("b"), S("k"), S("M")
    comps = ((k * x[0], fn("f", x[0]) + b), (tm.sin(x[1]) * M, a * b))

    def free():
        R.group = "free symbols"
        R.where = R.loc_of(I, BC + ".__init__")
        for lbl, v, want in (("four variables", comps, (M, a, b, k)), ("none", ((x[0], x[1]), (ONE, ZERO)), ()), ("reversed", ((S("z9"), S("z1")), (S("b"), S("B"))), (S("B"), S("b"), S("z1"), S("z9")))):
            for cls in ("BaseRelativityTensor", "MetricTensor", "RicciTensor"):
                out = R.ev(I, lambda: tuple(I.iterate(get(I, tens(I, cls, x, v), "variables"))))
                if R.no_raise(lbl, out):
                    R.same_all("%s %s variables" % (cls, lbl), out.value, want, out)
        out = R.ev(I, lambda: tuple(I.iterate(get(I, tens(I, "BaseRelativityTensor", x, comps, variables=I.new_list([k, a])), "variables"))))
        if R.no_raise("given", out):
            R.same_all("given variables kept", out.value, (k, a), out)
        for lbl, v in (("tuple", lambda: (k, a)), ("set", lambda: I.new_set([k]) if hasattr(I, "new_set") else (k,))):
            out = R.ev(I, lambda: tuple(I.iterate(get(I, tens(I, "BaseRelativityTensor", x, comps, variables=v()), "variables"))))
            if R.no_raise("given as " + lbl, out):
                R.same_all("variables given as " + lbl, out.value, (k, a) if lbl == "tuple" else (k,), out)
        for lbl, v in (("list", lambda: I.new_list([])), ("tuple", lambda: ())):
            out = R.ev(I, lambda: tuple(I.iterate(get(I, tens(I, "BaseRelativityTensor", x, comps, variables=v()), "variables"))))
            if R.no_raise("given as empty " + lbl, out):
                R.same_all("empty %s: found in the components" % lbl, out.value, (M, a, b, k), out)
        out = R.ev(I, lambda: tuple(I.iterate(get(I, tens(I, "BaseRelativityTensor", x, comps), "functions"))))
        if R.no_raise("functions", out):
            R.require("functions found", any(isinstance(f, T) and tm.equal(f, fn("f", x[0])) for f in out.value), "functions %r do not contain f(x)" % (out.value,))
    R.guard("free", free)

    def lam():
        R.group = "tensor_lambdify"
        R.where = R.loc_of(I, BC + ".tensor_lambdify")
        cp = ((k * x[0], x[0] + b), (tm.sin(x[1]) * M, a * b))
        P = lambda *n: [S(i) for i in n]
        for cls in ("BaseRelativityTensor", "MetricTensor", "RicciTensor"):
            def f(args, vals):
                o = tens(I, cls, x, cp)
                r = I.iterate(meth(I, o, "tensor_lambdify", *args))
                ar, fun = list(r)
                return tuple(I.iterate(ar)), I.call(fun, list(vals), {})
            for lbl, args, order in (("default", [], x + (M, a, b, k)), ("given order", [b, x[1], M, k, x[0], a], (b, x[1], M, k, x[0], a))):
                vals = P(*["u%d" % i for i in range(len(order))])
                out = R.ev(I, lambda: f(args, vals))
                if R.no_raise(lbl, out):
                    R.same_all("%s %s arguments" % (cls, lbl), out.value[0], tuple(order), out)
                    m = dict(zip(order, vals))
                    R.same_all("%s %s value" % (cls, lbl), out.value[1], tuple(tuple(tm.subs(e, m) for e in r) for r in cp), out, at=(1,))
        for rk in (1, 3):
            T = opaque(rk, 2, "q")
            names = sorted("q" + "".join(map(str, i)) for i in itertools.product(range(2), repeat=rk))

            def g():
                o = tens(I, "BaseRelativityTensor", x, T, config="u" * rk)
                ar, fun = list(I.iterate(meth(I, o, "tensor_lambdify")))
                return tuple(I.iterate(ar)), I.call(fun, [S("w" + n) for n in ["x", "y"] + names], {})
            out = R.ev(I, g)
            if R.no_raise("rank %d" % rk, out):
                R.same_all("rank %d arguments" % rk, out.value[0], x + tuple(S(n) for n in names), out)
                R.same_all("rank %d value" % rk, out.value[1], opaque(rk, 2, "wq"), out, at=(1,))
    R.guard("lam", lam)

    def derived():
        """a tensor computed from others lists every free symbol once, the old ones in the old order, and its numeric function is closed"""
        R.group = "derived tensors"
        n2 = lambda: ((k * x[0], x[1]), (ONE, b * a))
        L = ((S("ga"), -S("ga") * S("v")), (-S("ga") * S("v"), S("ga")))
        Lr = ((tm.cos(S("al")), -tm.sin(S("al"))), (tm.sin(S("al")), tm.cos(S("al"))))
        g = diag_metric(S("M") * fn("f", x[0]), S("B"))
        B1 = lambda v, c, **kw: tens(I, "BaseRelativityTensor", x, v, config=c, **kw)
        TP = lambda p, q, *ij: I.call(I.global_(SY + "tensor.tensor_product"), [p, q] + list(ij), {})
        cases = []
        for cls in ("BaseRelativityTensor", "RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor"):
            for cfg in ("ll", "ul", "uu"):
                for nm, m in (("boost", L), ("rotation", Lr)):
                    for given in (False, True):
                        if given and cls != "BaseRelativityTensor":
                            continue
                        kw = dict(variables=I.new_list([k, a, b])) if given else {}
                        cases.append(("%s %s under a %s%s" % (cls, cfg, nm, ", variables given" if given else ""), lambda cls=cls, cfg=cfg, m=m, given=given: (lambda o: (o, meth(I, o, "lorentz_transform", nested(I, m))))(
                            tens(I, cls, x, n2(), config=cfg, **(dict(variables=I.new_list([k, a, b])) if given else {}))), (k, a, b) if given else (a, b, k)))
        cases.append(("metric under a boost", lambda: (lambda o: (o, meth(I, o, "lorentz_transform", nested(I, L))))(metric(I, x, diag_metric(S("M"), S("B")))), (S("B"), S("M"))))
        cases.append(("vector lowered", lambda: (lambda o: (o, meth(I, o, "change_config", "l", metric(I, x, g))))(tens(I, "GenericVector", x, (a * x[0], k), config="u")), (a, k)))
        cases.append(("product", lambda: (lambda o: (o, TP(o, B1((S("z") * b, k), "l"))))(B1((a * b, S("M")), "u")), (M, a, b)))
        cases.append(("contracted product", lambda: (lambda o: (o, TP(o, B1(((S("z") * b, k), (ONE, a)), "ll"), 0, 1)))(B1((a * b, S("M")), "u")), (M, a, b)))
        cases.append(("product, variables given", lambda: (lambda o: (o, TP(o, B1((S("z") * b, k), "l", variables=I.new_list([S("z"), b, k])))))(B1((a * b, S("M")), "u", variables=I.new_list([S("M"), b, a]))), (M, b, a)))
        for lbl, f, old in cases:
            def go(f=f):
                o, r = f()
                ar, fun = list(I.iterate(meth(I, r, "tensor_lambdify")))
                ar = tuple(I.iterate(ar))
                return (tuple(I.iterate(get(I, o, "variables"))), tuple(I.iterate(get(I, r, "variables"))), comp(I, r), tuple(I.iterate(get(I, r, "syms"))), ar,
                        I.call(fun, [S("w_" + str(tm.short(tm.as_t(q)))) for q in ar], {}) if not lbl.startswith("vector") else None)
            out = R.ev(I, go)
            R.where = R.loc_of(I, BC + ".lorentz_transform") if "under" in lbl else R.loc_of(I, SY + "tensor.tensor_product") if "product" in lbl else R.loc_of(I, SY + "vector.GenericVector.change_config")
            if not R.no_raise(lbl, out):
                continue
            v0, v1, c, sy, ar, val = out.value
            R.same_all(lbl + ": variables of the source", v0, old, out)
            names = lambda vs: [str(tm.short(tm.as_t(q))) for q in vs]
            free = set()

            def walk(e):
                if isinstance(e, tuple):
                    for q in e:
                        walk(q)
                else:
                    free.update(q.name for q in tm.deep_gens(tm.as_t(e)).values() if q.kind == "sym")
            walk(c)
            free -= {"x", "y"}
            n1 = names(v1)
            R.require(lbl + ": every free symbol is a variable", free <= set(n1), "%s missing from %s" % (sorted(free - set(n1)), n1))
            R.require(lbl + ": each once", len(n1) == len(set(n1)), "variables %s" % n1)
            keep = [q for q in names(old) if q in n1]
            R.require(lbl + ": old variables in the old order", "under" not in lbl and "lowered" in lbl or [q for q in n1 if q in keep] == keep, "variables %s, before %s" % (n1, names(old)))
            R.same_all(lbl + ": arguments", ar, sy + v1, out)
            if val is not None:
                m = {q: S("w_" + str(tm.short(tm.as_t(q)))) for q in ar}
                R.same_all(lbl + ": value", val, tuple_map(lambda e: tm.subs(tm.as_t(e), m), c), out)
    R.guard("derived", derived)
