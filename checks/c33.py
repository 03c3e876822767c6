"""C33: queries have no side effects: they change neither their arguments, nor the object queried, nor shared state,
and what they return does not depend on what was called before."""
from .symcommon import *
from .c24 import RANK, DEFAULT, opaque
from .c17 import vec, GI
from sa.values import leaves, same as vsame, Frame, ModuleV, ClassV, FuncV, BoundV, WrapV, Seq, Dct, Arr, Method, Opaque
import time

MIN_OBLIGATIONS = 300
LAZY = ("_v_t",)      # documented: the time velocity is set for the metric of the last query


def kids(c):
    if isinstance(c, (Inst, Frame, Dct)):
        return [(str(k) if isinstance(k, str) else repr(k), v) for k, v in c.d.items()]
    if isinstance(c, Seq):
        return [("[%d]" % i, v) for i, v in enumerate(c.items)]
    if isinstance(c, Arr):
        return []
    return []


def refs(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, tuple):
        for x in v:
            yield from refs(x)
    elif isinstance(v, Ite):
        yield from refs(v.t)
        yield from refs(v.f)
    elif isinstance(v, QuantV):
        yield from refs(v.value)
    elif isinstance(v, BoundV):
        yield from refs(v.self)
    elif isinstance(v, ClassV):
        yield v.ref
    elif isinstance(v, WrapV):
        yield from refs(v.func)
    elif isinstance(v, FuncV):          # mutable default arguments
        for x in list(v.defaults or ()) + list((v.kwdefaults or {}).values()):
            if not isinstance(x, FuncV):
                yield from refs(x)


def reach(I, roots):
    """{heap id: path} of everything reachable from the named roots"""
    out = {}
    todo = [(n, v) for n, v in roots]
    while todo:
        n, v = todo.pop(0)
        for r in refs(v):
            if r.id in out:
                continue
            out[r.id] = n
            c = I.st.get(r.id)
            for k, x in kids(c):
                todo.append((n + ("" if k.startswith("[") else ".") + k, x))
    return out


def shared(I):
    """module globals and class attributes of einsteinpy"""
    out = []
    for nm, m in sorted(I.modules.items()):
        out.append((nm, m.frame))
    return out


def changes(I, before, paths):
    bad = []
    for i, n in paths.items():
        a, b = before[i], I.st.get(i)
        if a is b:
            continue
        if type(a) is not type(b):
            bad.append(n)
            continue
        if isinstance(a, Arr):
            if a.shape != b.shape or a.el is not None and not vsame(tuple(a.el), tuple(b.el)):
                bad.append(n + " (elements)")
        elif isinstance(a, Seq):
            if not vsame(tuple(a.items), tuple(b.items)):
                bad.append(n + " (items)")
        elif isinstance(a, (Inst, Frame, Dct)):
            for k in list(b.d):
                if k not in a.d:
                    if not (isinstance(a, Inst) and k.startswith("_")) and not isinstance(a, Frame):
                        bad.append("%s.%s (new)" % (n, k))
                    elif isinstance(a, Frame) and not str(k).startswith("_"):
                        bad.append("%s.%s (new)" % (n, k))
                elif a.d[k] is not b.d[k] and not vsame(a.d[k], b.d[k]):
                    if k in LAZY or isinstance(k, str) and k.startswith("_") and a.d[k] is None:
                        continue
                    bad.append("%s.%s" % (n, k))
            for k in a.d:
                if k not in b.d:
                    bad.append("%s.%s (deleted)" % (n, k))
    return bad


def pure(R, I, name, setup, op, pre=(), allow=()):
    """op(objects) leaves everything that existed before it alone"""
    def call():
        objs = setup()
        roots = [(k, v) for k, v in objs.items()]
        paths = reach(I, roots)
        sh = reach(I, shared(I))
        for i, n in sh.items():
            paths.setdefault(i, n)
        before = {i: I.st.get(i) for i in paths}
        op(objs)
        bad = [b for b in changes(I, before, paths) if not any(b.startswith(x) for x in allow)]
        return "; ".join(sorted(bad)[:6])
    out = R.ev(I, call, pre)
    if not R.no_raise(name, out):
        return
    bad = sorted({x for _, x in leaves(out.value) if x})
    R.require(name + " changes nothing", not bad, "modifies " + " | ".join(map(str, bad)))


def history(R, I, name, setup, ops, pre=()):
    """every query returns the same value on a fresh object and on one that already answered all the others"""
    fresh = {}
    for k, f in ops.items():
        out = R.ev(I, lambda: f(setup()), pre)
        if not R.no_raise("%s %s" % (name, k), out):
            return
        fresh[k] = out
    for lbl, order in (("after earlier queries", list(ops)), ("after later queries", list(reversed(list(ops))))):
        def call():
            o = setup()
            return tuple(fr(ops[k](o)) for k in order)

        def fr(v):     # freeze: a later call must not change an earlier result either
            return v
        out = R.ev(I, call, pre)
        if not R.no_raise("%s sequence" % name, out):
            continue
        for k, v in zip(order, out.value):
            R.same_all("%s %s %s" % (name, k, lbl), v, fresh[k].value, out)


def run(R):
    R.rule("effect analysis: the set of heap cells reachable from the arguments, the receiver, module globals and class attributes that a query writes is empty "
           "(documented writes excepted), and its result is the same on a fresh object and after any other query, forwards and backwards")
    I = R.interp()
    M2 = S("M2", True)
    x1, x2 = vec4(), [S("t2"), S("r2", True), S("th2"), S("ph2")]
    a_ok = SPIN_OK(S("a"))

    # ---------------------------------------------------------------- metrics
    def metrics():
        for n in MODQ:
            R.group = PYNAME[n]
            R.where = R.loc_of(I, MODQ[n])
            pre = a_ok if n != "schw" else ()
            v8 = lambda x: arr(I, x + [S("u%d" % i) for i in range(4)])
            ops = {"metric_covariant": lambda o, x: meth(I, o, "metric_covariant", x), "metric_contravariant": lambda o, x: meth(I, o, "metric_contravariant", x),
                   "christoffels": lambda o, x: meth(I, o, "christoffels", x)}
            if n == "kn":
                ops.update({k: (lambda o, x, k=k: meth(I, o, k, x)) for k in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant")})
            for k, f in ops.items():
                pure(R, I, k, lambda: dict(self=make_metric(I, n), x_vec=arr(I, x1)), lambda d: f(d["self"], d["x_vec"]), pre)
            pure(R, I, "f_vec", lambda: dict(self=make_metric(I, n), vec=v8(x1)), lambda d: meth(I, d["self"], "f_vec", S("lam"), d["vec"]), pre)
            pure(R, I, "singularities", lambda: dict(self=make_metric(I, n)), lambda d: meth(I, d["self"], "singularities") if callable_(I, d["self"]) else None, pre)
            h = {}
            for k, f in ops.items():
                if k == "metric_contravariant":
                    continue
                h[k + "(x1)"] = lambda o, f=f: f(o, arr(I, x1))
                h[k + "(x2)"] = lambda o, f=f: f(o, arr(I, x2))
            history(R, I, "object", lambda: make_metric(I, n), h, pre)
            # two objects do not share state
            def two():
                o1 = make_metric(I, n)
                o2 = make_metric(I, n, M=Q(I, M2, "kg"))
                return tuple(f(o1, arr(I, x1)) for f in h_funcs(ops))
            out = R.ev(I, two, pre)
            ref = R.ev(I, lambda: tuple(f(make_metric(I, n), arr(I, x1)) for f in h_funcs(ops)), pre)
            if R.no_raise("two objects", out):
                R.same_all("unaffected by another object", out.value, ref.value, out)

    def h_funcs(ops):
        return [f for k, f in ops.items() if k != "metric_contravariant"]

    def callable_(I, o):
        try:
            I.getattr_(o, "singularities")
        except Exception:
            return False
        return True
    R.guard("metrics", metrics)

    # ---------------------------------------------------------------- coordinates
    def coords():
        ml = dict(M=lambda: Q(I, S("M", True), "kg"), a=lambda: Q(I, S("a"), ""))
        for s in SYS:
            R.group = s
            R.where = R.loc_of(I, "einsteinpy.coordinates." + s)
            for lbl, mk in (("", lambda: pos_obj(I, s)), ("Differential", lambda: BUILD[s](I))):
                ops = {"values()": lambda o: meth(I, o, "values"), "position()": lambda o: meth(I, o, "position")}
                if not lbl:
                    ops.update({"[0]": lambda o: I.getitem(o, 0), "[%r]" % CN[s][0]: lambda o: I.getitem(o, CN[s][0])})
                for d in SYS:
                    if d == s:
                        continue
                    nm = "to_" + SHORT[d]
                    kw = (lambda: {k: f() for k, f in ml.items()}) if "BoyerLindquist" in (s, d) else (lambda: {})
                    for pfx in ("to_", "convert_"):
                        mn = pfx + SHORT[d]
                        c = R.ev(I, lambda: I.content(mk()).cls)
                        if I.class_lookup(c.value, mn) is not None:
                            ops[mn] = lambda o, mn=mn, kw=kw: (lambda r: meth(I, r, "values") if outcls(I, r) else r)(meth(I, o, mn, **kw()))
                for k, f in ops.items():
                    pure(R, I, "%s %s" % (lbl, k), lambda: dict(self=mk()), lambda d: f(d["self"]), a_ok)
                history(R, I, lbl or "position", mk, ops, a_ok)
            cm = lambda: {"Spherical": lambda: make_metric(I, "schw", coords=sph(I)), "BoyerLindquist": lambda: make_metric(I, "kerr", coords=bl(I))}
            if s != "Cartesian":
                pure(R, I, "velocity", lambda: dict(self=BUILD[s](I), metric=cm()[s]()), lambda d: meth(I, d["self"], "velocity", d["metric"]), a_ok)
    R.guard("coordinates", coords)

    # ---------------------------------------------------------------- geodesics
    def geo():
        R.group = "geodesic"
        cons = lambda I2, a, k: I2.new_arr((4, 4), [tm.func("g%d%d" % (min(i, j), max(i, j)), [tm.as_t(I2.force(y)) for y in I2.iterate(a[0])][1:3]) for i in range(4) for j in range(4)])
        q, p = vec("q"), vec("p")
        U = "einsteinpy.integrators.utils."
        sim = lambda I2, a, k: I2.new_arr((4, 4), [S("m%d%d" % (min(i, j), max(i, j))) for i in range(4) for j in range(4)])
        R.where = R.loc_of(I, GI)
        mk = lambda: dict(q0=arr(I, q), p0=arr(I, p), params=I.new_list([S("k")]))

        def integ(o):
            def f(d):
                g = I.call(I.global_(GI), [PyFn(sim, "metric"), d["params"], d["q0"], d["p0"]], dict(delta=S("d"), omega=S("w"), order=o, suppress_warnings=True))
                meth(I, g, "step")
                meth(I, g, "step")
            return f
        pure(R, I, "GeodesicIntegrator order 2", mk, integ(2))
        pure(R, I, "GeodesicIntegrator order 4", mk, integ(4)) if R.thorough else None
        for fl in ("_flow_A", "_flow_B", "_flow_mixed"):
            R.where = R.loc_of(I, U + fl)
            st = lambda: dict(q1=arr(I, vec("a")), p1=arr(I, vec("b")), q2=arr(I, vec("c_")), p2=arr(I, vec("e")), params=I.new_list([S("k")]))

            def op(d, fl=fl):
                v = [d["q1"], d["p1"], d["q2"], d["p2"], S("d")]
                I.call(I.global_(U + fl), v if fl == "_flow_mixed" else [PyFn(sim, "metric"), d["params"]] + v, {})
            pure(R, I, fl, st, op)
        for cls in ("Geodesic", "Timelike", "Nulllike"):
            for cart_ in (False, True):
                R.where = R.loc_of(I, "einsteinpy.geodesic." + cls)
                st = lambda: dict(position=I.new_list([S("r0", True), S("th0"), S("ph0")]), momentum=I.new_list([S("pr"), S("pth"), S("pph")]), params=I.new_list([S("k")]))
                kw = dict(time_like=True) if cls == "Geodesic" else {}
                pure(R, I, "%s return_cartesian=%s" % (cls, cart_), st, lambda d: I.call(I.global_("einsteinpy.geodesic." + cls), [], dict(
                    metric=PyFn(sim, "metric"), metric_params=d["params"], position=d["position"], momentum=d["momentum"], steps=1, suppress_warnings=True,
                    return_cartesian=cart_, **kw)))
    R.guard("geodesic", geo)

    # ---------------------------------------------------------------- dual numbers
    def dual():
        R.group = "DualNumber"
        DN = "einsteinpy.utils.dual.DualNumber"
        R.where = R.loc_of(I, DN)
        mk = lambda: dict(x=I.call(I.global_(DN), [S("x"), S("dx")], {}), y=I.call(I.global_(DN), [S("y"), S("dy")], {}))
        for op in ("+", "-", "*", "/"):
            pure(R, I, "x %s y" % op, mk, lambda d: I.binop(op, d["x"], d["y"]))
            pure(R, I, "x %s 2" % op, mk, lambda d: I.binop(op, d["x"], 2))
            pure(R, I, "2 %s x" % op, mk, lambda d: I.binop(op, 2, d["x"]))
        pure(R, I, "x ** 3", mk, lambda d: I.binop("**", d["x"], 3))
        for f in ("sin", "cos", "tan", "exp", "log"):
            pure(R, I, f, mk, lambda d: I.call(ExtV("numpy." + f), [d["x"]], {}))
    R.guard("dual", dual)

    # ---------------------------------------------------------------- utilities
    def util():
        R.group = "utilities"
        P = "einsteinpy.units.primitive"
        R.where = R.loc_of(I, P)
        pure(R, I, "primitive", lambda: dict(x=arr(I, [S("x"), S("y")])), lambda d: I.call(I.global_(P), [d["x"], Q(I, S("z"), "km")], {}))
        HS = "einsteinpy.hypersurface.SchwarzschildEmbedding"
        R.where = R.loc_of(I, HS)
        mk = lambda: dict(self=I.call(I.global_(HS), [Q(I, S("M", True), "kg")], {}))
        for k in ("gradient", "radial_coord"):
            pure(R, I, k, mk, lambda d: meth(I, d["self"], k, S("r", True)))
        B = "einsteinpy.bodies.Body"
        R.where = R.loc_of(I, B)
        pure(R, I, "Body", lambda: dict(coords=cart(I), parent=I.global_("einsteinpy.bodies.Sun")),
             lambda d: I.call(I.global_(B), [], dict(name="b", mass=Q(I, S("m", True), "kg"), R=Q(I, S("R", True), "km"), coords=d["coords"], parent=d["parent"])))
    R.guard("util", util)
    symbolic(R)


def symbolic(R):
    I = sym_interp(R)
    n = 3
    x = X4[:3]
    g = diag_metric(-fn("A", x[1]), fn("B", x[0]), x[1] * x[1])
    gx = tuple(tuple(g[i][j] if i == j or {i, j} != {0, 2} else S("h") for j in range(3)) for i in range(3))
    gw = diag_metric(-fn("A", X4[1]), ONE, ONE, ONE)
    CFGS = ("ll", "uu")
    for cls in ("ChristoffelSymbols", "RiemannCurvatureTensor", "RicciTensor", "RicciScalar", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor", "WeylTensor"):
        def fm(cls=cls):
            R.group = cls
            R.where = R.loc_of(I, SY + cls + ".from_metric")
            for c in CFGS:
                mk = (lambda: dict(metric=metric(I, X4, gw, c))) if cls == "WeylTensor" else (lambda: dict(metric=metric(I, x, g, c)))
                pure(R, I, "from_metric (%s)" % c, mk, lambda d: from_(I, cls, "metric", d["metric"]))
        R.guard(cls, fm)
    for cls, rk in RANK.items():
        def ops(cls=cls, rk=rk):
            R.group = cls
            R.where = R.loc_of(I, SY + cls)
            m2 = lambda: metric(I, x[:2], ((S("g00"), S("g01")), (S("g01"), S("g11"))))
            T2 = opaque(rk, 2)
            L = lambda: I.new_list([I.new_list([S("L00"), S("L01")]), I.new_list([S("L10"), S("L11")])])
            mk = lambda: dict(self=tens(I, cls, x[:2], T2, parent_metric=m2()), metric=m2(), L=L())
            new = "".join("lu"[c == "l"] for c in DEFAULT[cls])
            todo = {"change_config": lambda d: meth(I, d["self"], "change_config", new, d["metric"]),
                    "change_config by parent": lambda d: meth(I, d["self"], "change_config", new),
                    "lorentz_transform": lambda d: meth(I, d["self"], "lorentz_transform", I.call(ExtV("sympy.Matrix"), [d["L"]], {})),
                    "tensor": lambda d: meth(I, d["self"], "tensor"),
                    "symbols": lambda d: meth(I, d["self"], "symbols"),
                    "lambdify": lambda d: meth(I, d["self"], "tensor_lambdify"),
                    "tensor_product": lambda d: I.call(I.global_(SY + "tensor.tensor_product"), [d["self"], d["metric"]], {})}
            for k, f in todo.items():
                pure(R, I, k, mk, f)
        R.guard(cls, ops)

    def met():
        R.group = "MetricTensor"
        R.where = R.loc_of(I, SY + "MetricTensor")
        for c in CFGS:
            mk = lambda: dict(self=metric(I, x, gx, c))
            for k, f in {"inv": lambda d: meth(I, d["self"], "inv"), "lower_config": lambda d: meth(I, d["self"], "lower_config"),
                         "change_config": lambda d: meth(I, d["self"], "change_config", "uu"), "tensor": lambda d: meth(I, d["self"], "tensor")}.items():
                pure(R, I, "%s %s" % (k, c), mk, f)
            comps = {k: (lambda o, k=k: comp(I, meth(I, o, k))) for k in ("inv", "lower_config")}
            comps.update({"change_config uu": lambda o: comp(I, meth(I, o, "change_config", "uu")), "change_config ll": lambda o: comp(I, meth(I, o, "change_config", "ll")),
                          "tensor": lambda o: comp(I, o), "christoffel": lambda o: comp(I, from_(I, "ChristoffelSymbols", "metric", o))})
            history(R, I, c, lambda: metric(I, x, g, c), comps)
    R.guard("metric", met)

    def hist():
        # curvature computed from one metric object in any order
        R.group = "one metric, many tensors"
        names = ("ChristoffelSymbols", "RiemannCurvatureTensor", "RicciTensor", "RicciScalar", "EinsteinTensor", "StressEnergyMomentumTensor", "SchoutenTensor")
        for c in CFGS:
            history(R, I, c, lambda: metric(I, x, g, c), {k: (lambda o, k=k: comp(I, from_(I, k, "metric", o)) if k != "RicciScalar" else get(I, from_(I, k, "metric", o), "expr")) for k in names})
    R.guard("hist", hist)

    def prodn():
        R.group = "tensor_product"
        A, B = opaque(2, 2, "A"), opaque(2, 2, "B")
        R.where = R.loc_of(I, SY + "tensor.tensor_product")
        mk = lambda: dict(A=tens(I, "BaseRelativityTensor", x[:2], A, config="ul", parent_metric=None), B=tens(I, "BaseRelativityTensor", x[:2], B, config="ul", parent_metric=None))
        for ij in ((), (0, 1), (1, 0)):
            pure(R, I, "tensor_product%r" % (ij,), mk, lambda d: I.call(I.global_(SY + "tensor.tensor_product"), [d["A"], d["B"]] + list(ij), {}))
    R.guard("prodn", prodn)
