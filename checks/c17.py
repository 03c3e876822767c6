"""C17: the symplectic integrator is the FANTASY / Yoshida scheme of the requested order."""
from .common import *
from sa import witness
from .c16 import dual_metric

MIN_OBLIGATIONS = 100
GI = "einsteinpy.integrators.GeodesicIntegrator"
IU = "einsteinpy.integrators.utils."


def vec(n):
    return [S("%s_%d" % (n, i)) for i in range(4)]


# --- specification: the extended phase space (q1, p1, q2, p2) --------------------------------------
def spec_A(g, dg, z, d):
    q1, p1, q2, p2 = z
    G_, D = g(q1), dg(q1)
    return (q1, [p1[k] - d / 2 * tm.tsum(D[k][i][j] * p2[i] * p2[j] for i in range(4) for j in range(4)) for k in range(4)],
            [q2[k] + d * tm.tsum(G_[k][j] * p2[j] for j in range(4)) for k in range(4)], p2)


def spec_B(g, dg, z, d):
    q1, p1, q2, p2 = z
    a = spec_A(g, dg, (q2, p2, q1, p1), d)
    return (a[2], a[3], a[0], a[1])


def spec_C(z, d, w):
    q1, p1, q2, p2 = z
    c, s = tm.cos(2 * w * d), tm.sin(2 * w * d)
    h = tm.as_t(tm.Fraction(1, 2))
    out = [[], [], [], []]
    for k in range(4):
        qs, qd, ps, pd = q1[k] + q2[k], q1[k] - q2[k], p1[k] + p2[k], p1[k] - p2[k]
        out[0].append(h * (qs + qd * c + pd * s))
        out[1].append(h * (ps + pd * c - qd * s))
        out[2].append(h * (qs - qd * c - pd * s))
        out[3].append(h * (ps - pd * c + qd * s))
    return tuple(out)


def spec_S2(A, B, Cm, z, d):
    z = A(z, d / 2)
    z = B(z, d / 2)
    z = Cm(z, d)
    z = B(z, d / 2)
    return A(z, d / 2)


def zcoef(order):
    x = tm.power(tm.as_t(2), tm.as_t(tm.Fraction(1, order - 1)))
    return -x / (2 - x), ONE / (2 - x)


def spec_step(A, B, Cm, z, d, order):
    if order == 2:
        return spec_S2(A, B, Cm, z, d)
    z0, z1 = zcoef(order)
    for k in (z1, z0, z1):
        z = spec_step(A, B, Cm, z, d * k, order - 2)
    return z


def tup(z):
    return tuple(tuple(v) for v in z)


def run(R):
    R.rule("one step of GeodesicIntegrator maps (q1,p1,q2,p2) to the Strang composition A(d/2) B(d/2) C(d, omega) B(d/2) A(d/2) of the exact partial flows; "
           "orders 4, 6, 8 are the Yoshida triple jumps z1, z0, z1 of the next lower order with 2 z1 + z0 = 1 and 2 z1^(n-1) + z0^(n-1) = 0; "
           "the start state is the given event and momentum in both copies")
    I = R.interp()
    d, w = S("d"), S("w")
    R.where = R.loc_of(I, GI)
    q, p = vec("q"), vec("p")
    q1, p1, q2, p2 = vec("q1"), vec("p1"), vec("q2"), vec("p2")

    def flow(nm):
        try:
            return I.global_(IU + nm)
        except AnalysisError:
            return None

    # ---- partial flows, arbitrary metric
    def flows():
        R.group = "flow"
        mf = dual_metric()
        prm = (S("a"),)

        def g(x):
            return [[tm.func("g%d%d" % (min(i, j), max(i, j)), tuple(x) + prm) for j in range(4)] for i in range(4)]

        def dg(x):
            return [[[tm.diff(e, x[k]) for e in row] for row in g(x)] for k in range(4)]
        z = (q1, p1, q2, p2)
        for nm, sp, pos in (("_flow_A", spec_A, (2, 1)), ("_flow_B", spec_B, (0, 3))):
            f = flow(nm)
            if f is None:
                R.notes.append(nm + " not found: covered by the whole-step obligations only")
                continue
            for dl in (d, None):
                out = R.ev(I, lambda: I.call(f, [mf, prm] + [arr(I, v) for v in z] + ([] if dl is None else [dl]), {}))
                if R.no_raise(nm, out):
                    s = sp(g, dg, z, d if dl is not None else tm.as_t(tm.Fraction(1, 2)))
                    R.same_all(nm + (" default step" if dl is None else ""), out.value, tuple(tuple(s[k]) for k in pos), out, where=R.loc_of(I, IU + nm))
        f = flow("_flow_mixed")
        if f is not None:
            out = R.ev(I, lambda: I.call(f, [arr(I, v) for v in z] + [d, w], {}))
            if R.no_raise("_flow_mixed", out):
                R.same_all("_flow_mixed", out.value, tup(spec_C(z, d, w)), out, where=R.loc_of(I, IU + "_flow_mixed"))
    R.guard("flows", flows)

    # ---- coefficients
    def coef():
        R.group = "coefficients"
        nm = IU + "_Z"
        R.where = R.loc_of(I, nm)
        for n in (4, 6, 8):
            out = R.ev(I, lambda: I.call(I.global_(nm), [n], {}))
            if not R.no_raise("_Z(%d)" % n, out):
                continue
            z0, z1 = out.value
            R.equal("order %d: 2 z1 + z0 = 1" % n, 2 * z1 + z0, ONE, out.facts, out.guard)
            R.equal("order %d: 2 z1^%d + z0^%d = 0" % (n, n - 1, n - 1), 2 * z1 ** (n - 1) + z0 ** (n - 1), ZERO, out.facts, out.guard)
            R.same_all("order %d values" % n, out.value, zcoef(n), out)
    R.guard("coef", coef)

    # ---- whole order-2 step, metric with one position dependent entry
    def mk(metric, order, prm=(), **kw):
        k = dict(delta=d, omega=w, order=order, suppress_warnings=True)
        k.update(kw)
        return I.call(I.global_(GI), [metric, prm, arr(I, q), arr(I, p)], k)

    diag = [S("m%d" % i) for i in range(4)]
    K = S("k")

    def toy(i, j, c):
        """constant diagonal plus k * x_c in entry (i, j)"""
        def fn(I2, args, kw):
            xs = list(I2.iterate(args[0]))
            els = []
            for a in range(4):
                for b in range(4):
                    e = diag[a] if a == b else ZERO
                    if (a, b) in ((i, j), (j, i)):
                        e = I2.binop("+", I2.binop("*", xs[c], K), e)
                    els.append(e)
            return I2.new_arr((4, 4), els)

        def g(x):
            m = [[diag[a] if a == b else ZERO for b in range(4)] for a in range(4)]
            m[i][j] = m[i][j] + K * x[c]
            if i != j:
                m[j][i] = m[i][j]
            return m

        def dg(x):
            return [[[K if k == c and (a, b) in ((i, j), (j, i)) else ZERO for b in range(4)] for a in range(4)] for k in range(4)]
        return PyFn(fn, "metric"), g, dg
    cases = [(0, 0, 1), (0, 3, 2), (3, 3, 2), (1, 2, 0), (2, 2, 3)]
    if R.thorough:
        cases = [(i, j, c) for i in range(4) for j in range(i, 4) for c in range(4) if c not in (i, j)]
    for i, j, c in cases:
        def one(i=i, j=j, c=c):
            R.group = "step, g^%d%d depends on x%d" % (i, j, c)
            m, g, dg = toy(i, j, c)

            def f():
                o = mk(m, 2)
                a = get(I, o, "res_list")
                first = tuple(I.iterate(a))
                meth(I, o, "step")
                return first, get(I, o, "res_list")
            out = R.ev(I, f)
            if not R.no_raise("step", out):
                return
            R.same_all("initial state", out.value[0], tup((q, p, q, p)), out, at=(0,))
            want = spec_step(lambda z, e: spec_A(g, dg, z, e), lambda z, e: spec_B(g, dg, z, e), lambda z, e: spec_C(z, e, w), (q, p, q, p), d, 2)
            R.same_all("state", out.value[1], tup(want), out, at=(1,))
        R.guard("toy", one)

    def ints():
        R.group = "integer event and momentum"
        m, g, dg = toy(0, 3, 2)
        qi, pi = (0, 7, 1, 2), (-1, 0, 3, 2)

        def f():
            o = I.call(I.global_(GI), [m, (), arr(I, qi), arr(I, pi)], dict(delta=d, omega=w, suppress_warnings=True))
            meth(I, o, "step")
            return get(I, o, "res_list")
        out = R.ev(I, f)
        if R.no_raise("step", out):
            Q_, P_ = [tm.as_t(v) for v in qi], [tm.as_t(v) for v in pi]
            want = spec_step(lambda z, e: spec_A(g, dg, z, e), lambda z, e: spec_B(g, dg, z, e), lambda z, e: spec_C(z, e, w), (Q_, P_, Q_, P_), d, 2)
            R.same_all("state", out.value, tup(want), out)
    R.guard("ints", ints)

    # ---- composition with the partial flows kept uninterpreted, all orders
    FI = "einsteinpy.integrators.fantasy"

    def args_of(a, kw, names):
        v = dict(zip(names, a))
        v.update(kw)
        return v

    def compose(order):
        R.group = "order %d" % order
        mod = I.global_(FI)
        fr = I.content(mod.frame).d
        if not all(n in fr for n in ("_flow_A", "_flow_B", "_flow_mixed")):
            R.notes.append("partial flows not bound in fantasy.py: composition of order %d checked on linear problems only" % order)
            return linear(order)
        FN = ("g", "g_prms", "q1", "p1", "q2", "p2", "delta")

        # every distinct call (flow, state, step) gets fresh result symbols; calls whose arguments are equal terms share them
        calls = {}

        def app(nm, comps, z, extra):
            zs = tuple(tm.as_t(e) for v in z for e in v)
            known = calls.setdefault((nm, tuple(t.key() for t in zs)), [])
            for ex, r in known:
                if all(tm.equal(x, y) or witness.separate(x, y, {})[0] == "same" for x, y in zip(ex, extra)):
                    return r
            n = sum(len(v) for v in calls.values())
            r = [[S("%s%d_%d_%d" % (nm, n, c, k)) for k in range(4)] for c in range(comps)]
            known.append((extra, r))
            return r

        def stub(nm):
            def fn(I2, a, kw):
                v = args_of(a, kw, FN)
                z = [[tm.as_t(e) for e in I2.iterate(v[n])] for n in FN[2:6]]
                r = app(nm, 2, z, (tm.as_t(v.get("delta", tm.Fraction(1, 2))),))
                return tuple(arr(I2, x) for x in r)
            return PyFn(fn, nm)

        def mix(I2, a, kw):
            v = args_of(a, kw, FN[2:] + ("omega",))
            z = [[tm.as_t(e) for e in I2.iterate(v[n])] for n in FN[2:6]]
            r = app("C", 4, z, (tm.as_t(v.get("delta", tm.Fraction(1, 2))), tm.as_t(v.get("omega", 1))))
            return tuple(arr(I2, x) for x in r)

        def f():
            I.setattr_(mod, "_flow_A", stub("A"))
            I.setattr_(mod, "_flow_B", stub("B"))
            I.setattr_(mod, "_flow_mixed", PyFn(mix, "C"))
            o = mk(PyFn(lambda I2, a, kw: I2.new_arr((4, 4), [ZERO] * 16), "metric"), order)
            meth(I, o, "step")
            one = get(I, o, "res_list")
            if order == 2:
                meth(I, o, "step")
            return one, get(I, o, "res_list"), get(I, o, "results")
        out = R.ev(I, f)
        if not R.no_raise("step", out):
            return
        if not calls:
            R.notes.append("the step does not call the partial flows bound in fantasy.py: composition of order %d checked on linear problems only" % order)
            return linear(order)

        def A(z, e):
            r = app("A", 2, z, (e,))
            return (z[0], r[1], r[0], z[3])

        def B(z, e):
            r = app("B", 2, z, (e,))
            return (r[0], z[1], z[2], r[1])
        Cf = lambda z, e: tuple(app("C", 4, z, (e, w)))
        z1 = spec_step(A, B, Cf, (q, p, q, p), d, order)
        R.same_all("state", out.value[0], tup(z1), out, at=(0,))
        if order == 2:          # the next step starts from the whole extended state the first one ended in
            z2 = spec_step(A, B, Cf, z1, d, order)
            R.same_all("state after the second step", out.value[1], tup(z2), out, at=(1,))
            R.same_all("results", out.value[2], (tup(z1), tup(z2)), out, at=(2,))

    def linear(order):
        R.group = "order %d, free particle" % order
        mm = lambda a, b: S("m%d%d" % (min(a, b), max(a, b))) if a == b or a + b == 3 else ZERO

        def fn(I2, args, kw):
            return I2.new_arr((4, 4), [mm(a, b) for a in range(4) for b in range(4)])
        out = R.ev(I, lambda: (lambda o: (meth(I, o, "step"), get(I, o, "res_list"))[1])(mk(PyFn(fn, "metric"), order, omega=ZERO)))
        if R.no_raise("step", out):
            qn = [q[k] + d * tm.tsum(mm(k, j) * p[j] for j in range(4)) for k in range(4)]
            R.same_all("state", out.value, tup((qn, p, qn, p)), out)
    for n in (2, 4, 6, 8):
        R.guard("order", lambda n=n: compose(n))
        if n <= (6 if R.thorough else 4):
            R.guard("linear", lambda n=n: linear(n))

    def orders():
        R.group = "order"
        mf = dual_metric()
        for n in (0, 1, 3, 5, 7, 10, -2, "2"):
            must_raise(R, I, "order=%r" % (n,), lambda: mk(mf, n), ("NotImplementedError",))
    R.guard("orders", orders)

    # ---- successive steps chain
    def chain():
        R.group = "two steps"

        def fn(I2, args, kw):
            return I2.new_arr((4, 4), [diag[a] if a == b else 0 for a in range(4) for b in range(4)])

        def f():
            o = mk(PyFn(fn, "metric"), 2)
            meth(I, o, "step")
            n1 = get(I, o, "step_num")
            meth(I, o, "step")
            return n1, get(I, o, "step_num"), get(I, o, "results")
        out = R.ev(I, f)
        if not R.no_raise("steps", out):
            return
        R.equal("step_num after 1", out.value[0], 1)
        R.equal("step_num after 2", out.value[1], 2)
        g = lambda x: [[diag[a] if a == b else ZERO for b in range(4)] for a in range(4)]
        dg = lambda x: [[[ZERO] * 4] * 4] * 4
        st = lambda z: spec_step(lambda z, e: spec_A(g, dg, z, e), lambda z, e: spec_B(g, dg, z, e), lambda z, e: spec_C(z, e, w), z, d, 2)
        z1 = st((q, p, q, p))
        z2 = st(z1)
        R.same_all("results", out.value[2], (tup(z1), tup(z2)), out)
    R.guard("chain", chain)

    # ---- any history: the number of steps made so far is arbitrary
    def anyhist():
        R.group = "arbitrary step number"

        def fn(I2, args, kw):
            return I2.new_arr((4, 4), [diag[a] if a == b else 0 for a in range(4) for b in range(4)])

        def f(quiet):
            o = mk(PyFn(fn, "metric"), 2, suppress_warnings=quiet, steps=S("nsteps"))
            b = ints_of(I, o)
            meth(I, o, "step")
            n = havoc_counters(I, o, b, ints_of(I, o))
            meth(I, o, "step")
            return (get(I, o, "res_list"), list(I.iterate(get(I, o, "results")))[-1], get(I, o, "step_num"), tuple(get(I, o, k) for k in ("delta", "omega", "order", "steps")),
                    dict(n).get("step_num"))
        g = lambda x: [[diag[a] if a == b else ZERO for b in range(4)] for a in range(4)]
        dg = lambda x: [[[ZERO] * 4] * 4] * 4
        st = lambda z: spec_step(lambda z, e: spec_A(g, dg, z, e), lambda z, e: spec_B(g, dg, z, e), lambda z, e: spec_C(z, e, w), z, d, 2)
        want = st(st((q, p, q, p)))
        for quiet in (True, False):
            out = R.ev(I, lambda: f(quiet))
            lbl = "silent" if quiet else "checked"
            if not R.no_raise(lbl, out):
                continue
            R.same_all(lbl + " state", out.value[0], tup(want), out, at=(0,))
            R.same_all(lbl + " result", out.value[1], tup(want), out, at=(1,))
            if out.value[4] is not None:
                R.equal(lbl + " step number", out.value[2], out.value[4] + 1, out.facts, out.guard)
            R.same_all(lbl + " options", out.value[3], (d, w, 2, S("nsteps")), out, at=(3,))
    R.guard("anyhist", anyhist)
