"""C19: the trajectory a Geodesic reports is the sequence of integrator states, one row per step."""
from sa.values import WrapV
from .common import *
from .c14 import root
from .c17 import GI
from .c18 import warn_cond

MIN_OBLIGATIONS = 60
X3 = (S("r", True), S("th"), S("ph"))
P3 = (S("p1"), S("p2"), S("p3"))


def lin(I, prm=True):
    """diagonal metric with one position dependent entry and one parameter"""
    def fn(I2, args, kw):
        xs = list(I2.iterate(args[0]))
        k = tm.as_t(args[1]) if len(args) > 1 else ONE
        z = [[ZERO] * 4 for _ in range(4)]
        z[0][0] = -ONE
        for i in (1, 2, 3):
            z[i][i] = ONE
        z[1][1] = I2.binop("*", xs[1], k)
        return I2.new_arr((4, 4), [e for r in z for e in r])
    return PyFn(fn, "metric")


def flat(I2, args, kw):
    k = tm.as_t(args[1]) if len(args) > 1 else ONE
    return I2.new_arr((4, 4), [(-k if i == 0 else k) if i == j else ZERO for i in range(4) for j in range(4)])


def stub_step(I, calls):
    """one integrator step replaced by a fresh opaque state: only the bookkeeping around it is analysed"""
    def step(I2, args, kw):
        o = args[0]
        res = I2.getattr_(o, "results")
        n = len(list(I2.iterate(res)))
        st = tuple(I2.new_arr((4,), [S("%s%d_%d" % (v, n, i)) for i in range(4)]) for v in ("q1", "p1", "q2", "p2"))
        I2.call(I2.getattr_(res, "append"), [I2.new_list(list(st))], {})
        return None
    I.setattr_(I.global_(GI), "step", WrapV("stub", PyFn(step, "step")))


def rows(N, cartesian):
    out = []
    for n in range(N):
        q = [S("q1%d_%d" % (n, i)) for i in range(4)]
        p = [S("p1%d_%d" % (n, i)) for i in range(4)]
        if cartesian:
            q = [q[0]] + list(to_cart("Spherical", q[1:], ZERO))
        out.append(tuple(q) + tuple(p))
    return tuple(out)


def run(R):
    R.rule("trajectory = (0..steps-1, rows); row n is (position, momentum) of the state after step n+1 of the integrator built from the same metric, parameters, "
           "initial state and options; with return_cartesian the position columns are t, r sin th cos ph, r sin th sin ph, r cos th and momenta are unchanged; "
           "options default to steps 50, delta 0.5, rtol 1e-2, atol 1e-2, order 2, omega 1, warnings on")
    I = R.interp()
    q = "einsteinpy.geodesic."

    def build(I, cls, met, pr, kw):
        return I.call(I.global_(q + cls), [met, pr, X3, P3], kw)

    # ---- layout of the rows, number of steps
    for cls in ("Geodesic", "Timelike", "Nulllike"):
        for N in (1, 2, 3, None):
            for rc in (None, True, False):
                def lay(cls=cls, N=N, rc=rc):
                    R.group = "%s steps=%s return_cartesian=%s" % (cls, N, rc)
                    R.where = R.loc_of(I, q + cls + ".calculate_trajectory") if cls == "Geodesic" else R.loc_of(I, q + cls)
                    kw = {}
                    if N is not None:
                        kw["steps"] = N
                    if rc is not None:
                        kw["return_cartesian"] = rc

                    def f():
                        stub_step(I, None)
                        o = build(I, cls, PyFn(flat, "metric"), (), kw)
                        return get(I, o, "trajectory"), get(I, o, "coords")
                    out = R.ev(I, f)
                    if not R.no_raise("construct", out):
                        return
                    tr, co = out.value
                    n = 50 if N is None else N
                    R.equal("rows", tr if not isinstance(tr, tuple) else len(tr), 2, out.facts, out.guard)
                    R.equal("step numbers", tr[0], tuple(tm.as_t(i) for i in range(n)), out.facts, out.guard)
                    R.same_all("states", tr[1], rows(n, rc is not False), out, at=(0, 1))
                    R.equal("coords", co, "Spherical Polar" if rc is False else "Cartesian", out.facts, out.guard)
                R.guard("layout", lay)

    # ---- forwarding of the options: same states and warnings as the integrator given them directly
    d, w, rt, at = S("d"), S("w"), S("rtol", True), S("atol", True)
    cases = [("defaults", {}), ("delta", dict(delta=d)), ("omega", dict(omega=w)), ("rtol", dict(rtol=rt)), ("atol", dict(atol=at)),
             ("suppress", dict(suppress_warnings=True)), ("all", dict(delta=d, omega=w, rtol=rt, atol=at, suppress_warnings=False)),
             ("order 2", dict(order=2)), ("order 4", dict(order=4, suppress_warnings=True))]
    full = dict(delta=tm.as_t(tm.Fraction(1, 2)), rtol=tm.as_t(tm.Fraction(1, 100)), atol=tm.as_t(tm.Fraction(1, 100)), order=2, omega=ONE,
                suppress_warnings=False)
    for cls in ("Timelike", "Nulllike"):
        for lbl, kw in cases:
            def fwd(cls=cls, lbl=lbl, kw=kw):
                R.group = "%s option %s" % (cls, lbl)
                R.where = R.loc_of(I, q + "Geodesic.calculate_trajectory")
                fr = lambda n, m=1: tm.as_t(tm.Fraction(n, m))
                k = fr(1, 2)
                pr = (k,)
                x3, p3 = (fr(2), fr(1, 3), fr(1, 5)), (fr(2), fr(4), fr(10)) if cls == "Timelike" else (fr(1), fr(2), fr(2))
                met = (lambda: PyFn(flat, "metric")) if lbl == "order 4" else (lambda: lin(I))
                g = [[ZERO] * 4 for _ in range(4)]
                if lbl == "order 4":
                    for i in range(4):
                        g[i][i] = -k if i == 0 else k
                else:
                    g[0][0], g[1][1], g[2][2], g[3][3] = -ONE, x3[0] * k, ONE, ONE
                p0 = (root(g, p3, ONE if cls == "Timelike" else ZERO),) + p3

                def f():
                    o = I.call(I.global_(q + cls), [met(), pr, x3, p3], dict(kw, steps=1, return_cartesian=False))
                    return get(I, o, "trajectory")

                def ref():
                    fk = dict(full)
                    fk.update(kw)
                    o = I.call(I.global_(GI), [met(), pr, arr(I, (ZERO,) + x3), arr(I, p0)], dict(fk, steps=1, time_like=cls == "Timelike"))
                    meth(I, o, "step")
                    return get(I, o, "results")
                out, rf = R.ev(I, f), R.ev(I, ref)
                if not R.no_raise("trajectory", out):
                    return
                r0 = rf.value[0]
                R.same_all("state after one step", out.value[1], (tuple(r0[0]) + tuple(r0[1]),), out, at=(1,))
                a, b = warn_cond(out), warn_cond(rf)
                R.require("same warnings", len(a) == len(b), "%d warning sites, expected %d" % (len(a), len(b)))
                for x, y in zip(a, b):
                    R.equal("warns iff", x[0], y[0], out.pre_facts, out.pre_guard)
            R.guard("forward", fwd)

    # ---- a user's metric is integrated with the user's parameters, whatever the function is called
    for nm in ("metric", "Schwarzschild", "Kerr", "KerrNewman", "_sch"):
        def named(nm=nm):
            R.group = "user function named %s" % nm
            R.where = R.loc_of(I, q + "Geodesic.__init__")
            pr = (S("k1"), S("k2"))
            seen = []

            def umet(I2, args, kw):
                seen.append(tuple(tm.as_t(a) for a in args[1:]))
                return I2.new_arr((4, 4), [(-ONE if i == 0 else ONE) if i == j else ZERO for i in range(4) for j in range(4)])

            def f():
                stub_step(I, None)
                base = I.getattr_(I.global_(GI), "step").func

                def step(I2, args, kw):
                    plain_metric(I2, I2.getattr_(args[0], "metric"), [S("x%d" % i) for i in range(4)], I2.getattr_(args[0], "metric_params"))
                    return I2.call(base, args, kw)
                I.setattr_(I.global_(GI), "step", WrapV("stub", PyFn(step, "step")))
                o = build(I, "Timelike", PyFn(umet, nm), pr, dict(steps=1))
                return tuple(get(I, o, n) for n in ("metric_name", "metric_params"))
            out = R.ev(I, f, deep=True)
            if not R.no_raise("construct", out):
                return
            R.equal("name", out.value[0], nm, out.facts, out.guard)
            R.same_all("parameters", out.value[1], pr, out)
            R.require("parameters passed", len(seen) > 1 and all(len(s) == 2 and all(tm.equal(a, b) for a, b in zip(s, pr)) for s in seen), "the metric is called with parameters %r" % (seen,))
        R.guard("named", named)

    # ---- the built-in metrics are integrated with the parameters given (Schwarzschild: none)
    for met, pr in (("Schwarzschild", ()), ("Schwarzschild", (S("a"),)), ("Kerr", (S("a"),)), ("KerrNewman", (S("a"), S("Q")))):
        def bi(met=met, pr=pr):
            R.group = "built-in %s %d parameters" % (met, len(pr))
            R.where = R.loc_of(I, q + "Geodesic.__init__")
            seen = []

            def f():
                stub_step(I, None)
                base = I.getattr_(I.global_(GI), "step").func

                def step(I2, args, kw):
                    o = args[0]
                    m = I2.getattr_(o, "metric")
                    seen.append(plain_metric(I2, m, [S("x%d" % i) for i in range(4)], I2.getattr_(o, "metric_params")))
                    return I2.call(base, args, kw)
                I.setattr_(I.global_(GI), "step", WrapV("stub", PyFn(step, "step")))
                o = build(I, "Timelike", met, pr, dict(steps=1))
                return tuple(get(I, o, n) for n in ("metric_name", "metric_params", "position", "time_like", "kind"))
            out = R.ev(I, f, deep=True)
            if not R.no_raise("construct", out):
                return
            R.equal("name", out.value[0], met, out.facts, out.guard)
            R.same_all("parameters kept (spin 0 for Schwarzschild)", out.value[1], (ZERO,) if met == "Schwarzschild" else pr, out)
            R.same_all("initial position", out.value[2], (ZERO,) + X3, out)
            R.require("kind", out.value[3] is True and out.value[4] == "Time-like", "%r" % (out.value[3:],))
            nm = {"Schwarzschild": "_sch", "Kerr": "_kerr", "KerrNewman": "_kerrnewman"}[met]
            want = R.ev(I, lambda: I.call(I.global_("einsteinpy.geodesic.utils." + nm), [arr(I, [S("x%d" % i) for i in range(4)])] + list(pr), {}))
            R.require("integrated", len(seen) == 1, "%d steps" % len(seen))
            R.same_all("metric integrated", seen[0], want.value, want)
        R.guard("builtin", bi)


    # ---- long runs: no cap on the number of steps
    def long(cls, N, rc):
        R.group = "%s steps=%d return_cartesian=%s" % (cls, N, rc)
        R.where = R.loc_of(I, q + "Geodesic.calculate_trajectory")
        E = {v: [S("%s_%d" % (v, i)) for i in range(4)] for v in ("q1", "p1", "q2", "p2")}

        def f():
            def step(I2, args, kw):
                I2.call(I2.getattr_(I2.getattr_(args[0], "results"), "append"), [shared], {})
            shared = I.new_list([I.new_arr((4,), E[v]) for v in ("q1", "p1", "q2", "p2")])
            I.setattr_(I.global_(GI), "step", WrapV("stub", PyFn(step, "step")))
            o = build(I, cls, PyFn(flat, "metric"), (), dict(steps=N, return_cartesian=rc))
            a, b = I.iterate(get(I, o, "trajectory"))
            a, b = list(I.iterate(a)), list(I.iterate(b))
            last = b[-1]
            return len(a), len(b), a[-1], b[0], last
        out = R.ev(I, f)
        if not R.no_raise("construct", out):
            return
        R.equal("number of step numbers", out.value[0], N, out.facts, out.guard)
        R.equal("number of rows", out.value[1], N, out.facts, out.guard)
        R.equal("last step number", out.value[2], tm.as_t(N - 1), out.facts, out.guard)
        qq = E["q1"] if not rc else [E["q1"][0]] + list(to_cart("Spherical", E["q1"][1:], ZERO))
        for k, lbl in ((3, "first row"), (4, "last row")):
            R.same_all(lbl, out.value[k], tuple(qq) + tuple(E["p1"]), out, at=(k,))
    for cls, N, rc in (("Timelike", 1203, True), ("Nulllike", 12007, False)):
        R.guard("long", lambda: long(cls, N, rc))


def plain_metric(I, m, xs, prm):
    from sa.harness import plain
    return plain(I, I.call(m, [arr(I, xs)] + list(I.iterate(prm)), {}))
