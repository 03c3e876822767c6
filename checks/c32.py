"""C32: Runge-Kutta steppers."""
from .common import *
from .c18 import warn_cond
from sa.values import b_or as bor, b_and as band, b_not as bnot

MIN_OBLIGATIONS = 60
F = "einsteinpy.integrators."


def cat_name(c):
    return c.path.split(".")[-1] if isinstance(c, ExtV) else getattr(c, "name", c)


def warns(R, out, want, pre=None):
    ws = warn_cond(out)
    got = False
    for b, cat, msg in ws:
        got = bor(got, b)
        R.require("warning category", cat_name(cat) == "RuntimeWarning", "category %r" % (cat,))
    R.equal("warns iff beyond the bound", got, want, out.pre_facts, out.pre_guard)


def comps(v, n):
    """components of a gated tuple"""
    if isinstance(v, Ite):
        a, b = comps(v.t, n), comps(v.f, n)
        return tuple(ite(Ite(v.a, True, False), x, y) for x, y in zip(a, b))
    return tuple(v)


def rk4(f, t, y, h):
    add = lambda a, k, b: tuple(p + k * q for p, q in zip(a, b))
    k0 = f(t, y)
    k1 = f(t + h / 2, add(y, h / 2, k0))
    k2 = f(t + h / 2, add(y, h / 2, k1))
    k3 = f(t + h, add(y, h, k2))
    return t + h, tuple(a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k0, k1, k2, k3))


def run(R):
    R.rule("RK4naive.step replaces (t, y) by the classical fourth order Runge-Kutta update with the given increment, or warns and leaves them alone when t is at or beyond t_bound in the "
           "direction of integration (1 when t_bound >= t0, else -1); RK45 hands its arguments to scipy's RK45 (first step 0.8 h, largest step 8 h, rtol 0.2 h, atol rtol/800 by default) "
           "and turns a RuntimeError of step into a RuntimeWarning, nothing else")
    I = R.interp()
    t, tb, h = S("t"), S("tb"), S("h")

    # ---------------------------------------------------------------- RK4naive
    def ff(n):
        def f(tt, yy):
            return tuple(tm.func("f%d" % i, [tt] + list(yy)) for i in range(n))
        return f

    def pyf(n, vec):
        def g(I2, a, k):
            tt = tm.as_t(I2.force(a[0]))
            y = I2.force(a[1])
            yy = tuple(tm.as_t(I2.force(x)) for x in I2.iterate(y)) if vec else (tm.as_t(y),)
            r = ff(n)(tt, yy)
            return I2.new_arr((n,), list(r)) if vec else r[0]
        return PyFn(g, "fun")
    R.where = R.loc_of(I, F + "RK4naive.step")
    fwd = lambda tt: bnot(gtz(tb - tt))          # t >= t_bound
    bwd = lambda tt: bnot(gtz(tt - tb))
    for n, vec in ((1, False), (2, True), (3, True)):
        y = tuple(S("y%d" % i) for i in range(n))
        for nm, pre in (("forward", [bnot(gtz(t - tb))]), ("backward", [gtz(t - tb)])):
            for steps in (1, 2) if n < 3 else (1,):
                def one(n=n, vec=vec, y=y, nm=nm, pre=pre, steps=steps):
                    R.group = "RK4naive %s n=%d%s, %d step(s)" % (nm, n, "" if vec else " (float)", steps)

                    def call():
                        o = I.call(I.global_(F + "RK4naive"), [pyf(n, vec), t, arr(I, y) if vec else y[0], tb, h], {})
                        for k in range(steps):
                            b = ints_of(I, o)
                            meth(I, o, "step")
                            havoc_counters(I, o, b, ints_of(I, o))
                        return get(I, o, "t"), get(I, o, "y"), get(I, o, "direction"), get(I, o, "t_bound"), get(I, o, "step_size")
                    out = R.ev(I, call, pre)
                    if not R.no_raise("step", out):
                        return
                    beyond = (lambda tt: fwd(tt)) if nm == "forward" else (lambda tt: bwd(tt))
                    wt, wy, w = t, y, False
                    # state after k steps: once stopped it stays
                    conds = []
                    states = [(t, y)]
                    for k in range(steps):
                        conds.append(beyond(states[-1][0]))
                        states.append(rk4(ff(n), states[-1][0], states[-1][1], h))
                    et, ey = states[-1]
                    stop = False
                    # nested gates: stop at the first step whose start is beyond the bound
                    for k in reversed(range(steps)):
                        st_t, st_y = states[k]
                        et = ite(conds[k], st_t, et)
                        ey = tuple(ite(conds[k], a, b) for a, b in zip(st_y, ey))
                        stop = bor(conds[k], stop)
                    R.equal("t", out.value[0], et, out.facts, out.guard)
                    got = comps(out.value[1], n) if vec else (out.value[1],)
                    for i in range(n):
                        R.equal("y%d" % i, got[i], ey[i], out.facts, out.guard)
                    R.equal("direction", out.value[2], 1 if nm == "forward" else -1, out.facts, out.guard)
                    R.equal("t_bound", out.value[3], tb, out.facts, out.guard)
                    R.equal("step_size", out.value[4], h, out.facts, out.guard)
                    if steps == 1:
                        warns(R, out, conds[0])
                R.guard("RK4naive", one)

    # an integer start state is not truncated
    for lbl, y0 in (("integer array", lambda: arr(I, (3, -2))), ("integers", None)):
        def ints(lbl=lbl, y0=y0):
            R.group = "RK4naive " + lbl
            n = 2 if y0 else 1

            def call():
                o = I.call(I.global_(F + "RK4naive"), [pyf(n, n > 1), 0, y0() if y0 else 3, 5, 2], {})
                meth(I, o, "step")
                return get(I, o, "t"), get(I, o, "y")
            out = R.ev(I, call)
            if not R.no_raise("step", out):
                return
            et, ey = rk4(ff(n), ZERO, tuple(tm.as_t(v) for v in ((3, -2) if y0 else (3,))), tm.as_t(2))
            R.equal("t", out.value[0], et, out.facts, out.guard)
            R.same_all("y", out.value[1], ey if y0 else ey[0], out)
        R.guard("ints", ints)

    # ---------------------------------------------------------------- RK45
    R.where = R.loc_of(I, F + "RK45.__init__")
    ORDER = ("fun", "t0", "y0", "t_bound", "max_step", "rtol", "atol", "vectorized", "first_step")
    log = []

    def init(J, obj, a, k):
        d = dict(zip(ORDER, a))
        d.update(k)
        log.append(d)
        return None
    rt, at = S("rt"), S("at")
    fun = pyf(2, True)
    for nm, kw, wr, wa in (("defaults", {}, h / 5, h / 5 / 800), ("rtol", dict(rtol=rt), rt, rt / 800), ("atol", dict(atol=at), h / 5, at), ("both", dict(rtol=rt, atol=at), rt, at)):
        for ynm, y0, vz in (("vector", None, True), ("float", tm.as_t(tm.Fraction(3, 2)), False)):
            def one(nm=nm, kw=kw, wr=wr, wa=wa, ynm=ynm, y0=y0, vz=vz):
                R.group = "RK45 %s %s" % (nm, ynm)
                del log[:]
                I.hooks["scipy.integrate.RK45.__init__"] = init

                def call():
                    yy = arr(I, (S("y0"), S("y1"))) if y0 is None else y0
                    I.call(I.global_(F + "RK45"), [fun, t, yy, tb, h], dict(kw))
                    if len(log) != 1:
                        raise AnalysisError("scipy's constructor is called %d times" % len(log))
                    d = log[0]
                    return tuple(d.get(k, "missing") for k in ORDER[3:]) + (d.get("fun") is fun, d.get("t0"), d.get("y0"))
                out = R.ev(I, call)
                if not R.no_raise("constructor", out):
                    return
                want = dict(t_bound=tb, max_step=h * 8, rtol=wr, atol=wa, vectorized=vz, first_step=h * 4 / 5)
                for i, k in enumerate(ORDER[3:]):
                    R.equal(k, out.value[i], want[k], out.facts, out.guard)
                v = out.value[len(ORDER) - 3:]
                R.require("fun", v[0] is True, "scipy gets another function")
                R.equal("t0", v[1], t, out.facts, out.guard)
                R.same_all("y0", v[2], (S("y0"), S("y1")) if y0 is None else y0, out)
            R.guard("RK45", one)
    R.where = R.loc_of(I, F + "RK45.step")
    calls = []

    def step(how):
        def f(J, obj, a, k):
            calls.append(how)
            if how:
                J.raise_builtin(how, "solver")
            return None
        return f
    for how in (None, "RuntimeError", "ValueError", "ZeroDivisionError", "TypeError"):
        def one(how=how):
            R.group = "RK45.step, scipy %s" % ("raises " + how if how else "succeeds")
            I.hooks["scipy.integrate.RK45.step"] = step(how)
            del calls[:]

            def call():
                o = I.call(I.global_(F + "RK45"), [fun, t, arr(I, (S("y0"), S("y1"))), tb, h], {})
                meth(I, o, "step")
                return len(calls)
            out = R.ev(I, call)
            ws = warn_cond(out)
            if how in (None, "RuntimeError"):
                if R.no_raise("step", out):
                    R.equal("steps the solver once", out.value, 1, out.facts, out.guard)
                R.require("warnings", len(ws) == (1 if how else 0), "%d warnings" % len(ws))
                for b, cat, msg in ws:
                    R.require("warning unconditional", b is True, "conditional")
                    R.require("category", cat_name(cat) == "RuntimeWarning", repr(cat))
            else:
                R.raises_iff("propagates", out, True, (how,))
                R.require("no warning", not ws, "a warning hides nothing")
        R.guard("RK45.step", one)
    I.hooks.clear()
