"""C18: numerical-error warnings of the integrator."""
from .common import *
from .c17 import vec, GI
from sa.models import to_str
from .c14 import user_metric

MIN_OBLIGATIONS = 30


def warn_cond(out, marks=False):
    """gated condition under which a warning is issued, relative to the preconditions; list of (condition, category, message)
    [, number of the last mark before it]"""
    from sa.values import ATOMS
    r = []
    m = 0
    for e in out.trace:
        if e.name == "mark":
            m = max(m, e.args[0])
        if e.name != "warn":
            continue
        b = True
        for i, v in e.facts.items():
            if i in out.pre_facts:
                continue
            lit = Ite(ATOMS[i], True, False)
            b = b_and(b, lit if v else b_not(lit))
        r.append((b, e.args[1], e.args[0]) + ((m,) if marks else ()))
    return r


def run(R):
    R.rule("after every step a RuntimeWarning naming the step is issued exactly when |g^{ab} p_a p_b - (-1 or 0)| > atol + rtol*|-1 or 0| at the new state, "
           "and never with suppress_warnings; the state, the step counter and the result list do not depend on it")
    I = R.interp()
    R.where = R.loc_of(I, GI + ".step")
    d, w = S("d"), S("w")
    rt, at = S("rtol", True), S("atol", True)
    q, p = vec("q"), vec("p")
    idx = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 3), (1, 2)]

    def gm(prm):
        return [[S("m%d%d" % (min(a, b), max(a, b))) * prm if (min(a, b), max(a, b)) in idx else ZERO for b in range(4)] for a in range(4)]

    def fn(I2, args, kw):
        pr = tm.as_t(list(args[1:])[0])
        return I2.new_arr((4, 4), [e for r in gm(pr) for e in r])
    for tl in (None, True, False):
        for sup in (None, False, True):
            for tol in (False, True):
                def one(tl=tl, sup=sup, tol=tol):
                    R.group = "time_like=%s suppress_warnings=%s %s" % (tl, sup, "given tolerances" if tol else "default tolerances")
                    kw = dict(delta=d, omega=w)
                    if tl is not None:
                        kw["time_like"] = tl
                    if sup is not None:
                        kw["suppress_warnings"] = sup
                    if tol:
                        kw.update(rtol=rt, atol=at)

                    def f(k=kw):
                        o = I.call(I.global_(GI), [PyFn(fn, "metric"), (S("k"),), arr(I, q), arr(I, p)], k)
                        meth(I, o, "step")
                        return get(I, o, "res_list"), get(I, o, "step_num"), get(I, o, "results")
                    out = R.ev(I, f)
                    ref = R.ev(I, lambda: f(dict(kw, suppress_warnings=True)))
                    if not R.no_raise("step", out):
                        return
                    R.same_all("state", out.value[0], ref.value[0], out, at=(0,))
                    R.equal("step_num", out.value[1], 1, out.facts, out.guard)
                    R.same_all("results", out.value[2], (ref.value[0],), out, at=(2,))
                    ws = warn_cond(out)
                    if sup:
                        R.require("no warning", not ws, "a warning is issued although warnings are suppressed")
                        return
                    g = gm(S("k"))
                    p1 = ref.value[0][1]
                    n = tm.tsum(g[a][b] * p1[a] * p1[b] for a in range(4) for b in range(4))
                    c = ZERO if tl is False else -ONE
                    e1, e2 = (rt, at) if tol else (tm.as_t(tm.Fraction(1, 100)),) * 2
                    want = gtz(tm.absval(n - c) - e2 - e1 * tm.absval(c))
                    R.require("a warning site", ws, "no warning is ever issued")
                    got = False
                    for b, cat, msg in ws:
                        R.equal("at most one warning", b_and(got, b), False, out.pre_facts, out.pre_guard)
                        got = b_or(got, b)
                        R.require("category", (cat.path.split(".")[-1] if isinstance(cat, ExtV) else cat) == "RuntimeWarning", "category %r" % (cat,))
                    R.equal("warns iff", got, want, out.pre_facts, out.pre_guard)
                R.guard("case", one)

    # ---- every step, early or late, inside or past the announced number of steps; one step replaced by a fresh state
    def many(steps, tl, sup, N, havoc=False):
        R.group = "steps=%s time_like=%s suppress_warnings=%s%s" % (steps, tl, sup, ", any step number" if havoc else "")
        kw = dict(rtol=rt, atol=at, time_like=tl, suppress_warnings=sup)
        if steps is not None:
            kw["steps"] = steps
        names = ["q1", "p1", "q2", "p2"]
        calls = []

        def integ(I2, args, k):
            calls.append(tuple(args))
            n = len(calls)
            I2.event("mark", (n,))
            return I2.new_arr((4, 4), [S("%s%d_%d" % (v, n, i)) for v in names for i in range(4)])

        def flat(I2, args, k):
            xs = [tm.as_t(e) for e in I2.iterate(I2.force(args[0]))]
            return I2.new_arr((4, 4), [(xs[1] if i == 1 else tm.as_t(-1 if i == 0 else 1)) if i == j else ZERO for i in range(4) for j in range(4)])

        def f():
            del calls[:]
            o = I.call(I.global_(GI), [PyFn(flat, "metric"), (), arr(I, q), arr(I, p)], kw)
            I.setattr_(o, "integrator", PyFn(integ, "integrator"))
            for _ in range(N):
                b = ints_of(I, o)
                meth(I, o, "step")
                if havoc:
                    havoc_counters(I, o, b, ints_of(I, o))
            return get(I, o, "step_num"), I.st and len(list(I.iterate(get(I, o, "results")))), get(I, o, "res_list")
        out = R.ev(I, f)
        if not R.no_raise("steps", out):
            return
        if len(calls) != N:        # the scheme is not called through this attribute
            R.notes.append("%s: the scheme is called %d times in %d steps of the stub; covered by single steps" % (R.group, len(calls), N))
            return
        if not havoc:
            R.equal("step_num", out.value[0], N, out.facts, out.guard)
        R.equal("number of states", out.value[1], N, out.facts, out.guard)
        R.same_all("last state", out.value[2], tuple(tuple(S("%s%d_%d" % (v, N, i)) for i in range(4)) for v in names), out)
        ws = warn_cond(out, True)
        if sup:
            R.require("no warning", not ws, "a warning is issued although warnings are suppressed")
            return
        c = -ONE if tl else ZERO
        import re
        for n in range(1, N + 1):
            mine = [x for x in ws if x[3] == n]
            R.require("a warning site for step %d" % n, mine, "step %d never warns" % n)
            pp = [S("p1%d_%d" % (n, i)) for i in range(4)]
            v = -sq(pp[0]) + S("q1%d_1" % n) * sq(pp[1]) + sq(pp[2]) + sq(pp[3])
            got = False
            for b, cat, msg, _ in mine:
                R.equal("at most one warning at step %d" % n, b_and(got, b), False, out.pre_facts, out.pre_guard)
                got = b_or(got, b)
                t = msg if isinstance(msg, str) else to_str(I, msg)
                if isinstance(t, str) and not havoc:
                    R.require("step %d named" % n, str(n) in re.findall(r"\d+", t), "message %r does not name step %d" % (t, n))
            R.equal("warns at step %d iff" % n, got, gtz(tm.absval(v - c) - at - rt * tm.absval(c)), out.pre_facts, out.pre_guard)
    for steps, tl, sup, N in ((2, True, False, 5), (1, False, False, 3), (0, True, False, 2), (None, True, True, 4), (None, False, False, 64 if R.thorough else 24)):
        R.guard("many", lambda: many(steps, tl, sup, N))
    R.guard("any step", lambda: many(S("nsteps"), True, False, 2, True))
