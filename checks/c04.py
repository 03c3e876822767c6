"""C04: right-hand side of the geodesic equation."""
from .common import *

MIN_OBLIGATIONS = 30


def run(R):
    R.rule("abstract value of <Metric>.f_vec(lambda, (x,u)) equals (u, -Gamma u u) built from the textbook metric; for a charged test "
           "particle the extra acceleration must be orthogonal to u (g u.a = 0) so that the norm of u is conserved")
    I = R.interp()
    for n in MODQ:
        for form in ("neutral", "charged"):
            if form == "charged" and n != "kn":
                continue

            def one(n=n, form=form):
                R.group = "%s %s" % (PYNAME[n], form)
                R.where = R.loc_of(I, MODQ[n])
                x = vec4()
                u = [S("u%d" % i) for i in range(4)]
                g = spec_metric(n)
                gi = spec_inverse(g)
                ch = spec_christoffel(g, gi, x)
                acc = [-tm.tsum(ch[i][j][k] * u[j] * u[k] for j in range(4) for k in range(4)) for i in range(4)]
                qv = S("qm") if form == "charged" else None

                def f():
                    m = make_metric(I, n, q=Q(I, qv, "C / kg") if qv is not None else None)
                    v = arr(I, x + u)
                    return I.call(get(I, m, "f_vec"), [S("lam"), v], {})
                out = R.ev(I, f, SPIN_OK(S("a")))
                if not R.no_raise("f_vec", out):
                    return
                v = out.value
                if not (isinstance(v, tuple) and len(v) == 8):
                    R.require("length", False, "f_vec does not return 8 components")
                    return
                R.same_all("dx", v[:4], tuple(u), out)
                if form == "neutral":
                    R.same_all("du", v[4:], tuple(acc), out)
                else:
                    F = spec_em_tensor_code()
                    lor = [v[4 + i] - acc[i] for i in range(4)]
                    power = tm.tsum(g[i][j] * u[i] * lor[j] for i in range(4) for j in range(4))
                    # recorded finding: contraction on the wrong index
                    Fc = matmul(matmul(gi, F), gi)
                    rec = [-(qv * tm.tsum(Fc[i][j] * u[j] * g[i][k] for i in range(4) for j in range(4))) for k in range(4)]
                    palt = tm.tsum(g[i][j] * u[i] * rec[j] for i in range(4) for j in range(4))
                    R.equal("u.a", power, ZERO, out.facts, out.guard, known="F1", alt=palt)
                    # zero charge limit
                    for i in range(4):
                        R.equal("q=0 limit[%d]" % i, tm.subs(v[4 + i], {qv: ZERO}), acc[i], out.facts, out.guard)
            R.guard(n + form, one)
    R.guard("regular", lambda: metric_regular(R, I, "f_vec", lambda fn: I.call(fn, [S("lam"), arr(I, vec4() + [S("u%d" % i) for i in range(4)])], {})))
    R.guard("integers", lambda: metric_ints(R, I, ("f_vec",), lambda f, x: I.call(f, [S("lam"), x], {}), 8))


def spec_em_tensor_code():
    """the electromagnetic tensor as published by the package (see C05 for its own finding)"""
    t, r, th, ph = vec4()
    rs, al, rq2 = params()
    rq = S("Q") * tm.sqrt(G * KC) / (C * C)
    s, co = tm.sin(th), tm.cos(th)
    rho2 = r * r + al * al * co * co
    A = [r * rq / rho2, ZERO, ZERO, -r * al * rq * s * s / rho2]
    F = [[ZERO] * 4 for _ in range(4)]
    x = vec4()
    for i in range(4):
        for j in range(4):
            F[i][j] = tm.diff(A[j], x[i]) - tm.diff(A[i], x[j])
    for i, j in ((1, 3), (2, 3)):
        F[i][j], F[j][i] = -F[i][j], -F[j][i]
    return F
