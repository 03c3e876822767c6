"""C05: electromagnetic potential and field of Kerr-Newman."""
from .common import *
from .c04 import spec_em_tensor_code

MIN_OBLIGATIONS = 40


def run(R):
    R.rule("em_potential_covariant = Kerr-Newman 4-potential; em_tensor_covariant = formal exterior derivative dA and antisymmetric; "
           "contravariant forms = covariant forms raised with the metric's own inverse")
    I = R.interp()

    def one():
        R.group = "KerrNewman"
        R.where = R.loc_of(I, "einsteinpy.metric.KerrNewman.em_tensor_covariant")
        x = vec4()
        t, r, th, ph = x
        rs, al, rq2 = params()
        rq = S("Q") * tm.sqrt(G * KC) / (C * C)
        s, co = tm.sin(th), tm.cos(th)
        rho2 = r * r + al * al * co * co
        A = (r * rq / rho2, ZERO, ZERO, -r * al * rq * s * s / rho2)

        def f():
            m = make_metric(I, "kn")
            return tuple(meth(I, m, k, arr(I, x)) for k in
                         ("em_potential_covariant", "em_tensor_covariant", "em_potential_contravariant", "em_tensor_contravariant",
                          "metric_contravariant"))
        out = R.ev(I, f, SPIN_OK(S("a")))
        if not R.no_raise("em", out):
            return
        a, F, au, Fu, gi = out.value
        R.same_all("A", a, A, out, at=(0,))
        dA = tuple(tuple(tm.diff(A[j], x[i]) - tm.diff(A[i], x[j]) for j in range(4)) for i in range(4))
        code = tuple(tuple(z) for z in spec_em_tensor_code())
        R.same_all("F", F, dA, out, at=(1,), alt=code,
                   known=lambda p: "F2" if tuple(sorted(p)) in ((1, 3), (2, 3)) else None)
        for i in range(4):
            for j in range(i, 4):
                R.equal("F antisymmetric [%d,%d]" % (i, j), F[i][j] + F[j][i], ZERO, out.facts, out.guard)
        R.same_all("A raised", au, tuple(tm.tsum(gi[i][j] * a[j] for j in range(4)) for i in range(4)), out, at=(2,))
        R.same_all("F raised", Fu, matmul(matmul(gi, F), gi), out, at=(3,))
        R.same_all("inverse metric", gi, spec_inverse(spec_metric("kn")), out, at=(4,))
    R.guard("kn", one)
    R.guard("regular", lambda: metric_regular(R, I, "em_tensor_contravariant", lambda fn: I.call(fn, [arr(I, vec4())], {})))
    R.guard("integers", lambda: metric_ints(R, I, ("em_potential_covariant", "em_tensor_covariant", "em_potential_contravariant", "em_tensor_contravariant")))
