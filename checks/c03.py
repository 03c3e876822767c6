"""C03: Christoffel symbols of the numeric metrics are the Levi-Civita connection of their own metric."""
from .common import *

MIN_OBLIGATIONS = 192


def run(R):
    R.rule("abstract value of <Metric>.christoffels(x) equals 1/2 g^{il}(d_j g_lk + d_k g_lj - d_l g_jk) formed by formal "
           "differentiation of the textbook metric; symmetric in the lower indices; published index list = indices of non-zero symbols")
    I = R.interp()
    for n in MODQ:
        def one(n=n):
            R.group = PYNAME[n]
            R.where = R.loc_of(I, MODQ[n])
            x = vec4()
            g = spec_metric(n)
            want = spec_christoffel(g, spec_inverse(g), x)

            def f():
                m = make_metric(I, n)
                own = meth(I, m, "metric_covariant", arr(I, x)), meth(I, m, "metric_contravariant", arr(I, x))
                return I.call(get(I, m, "christoffels"), [arr(I, x)], {}), own
            out = R.ev(I, f, SPIN_OK(S("a")))
            if not R.no_raise("christoffels", out):
                return
            R.same_all("christoffels", out.value[0], want, out, at=(0,))
            own = spec_christoffel(out.value[1][0], out.value[1][1], x)
            R.same_all("christoffels vs own metric", out.value[0], own, out, at=(0,))
            if n == "kerr":
                nz = {(i, j, k) for i in range(4) for j in range(4) for k in range(4) if not want[i][j][k].is_zero()}

                def h():
                    c = I.global_(MODQ[n])
                    m = make_metric(I, n)
                    return I.call(I.getattr_(c, "nonzero_christoffels"), [], {}), meth(I, m, "nonzero_christoffels")
                o2 = R.ev(I, h, SPIN_OK(S("a")))
                if R.no_raise("nonzero_christoffels", o2):
                    for k, v in enumerate(o2.value):
                        try:
                            idx = [tuple(int(tm.as_t(e).as_const()) for e in t) for t in v]
                        except Exception:
                            R.undecided("nonzero_christoffels", "not a list of index triples: %r" % (v,))
                            continue
                        R.require("nonzero_christoffels[%d] set" % k, set(idx) == nz,
                                  "lists %s; the non-vanishing symbols are %s" % (sorted(set(idx) ^ nz), "those of the metric"))
                        R.require("nonzero_christoffels[%d] unique" % k, len(idx) == len(set(idx)), "an index triple is listed twice")
        R.guard(n, one)
    R.guard("regular", lambda: metric_regular(R, I, "christoffels", lambda fn: I.call(fn, [arr(I, vec4())], {})))
    R.guard("integers", lambda: metric_ints(R, I, ("christoffels",)))
