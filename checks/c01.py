"""C01: numeric metrics return the textbook covariant tensor."""
from .common import *

MIN_OBLIGATIONS = 60


def run(R):
    R.rule("abstract value of <Metric>.metric_covariant(x) for symbolic x, M, a, Q equals the textbook metric, entry by entry, on every path")
    I = R.interp()
    for n in MODQ:
        for form in ("ndarray", "list", "tuple", "integers"):
            def one(n=n, form=form):
                R.group = PYNAME[n]
                R.where = R.loc_of(I, MODQ[n] + ".metric_covariant")

                def f():
                    m = make_metric(I, n)
                    x = {"ndarray": lambda: arr(I, vec4()), "list": lambda: I.new_list(vec4()), "tuple": lambda: tuple(vec4()), "integers": lambda: arr(I, (0, 7, 1, 2))}[form]()
                    return meth(I, m, "metric_covariant", x), I.call(get(I, m, "metric_cov"), [x], {})
                w = spec_metric(n, [tm.as_t(v) for v in (0, 7, 1, 2)]) if form == "integers" else spec_metric(n)
                out = R.ev(I, f, SPIN_OK(S("a")))
                if R.no_raise("metric_covariant(%s)" % form, out):
                    R.same_all("metric_covariant(%s)" % form, out.value[0], w, out, at=(0,))
                    R.same_all("metric_cov(%s)" % form, out.value[1], w, out, at=(1,))
            R.guard(n, one)
    R.guard("regular", lambda: metric_regular(R, I, "metric_covariant", lambda fn: I.call(fn, [arr(I, vec4())], {})))
