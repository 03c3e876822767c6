"""C20: symbolic Christoffel symbols."""
from .symcommon import *

MIN_OBLIGATIONS = 200


def run(R):
    R.rule("ChristoffelSymbols.from_metric(g)[i,j,k] = 1/2 g^{il}(d_k g_lj + d_j g_lk - d_l g_jk) for metrics with uninterpreted component functions, "
           "supplied covariantly or contravariantly")
    I = sym_interp(R)
    R.where = R.loc_of(I, SY + "ChristoffelSymbols.from_metric")
    for lbl, x, g in families(True):
        for cfg in ("ll", "uu"):
            def one(lbl=lbl, x=x, g=g, cfg=cfg):
                R.group = "%s, given as %s" % (lbl, cfg)
                gi = inverse(g)
                out = R.ev(I, lambda: comp(I, from_(I, "ChristoffelSymbols", "metric", metric(I, x, g, cfg))))
                if not R.no_raise("from_metric", out):
                    return
                c = Curv(x, g, gi) if cfg == "ll" else Curv(x, gi, g)
                R.same_all("Gamma", out.value, c.gam, out)
            R.guard(lbl, one)
    # fully dense 4D metric
    def dense():
        R.group = "4D dense"
        for k, fx in enumerate(([X4[1]], [X4[0], X4[2]], X4)):
            g = sym_metric(4, None, lambda i, j: fn("g%d%d" % (i, j), *fx))
            out = R.ev(I, lambda: comp(I, from_(I, "ChristoffelSymbols", "metric", metric(I, X4, g))))
            if not R.no_raise("from_metric", out):
                return
            R.same_all("Gamma(%s)" % ",".join(map(str, fx)), out.value, Curv(X4, g).gam, out)
    R.guard("dense", dense)
