"""C23: Weyl tensor."""
from .symcommon import *

MIN_OBLIGATIONS = 600


def run(R):
    R.rule("Weyl_iklm = R_iklm + (R_im g_kl - R_il g_km + R_kl g_im - R_km g_il)/(n-2) + R (g_il g_km - g_im g_kl)/((n-1)(n-2)), index position llll; "
           "zero for n = 3 and for conformally flat metrics; trace-free; n < 3 rejected")
    I = sym_interp(R)
    W = SY + "WeylTensor"
    R.where = R.loc_of(I, W + ".from_metric")
    mk = lambda x, g, cfg="ll": (lambda o: (comp(I, o), get(I, o, "config")))(from_(I, "WeylTensor", "metric", metric(I, x, g, cfg)))
    om = fn("w", *X4)
    fams = [f for f in families()] + [("4D conformally flat", X4, diag_metric(-om, om, om, om))]
    v = X4 + (S("w"),)
    fams.append(("5D diagonal", v, diag_metric(-fn("A", v[4]), fn("B", v[0]), fn("C", v[1]), ONE, ONE)))
    for lbl, x, g in fams:
        for cfg in ("ll", "uu"):
            if lbl.startswith("5D") and cfg == "uu":
                continue

            def one(lbl=lbl, x=x, g=g, cfg=cfg):
                R.group = "%s given as %s" % (lbl, cfg)
                n = len(x)
                if n < 3:
                    must_raise(R, I, "dimension", lambda: mk(x, g, cfg), ("ValueError",), where=R.where)
                    return
                out = R.ev(I, lambda: mk(x, g, cfg))
                if not R.no_raise("from_metric", out):
                    return
                R.equal("config", out.value[1], "llll", out.facts, out.guard)
                if n == 3 or lbl == "4D conformally flat":
                    want = tuple(tuple(tuple((ZERO,) * n for _ in range(n)) for _ in range(n)) for _ in range(n))
                else:
                    gi = inverse(g)
                    c = Curv(x, g, gi) if cfg == "ll" else Curv(x, gi, g)
                    want = c.wey
                R.same_all("Weyl", out.value[0], want, out, at=(0,))
                if lbl == "4D static spherical" and cfg == "ll":
                    w = out.value[0]
                    for k in range(4):
                        for m in range(4):
                            R.equal("trace[%d,%d]" % (k, m), tm.tsum(gi[i][i] * w[i][k][i][m] for i in range(4)), ZERO, out.facts, out.guard)
            R.guard(lbl, one)
