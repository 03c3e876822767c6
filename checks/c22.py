"""C22: Einstein, Schouten and stress-energy tensors."""
from .symcommon import *

MIN_OBLIGATIONS = 150
CLS = ("EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor")
cc, GG, LL = S("c"), S("G"), S("Lambda")


def spec(cls, c):
    if cls == "EinsteinTensor":
        return c.ein
    if cls == "SchoutenTensor":
        return c.sch
    n = len(c.g)
    k = cc ** 4 / (8 * tm.PI * GG)
    return tuple(tuple(k * (c.ein[i][j] - LL * c.g[i][j]) for j in range(n)) for i in range(n))


def run(R):
    R.rule("Einstein = Ricci - g R/2; Schouten = (Ricci - g R/(2(n-1)))/(n-2), dimension below 3 rejected; "
           "stress-energy = c^4/(8 pi G) (Einstein - Lambda g); all with both indices down, whatever form the metric is given in")
    I = sym_interp(R)

    def constants():
        out = R.ev(I, lambda: tuple(I.binop("*", I.global_("einsteinpy.symbolic.constants." + n), ONE) for n in ("c", "G", "Cosmo_Const")))
        R.group = "constants"
        R.same_all("symbols", out.value, (cc, GG, LL), out)
    R.guard("constants", constants)
    for lbl, x, g in families(True) + (deep() if R.thorough else []):
        for cfg in ("ll",) if "dense" in lbl or "7D" in lbl else ("ll", "uu"):
            def e2e(lbl=lbl, x=x, g=g, cfg=cfg):
                R.group = "%s given as %s" % (lbl, cfg)
                gi = inverse(g)
                c = Curv(x, g, gi) if cfg == "ll" else Curv(x, gi, g)
                for cls in CLS:
                    R.where = R.loc_of(I, SY + cls + ".from_metric")
                    mk = lambda: comp(I, from_(I, cls, "metric", metric(I, x, g, cfg)))
                    if cls == "SchoutenTensor" and len(x) < 3:
                        must_raise(R, I, "SchoutenTensor dimension", mk, ("ValueError",), where=R.where)
                        continue
                    out = R.ev(I, mk)
                    if R.no_raise(cls, out):
                        R.same_all(cls, out.value, spec(cls, c), out)
            R.guard(lbl, e2e)

    def low():
        R.group = "1D"
        g = ((fn("g", S("x")),),)
        must_raise(R, I, "SchoutenTensor dimension", lambda: comp(I, from_(I, "SchoutenTensor", "metric", metric(I, (S("x"),), g))), ("ValueError",),
                   where=R.loc_of(I, SY + "SchoutenTensor.from_metric"))
    R.guard("low", low)
