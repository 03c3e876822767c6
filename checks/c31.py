"""C31: scale factor of the flat Robertson-Walker universe."""
from .common import *

MIN_OBLIGATIONS = 60
F = "einsteinpy.utils.scalar_factor."


def spec(I, era, T_, k, H):
    if era == "md":
        return k * T_ ** tm.as_t(tm.Fraction(2, 3)), k * tm.as_t(tm.Fraction(2, 3)) * T_ ** tm.as_t(tm.Fraction(-1, 3))
    if era == "rd":
        return k * tm.sqrt(T_), k / tm.sqrt(T_) / 2
    return k * tm.exp(H * T_), k * H * tm.exp(H * T_)


def run(R):
    R.rule("scalar_factor(t, era, k) = k T^(2/3) (md, the default), k T^(1/2) (rd), k exp(sqrt(Lambda/3) T) (ded), T = t in seconds; scalar_factor_derivative is its derivative "
           "with respect to T; any other era raises ValueError; a time without time dimension is rejected")
    I = R.interp()
    lam = I.getattr_(I.global_("einsteinpy.constant.Cosmo_Const"), "value")
    k, t = S("k"), S("t", True)
    H = tm.sqrt(tm.as_t(lam) / 3)
    for fn, ix in (("scalar_factor", 0), ("scalar_factor_derivative", 1)):
        f = I.global_(F + fn)
        R.group = fn
        R.where = R.loc_of(I, F + fn)
        for un, sc in (("s", 1), ("min", 60), ("h", 3600), ("d", 86400), ("ms", tm.Fraction(1, 1000)), ("us", tm.Fraction(1, 10 ** 6)), ("ns", tm.Fraction(1, 10 ** 9)), ("wk", 604800), ("yr", 31557600), ("Myr", 31557600 * 10 ** 6), ("Gyr", 31557600 * 10 ** 9)):
            T_ = t * sc
            calls = [("default", [], {}, "md", ONE), ("default era, k", [], dict(tuning_param=k), "md", k), ("md positional", ["md", k], {}, "md", k)]
            for era in ("md", "rd", "ded"):
                calls += [(era, [], dict(era=era), era, ONE), (era + ", k", [era], dict(tuning_param=k), era, k)]
            for nm, a, kw, era, kk in calls:
                out = R.ev(I, lambda: I.call(f, [Q(I, t, un)] + a, dict(kw)))
                if R.no_raise("%s [%s]" % (nm, un), out):
                    R.same_all("%s [%s]" % (nm, un), out.value, spec(I, era, T_, kk, H)[ix], out)
        for era in ("MD", "", "dd", None, "md ", 1):
            must_raise(R, I, "era=%r" % (era,), lambda: I.call(f, [Q(I, t, "s"), era], {}), ("ValueError",))
        for un in ("m", "kg", ""):
            must_raise(R, I, "unit %r" % un, lambda: I.call(f, [Q(I, t, un)], {}), ("UnitsError", "UnitTypeError", "UnitConversionError"))
    R.group = "consistency"
    for era in ("md", "rd", "ded"):
        out = R.ev(I, lambda: tuple(I.call(I.global_(F + fn), [Q(I, t, "s"), era, k], {}) for fn in ("scalar_factor", "scalar_factor_derivative")))
        if R.no_raise(era, out):
            R.same_all("%s d/dt" % era, out.value[1], tm.diff(tm.as_t(out.value[0]), t), out)
