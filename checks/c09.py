"""C09: position conversions between the coordinate systems."""
from .common import *

MIN_OBLIGATIONS = 90


def kw_ma(I):
    return dict(M=Q(I, S("M", True), "kg"), a=Q(I, S("a"), ""))


def run(R):
    R.rule("the abstract value of every X.to_Y()/convert_Y() position equals the textbook map (with alpha = G M a / c^2), the composition X->Y->X "
           "is the identity on the chart domain, and no denominator vanishes on a coordinate plane where the map is regular")
    R.ranges = RANGES
    I = R.interp()
    al = params()[1]
    pre = SPIN_OK(S("a"))
    for s in SYS:
        for d in SYS:
            if d == s:
                continue
            kw = kw_ma(I)
            p = psyms(s)
            want = (S("t0"),) + conv_spec(s, d, p, al)

            def one(s=s, d=d):
                R.group = "%s->%s" % (s, d)
                R.where = R.loc_of(I, "einsteinpy.coordinates.%s.to_%s" % (s, SHORT[d]))

                def obj():
                    o = meth(I, pos_obj(I, s), "to_" + SHORT[d], **kw)
                    cls = outcls(I, o)
                    return (cls,) + tuple(get(I, o, n) for n in ("t",) + CN[d]) + (get(I, o, "system"),)
                out = R.ev(I, obj, pre)
                if not R.no_raise("to_", out):
                    return
                v = out.value
                R.require("result class", v[0] == d, "to_%s returns a %s" % (SHORT[d], v[0]))
                R.require("system", v[5] == d, "system is %r" % (v[5],))
                R.same_all("to_", tuple(v[1:5]), tuple(QuantV(w, unit(I, un)) for w, un in zip(want, ("s",) + PU[d])), out)

                R.where = R.loc_of(I, "einsteinpy.coordinates.conversion.%sConversion.convert_%s" % (s, SHORT[d]))
                out = R.ev(I, lambda: meth(I, pos_obj(I, s), "convert_" + SHORT[d], **kw), pre)
                if R.no_raise("convert_", out):
                    R.same_all("convert_", out.value, want, out)

                def rt():
                    o = meth(I, pos_obj(I, s), "to_" + SHORT[d], **kw)
                    o = meth(I, o, "to_" + SHORT[s], **kw)
                    return tuple(get(I, o, n) for n in ("t",) + CN[s])
                out = R.ev(I, rt, pre)
                if R.no_raise("roundtrip", out):
                    R.same_all("roundtrip", out.value, tuple(QuantV(w, unit(I, un)) for w, un in zip((S("t0"),) + p, ("s",) + PU[s])), out)
                loci = LOCI[s]
                regular(R, "convert_", I, lambda: meth(I, pos_obj(I, s), "convert_" + SHORT[d], **kw), loci, pre, R.where)
            R.guard(s + d, one)

            if "Cartesian" in (s, d):
                def util(s=s, d=d):
                    R.group = "utils %s->%s" % (s, d)
                    fn = "einsteinpy.coordinates.utils.%s_to_%s_fast" % (SHORT[s], SHORT[d])
                    R.where = R.loc_of(I, fn)
                    A = S("al")
                    args = [S("t0")] + list(p) + ([A] if "BoyerLindquist" in (s, d) else [])
                    w = (S("t0"),) + conv_spec(s, d, p, A)
                    out = R.ev(I, lambda: I.call(I.global_(fn), list(args), {}))
                    if R.no_raise("position form", out):
                        R.same_all("position form", out.value, w, out)
                    out = R.ev(I, lambda: I.call(I.global_(fn), list(args) + list(vsyms(s)) + [True], {}))
                    if R.no_raise("velocity form", out):
                        R.require("velocity form length", isinstance(out.value, tuple) and len(out.value) == 7, "does not return 7 components")
                        R.same_all("velocity form position", out.value[:4], w, out)
                R.guard("utils" + s + d, util)


LOCI = {"Cartesian": [("x = 0", {S("x0"): ZERO}), ("y = 0", {S("y0"): ZERO}), ("z = 0", {S("z0"): ZERO}), ("a = 0", {S("a"): ZERO})],
        "Spherical": [("theta = pi/2", {S("th0"): tm.PI / 2}), ("phi = 0", {S("ph0"): ZERO}), ("phi = pi/2", {S("ph0"): tm.PI / 2}),
                      ("a = 0", {S("a"): ZERO})]}
LOCI["BoyerLindquist"] = LOCI["Spherical"]
