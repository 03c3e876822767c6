"""C10: velocity conversions are the pushforward of the position map."""
from .common import *
from .c09 import kw_ma, LOCI

MIN_OBLIGATIONS = 90


def push(pos, p, v):
    return tuple(tm.tsum(tm.diff(w, x) * y for x, y in zip(p, v)) for w in pos)


def run(R):
    R.rule("the velocity part of every 7-component conversion is the Jacobian of the textbook position map applied to the input velocity; the "
           "composition X->Y->X returns the input velocity; no denominator vanishes on a coordinate plane where the map is regular")
    R.ranges = RANGES
    I = R.interp()
    al = params()[1]
    pre = SPIN_OK(S("a"))
    for s in SYS:
        for d in SYS:
            if d == s:
                continue
            kw = kw_ma(I)
            p, v = psyms(s), vsyms(s)
            pos = conv_spec(s, d, p, al)
            want = (S("t0"),) + pos + push(pos, p, v)

            def one(s=s, d=d):
                R.group = "%s->%s" % (s, d)
                R.where = R.loc_of(I, "einsteinpy.coordinates.%sDifferential.%s_differential" % (s, SHORT[d]))

                def obj():
                    o = meth(I, BUILD[s](I), SHORT[d] + "_differential", **kw)
                    return (outcls(I, o),) + tuple(get(I, o, n) for n in ("t",) + CN[d] + VN[d]) + (get(I, o, "system"),)
                out = R.ev(I, obj, pre)
                if not R.no_raise("differential", out):
                    return
                r = out.value
                R.require("result class", r[0] == d + "Differential", "%s_differential returns a %s" % (SHORT[d], r[0]))
                R.require("system", r[8] == d, "system is %r" % (r[8],))
                R.same_all("differential", tuple(r[1:8]), tuple(QuantV(w, unit(I, un)) for w, un in zip(want, ("s",) + PU[d] + VU[d])), out)
                R.where = R.loc_of(I, "einsteinpy.coordinates.conversion.%sConversion.convert_%s" % (s, SHORT[d]))
                f = lambda: meth(I, BUILD[s](I), "convert_" + SHORT[d], **kw)
                out = R.ev(I, f, pre)
                if R.no_raise("convert_", out):
                    R.same_all("convert_", out.value, want, out)
                regular(R, "convert_", I, f, LOCI[s], pre, R.where)

                def rt():
                    o = meth(I, BUILD[s](I), SHORT[d] + "_differential", **kw)
                    o = meth(I, o, SHORT[s] + "_differential", **kw)
                    return tuple(get(I, o, n) for n in VN[s])
                out = R.ev(I, rt, pre)
                if R.no_raise("roundtrip", out):
                    R.same_all("roundtrip", out.value, tuple(QuantV(w, unit(I, un)) for w, un in zip(v, VU[s])), out)
            R.guard(s + d, one)

            if "Cartesian" in (s, d):
                def util(s=s, d=d):
                    R.group = "utils %s->%s" % (s, d)
                    fn = "einsteinpy.coordinates.utils.%s_to_%s_fast" % (SHORT[s], SHORT[d])
                    R.where = R.loc_of(I, fn)
                    A = S("al")
                    args = [S("t0")] + list(p) + ([A] if "BoyerLindquist" in (s, d) else [])
                    q = conv_spec(s, d, p, A)
                    w = (S("t0"),) + q + push(q, p, v)
                    out = R.ev(I, lambda: I.call(I.global_(fn), list(args) + list(v) + [True], {}))
                    if R.no_raise("", out):
                        R.same_all("", out.value, w, out)
                R.guard("utils" + s + d, util)
