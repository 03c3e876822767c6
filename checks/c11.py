"""C11: coordinate objects report what they were built from."""
from .common import *
from .c09 import kw_ma

MIN_OBLIGATIONS = 60


def run(R):
    R.rule("values() returns the SI components in declared order (4 for positions, 7 exactly when all velocities are given), position() is "
           "(c t, q1, q2, q3), indexing by name or number returns the stored quantity, attributes are the constructor arguments")
    I = R.interp()
    for s in SYS:
        p, v = psyms(s), vsyms(s)

        def one(s=s):
            R.group = s
            R.where = R.loc_of(I, "einsteinpy.coordinates." + s)
            qs = (Q(I, S("t0"), "s"),) + tuple(Q(I, a, b) for a, b in zip(p, PU[s]))
            vq = tuple(Q(I, a, b) for a, b in zip(v, VU[s]))
            si = (S("t0"),) + p
            out = R.ev(I, lambda: meth(I, pos_obj(I, s), "values"))
            if R.no_raise("values()", out):
                R.same_all("values()", out.value, si, out)
            for diff in (False, True):
                lbl = "Differential " if diff else ""
                mk = (lambda: BUILD[s](I)) if diff else (lambda: pos_obj(I, s))
                out = R.ev(I, lambda: meth(I, mk(), "position"))
                if R.no_raise(lbl + "position()", out):
                    R.same_all(lbl + "position()", out.value, (C * S("t0"),) + p, out)
                names = ("t",) + CN[s] + (VN[s] if diff else ())
                out = R.ev(I, lambda: tuple(get(I, mk(), n) for n in names))
                if R.no_raise(lbl + "attributes", out):
                    R.same_all(lbl + "attributes", out.value, qs + (vq if diff else ()), out)
                out = R.ev(I, lambda: get(I, mk(), "system"))
                R.equal(lbl + "system", out.value, s)
            out = R.ev(I, lambda: meth(I, BUILD[s](I), "values"))
            if R.no_raise("Differential values()", out):
                R.same_all("Differential values()", out.value, si + v, out)
            for i, n in enumerate(("t",) + CN[s]):
                for key in (n, i, i - 4):
                    out = R.ev(I, lambda: I.getitem(pos_obj(I, s), key))
                    if R.no_raise("[%r]" % (key,), out):
                        R.same_all("[%r]" % (key,), out.value, qs[i], out)
            out = R.ev(I, lambda: I.getitem(pos_obj(I, s), "system"))
            if R.no_raise("['system']", out):
                R.equal("['system']", out.value, s)
            must_raise(R, I, "[4]", lambda: I.getitem(pos_obj(I, s), 4), ("IndexError",))
            must_raise(R, I, "['w']", lambda: I.getitem(pos_obj(I, s), "w"), ("KeyError",))
        R.guard(s, one)

        def conv(s=s):
            R.group = s + "Conversion"
            cn = "einsteinpy.coordinates.conversion.%sConversion" % s
            R.where = R.loc_of(I, cn)
            args = [S("t0")] + list(p)
            for k in range(8):
                vv = [v[i] if k >> i & 1 else None for i in range(3)]
                full = k == 7
                out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), args + vv, {}), "values"))
                if R.no_raise("values() velocities %s" % (format(k, "03b"),), out):
                    R.same_all("values() velocities %s" % (format(k, "03b"),), out.value, tuple(args) + (v if full else ()), out)
                d = "Cartesian" if s != "Cartesian" else "Spherical"
                out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), args + vv, {}), "convert_" + SHORT[d], **kw_ma(I)), SPIN_OK(S("a")))
                if R.no_raise("convert velocities %s" % (format(k, "03b"),), out):
                    R.require("convert velocities %s length" % (format(k, "03b"),), isinstance(out.value, tuple) and len(out.value) == (7 if full else 4),
                              "conversion with partial velocities returns %s" % (len(out.value) if isinstance(out.value, tuple) else out.value))
        R.guard(s + "conv", conv)
