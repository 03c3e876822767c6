"""C34: bodies."""
from .common import *
from sa.values import b_not as bnot

MIN_OBLIGATIONS = 150
B = "einsteinpy.bodies."
TABLE = [("Sun", "1.9891e30", "695510", None), ("Earth", "5.97219e24", "6371", "Sun"), ("Moon", "7.34767309e22", "1737.5", "Earth"), ("Mercury", "3.285e23", "2439.7", "Sun"),
         ("Venus", "4.867e24", "6051.8", "Sun"), ("Mars", "6.39e23", "3389.5", "Sun"), ("Jupiter", "1.89813e27", "69911", "Sun"), ("Saturn", "5.683e26", "58232", "Sun"),
         ("Uranus", "8.681e25", "25362", "Sun"), ("Neptune", "1.024e26", "24622", "Sun"), ("Pluto", "1.309e22", "1183.3", "Sun")]


def run(R):
    R.rule("a Body holds the name, mass, charge, radius, coordinates and parent it is given (defaults: Generic Body, 0 kg, 0 C, 0 km, none, none); quantities of the wrong dimension are "
           "rejected; pos_vec / vel_vec are the spatial position and velocity of its coordinates, whatever their system; the predefined bodies form the tree Sun > planets, Earth > Moon")
    I = R.interp()
    cls = I.global_(B + "Body")
    R.where = R.loc_of(I, B + "Body")

    def fields(o):
        return tuple(get(I, o, k) for k in ("name", "mass", "q", "R", "coords", "parent"))

    def simple():
        R.group = "Body"
        out = R.ev(I, lambda: fields(I.call(cls, [], {})))
        if R.no_raise("defaults", out):
            R.same_all("defaults", out.value, ("Generic Body", Q(I, 0, "kg"), Q(I, 0, "C"), Q(I, 0, "km"), None, None), out)
        m, q, r = S("m"), S("q"), S("R")
        for um, uq, ur in (("kg", "C", "km"), ("g", "C", "m"), ("solMass", "C", "AU"), ("earthMass", "mC", "pc"), ("t", "C", "cm"), ("kg", "mC", "lyr")):
            try:
                args = lambda: dict(mass=Q(I, m, um), q=Q(I, q, uq), R=Q(I, r, ur))
                args()
            except Exception:
                continue
            def given():
                p = I.call(cls, [], dict(name="p"))
                o = I.call(cls, [], dict(name="n", parent=p, **args()))
                f = fields(o)
                return f[:5] + (I.truth(I.compare("is", f[5], p)),)
            out = R.ev(I, given)
            lbl = "given in %s, %s, %s" % (um, uq, ur)
            if R.no_raise(lbl, out):
                R.same_all(lbl, out.value, ("n", Q(I, m, um), Q(I, q, uq), Q(I, r, ur), None, True), out)
        out = R.ev(I, lambda: fields(I.call(cls, ["n", Q(I, m, "kg"), Q(I, q, "C"), Q(I, r, "km"), None, None], {})))
        if R.no_raise("positional", out):
            R.same_all("positional", out.value, ("n", Q(I, m, "kg"), Q(I, q, "C"), Q(I, r, "km"), None, None), out)
        for k, bads in (("mass", ("m", "s", "C", "")), ("q", ("kg", "m", "")), ("R", ("kg", "s", "C", ""))):
            for un in bads:
                must_raise(R, I, "%s in %r" % (k, un), lambda: I.call(cls, [], {k: Q(I, m, un)}), ("UnitsError", "UnitTypeError", "UnitConversionError"))
            must_raise(R, I, "%s plain number" % k, lambda: I.call(cls, [], {k: m}), ("TypeError",))
        out = R.ev(I, lambda: tuple(I.truth(I.call(ExtV("builtins.hasattr"), [I.call(cls, [], {}), k], {})) for k in ("pos_vec", "vel_vec")))
        if R.no_raise("no coordinates", out):
            R.same_all("no coordinates, no position", out.value, (False, False), out)
    R.guard("Body", simple)

    def coords():
        for s in SYS:
            R.group = "Body with %sDifferential" % s

            def f():
                d = BUILD[s](I)
                o = I.call(cls, [], dict(coords=d))
                return (tuple(I.iterate(get(I, o, "pos_vec"))), tuple(I.iterate(get(I, o, "vel_vec"))), I.truth(I.compare("is", get(I, o, "coords"), d)))
            out = R.ev(I, f)
            if R.no_raise("constructor", out):
                R.same_all("pos_vec", out.value[0], tuple(Q(I, v, u) for v, u in zip(psyms(s), PU[s])), out, at=(0,))
                R.same_all("vel_vec", out.value[1], tuple(Q(I, v, u) for v, u in zip(vsyms(s), VU[s])), out, at=(1,))
                R.equal("coords", out.value[2], True, out.facts, out.guard)
    R.guard("coords", coords)

    def combined():
        """every field at once, for a parent with and without coordinates of its own"""
        for s in SYS:
            for ps in (None,) + tuple(SYS):
                R.group = "Body with %sDifferential and a parent with %s" % (s, ps and ps + "Differential")

                def f():
                    d = BUILD[s](I)
                    p = I.call(cls, [], dict(name="p", mass=Q(I, S("mp"), "kg"), R=Q(I, S("Rp"), "km"), **({} if ps is None else dict(coords=BUILD[ps](I)))))
                    o = I.call(cls, [], dict(name="n", mass=Q(I, S("m"), "kg"), q=Q(I, S("q"), "C"), R=Q(I, S("R"), "km"), coords=d, parent=p))
                    f_ = fields(o)
                    is_ = lambda a, b: I.truth(I.compare("is", a, b))
                    return (tuple(I.iterate(get(I, o, "pos_vec"))), tuple(I.iterate(get(I, o, "vel_vec"))), is_(f_[4], d), is_(f_[5], p)) + f_[:4] + (
                        get(I, p, "name"), get(I, p, "mass"), get(I, p, "R"), ps is not None or get(I, p, "coords") is None)
                out = R.ev(I, f)
                if not R.no_raise("constructor", out):
                    continue
                want = (tuple(Q(I, v, u) for v, u in zip(psyms(s), PU[s])), tuple(Q(I, v, u) for v, u in zip(vsyms(s), VU[s])), True, True,
                        "n", Q(I, S("m"), "kg"), Q(I, S("q"), "C"), Q(I, S("R"), "km"), "p", Q(I, S("mp"), "kg"), Q(I, S("Rp"), "km"), True)
                for k, lbl in enumerate(("pos_vec", "vel_vec", "coords", "parent", "name", "mass", "charge", "radius", "parent's name", "parent's mass", "parent's radius",
                                         "parent's coordinates")):
                    R.same_all(lbl, out.value[k], want[k], out, at=(k,))
    R.guard("combined", combined)

    def table():
        for n, m, r, p in TABLE:
            R.group = n
            R.where = R.loc_of(I, "einsteinpy.bodies")
            out = R.ev(I, lambda: (lambda o: fields(o)[:5] + (None if get(I, o, "parent") is None else get(I, get(I, o, "parent"), "name"),
                                   p is None or I.truth(I.compare("is", get(I, o, "parent"), I.global_(B + p)))))(I.global_(B + n)))
            if R.no_raise("predefined", out):
                fr = lambda x: tm.as_t(tm.Fraction(x))
                alt = (None,) * 3 + (Q(I, fr("6731"), "km"),) + (None,) * 3 if n == "Earth" else None   # F4
                R.same_all("predefined", out.value, (n, Q(I, fr(m), "kg"), Q(I, 0, "C"), Q(I, fr(r), "km"), None, p, True), out, known=(lambda path: "F4" if path == (3,) else None) if alt else None, alt=alt)
    R.guard("table", table)

    def text():
        R.group = "str"
        for coords_, parent in ((False, False), (True, True)):
            def f():
                kw = {}
                if coords_:
                    kw["coords"] = cart(I)
                if parent:
                    kw["parent"] = I.global_(B + "Sun")
                o = I.call(cls, [], kw)
                I.call(ExtV("builtins.str"), [o], {})
                I.call(ExtV("builtins.repr"), [o], {})
                return True
            out = R.ev(I, f)
            R.no_raise("str and repr never fail (coords %s, parent %s)" % (coords_, parent), out)
    R.guard("str", text)
