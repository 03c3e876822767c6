"""C40: text representations and error texts report the object's own data."""
from .symcommon import *
from sa.values import Opaque, WrapV
from sa.models import to_str, STRINGS
from . import c19
from .c17 import GI, vec

MIN_OBLIGATIONS = 150


def frags(v):
    """a text as a list of literal strings and keys of embedded values, adjacent literals joined"""
    out = []

    def add(x):
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)

    def rec(x):
        if isinstance(x, Opaque):
            x = x.key
        if isinstance(x, str):
            add(x)
        elif x[0] == "fstring":
            for y in x[1:]:
                rec(y)
        elif x[0] == "strcat" and x[1] == "+":
            rec(x[2])
            rec(x[3])
        elif x[0] == "join":
            for i, y in enumerate(x[2:]):
                if i:
                    add(x[1])
                rec(y)
        else:
            add(x)
    rec(v)
    return out


def run(R):
    R.rule("str() and repr() of coordinates, metrics, bodies, geodesics, integrators, dual numbers and tensors never fail and show every field of the object, each after its own label; errors "
           "carry the joined message and print as 'Class : message'")
    I = R.interp()
    J = sym_interp(R)

    def shows(I, where, mk, fields, pre=(), ordered=True, tight=True):
        """fields: [(label, function of the object giving the value)] ; every field is shown, right after its label"""
        R.where = where
        for b in ("str", "repr"):
            R.group = "%s: %s" % (where_name[0], b)

            def f():
                o = mk()
                t = I.force(I.call(ExtV("builtins." + b), [o], {}))
                return t, [to_str(I, I.force(g(o))) for _, g in fields]
            out = R.ev(I, lambda: box(f()), pre)
            if not R.no_raise("never fails", out):
                continue
            t, vals = out.value.v
            if isinstance(t, Opaque) and t.key[0] not in STRINGS:
                R.undecided("gives text", "result %r" % (t,))
                continue
            R.require("gives text", isinstance(t, (str, Opaque)) and (isinstance(t, str) or t.key[0] in STRINGS), "result %r" % (t,))
            fr = frags(t)
            flatvals = [frags(x) for x in vals]
            pos = 0
            text, marks = "", []
            for x in fr:                                   # linearise: values become unique marks
                if isinstance(x, str):
                    text += x
                else:
                    marks.append(x)
                    text += "\x00%d\x01" % (len(marks) - 1)

            def lin(x):
                s = ""
                for y in x:
                    if isinstance(y, str):
                        s += y
                    else:
                        s += "\x00%s\x01" % ",".join(str(i) for i, m in enumerate(marks) if m == y)
                return s
            for (label, _), v in zip(fields, flatvals):
                ok, p = False, pos
                if len(v) == 1 and isinstance(v[0], str):
                    cands = [v[0]]
                elif len(v) == 1:
                    cands = ["\x00%d\x01" % i for i, m in enumerate(marks) if m == v[0]]
                else:                                      # composite: compare fragment by fragment
                    cands = []
                    n = len(v)
                    first = next((y for y in v if not isinstance(y, str)), None)
                    cand = ""
                    # marks of a composite appear in order: find a run of marks equal to its values
                    ks = [y for y in v if not isinstance(y, str)]
                    for i in range(len(marks) - len(ks) + 1):
                        if marks[i:i + len(ks)] == ks:
                            c, j = "", i
                            for y in v:
                                if isinstance(y, str):
                                    c += y
                                else:
                                    c += "\x00%d\x01" % j
                                    j += 1
                            cands.append(c)
                for c in cands:
                    k = text.find(c, 0)
                    while k >= 0 and not ok:
                        before = text[:k].rstrip(" (=:{[\n\t'\"")
                        if not label or before.lower().endswith(label.lower()):
                            ok = True
                        k = text.find(c, k + 1)
                R.require("shows %s" % (label or "value"), ok, "text %r has no field %r with the value %r" % (text, label, v))
    where_name = [""]

    class box:
        def __init__(self, v):
            self.v = v

    def a(n):
        return lambda o: get(I, o, n)

    # ---------------------------------------------------------------- coordinates
    C = "einsteinpy.coordinates."
    for s in SYS:
        names = ("t",) + CN[s]
        where_name[0] = s
        loc = R.loc_of(I, C + s + ".__str__")
        lab = dict(th="theta", ph="phi", p="phi")
        R.guard(s, lambda: shows(I, loc, lambda: pos_obj(I, s), [(n, a(n)) for n in names]))
        mk = {"Cartesian": cart, "Spherical": sph, "BoyerLindquist": bl}[s]
        where_name[0] = s + "Differential"
        loc = R.loc_of(I, C + s + "Differential.__str__")
        vn = [n for n in VN[s]]
        R.guard(s, lambda: shows(I, loc, lambda: mk(I), [(n, a(n)) for n in names] + [(n, a(n)) for n in ["v_t"] + list(vn)]))
    # ---------------------------------------------------------------- metrics
    for m in ("schw", "kerr", "kn"):
        where_name[0] = PYNAME[m]
        R.guard(m, lambda: shows(I, R.loc_of(I, MODQ[m] + ".__str__"), lambda: make_metric(I, m),
                [("Name", a("name")), ("Coordinates", a("coords")), ("Mass", a("M")), ("Spin parameter", a("a")), ("Charge", a("Q")), ("Schwarzschild Radius", a("sch_rad"))]))
    # ---------------------------------------------------------------- bodies
    B = "einsteinpy.bodies.Body"
    for withp in (False, True):
        for cs in (None, "Cartesian", "BoyerLindquist"):
            where_name[0] = "Body" + (", parent" if withp else "") + (", " + cs if cs else "")

            def body():
                kw = dict(name="Nm", mass=Q(I, S("m", True), "kg"), q=Q(I, S("q"), "C"), R=Q(I, S("Rb", True), "km"))
                if withp:
                    kw["parent"] = I.call(I.global_(B), [], dict(name="Par"))
                if cs:
                    kw["coords"] = cart(I) if cs == "Cartesian" else bl(I)
                return I.call(I.global_(B), [], kw)
            fs = [("", a("name")), ("", a("mass")), ("", a("q")), ("", a("R"))]
            if withp:
                fs.append(("", lambda o: get(I, get(I, o, "parent"), "name")))
            if cs:
                fs.append(("", a("coords")))
            R.guard("body", lambda: shows(I, R.loc_of(I, B + ".__str__"), body, fs))
    # ---------------------------------------------------------------- dual numbers, errors
    where_name[0] = "DualNumber"
    D = "einsteinpy.utils.dual.DualNumber"
    R.guard("dual", lambda: shows(I, R.loc_of(I, D + ".__str__"), lambda: I.call(I.global_(D), [S("v"), S("d")], {}), [("DualNumber", a("val")), (",", a("deriv"))]))
    X = "einsteinpy.utils.exceptions."
    x = S("x")
    for cn in ("BaseError", "CoordinateError"):
        R.where = R.loc_of(I, X + cn + ".__init__")
        for nm, args, want in (("no text", (), ""), ("one", ("only",), "only"), ("several", ("a", 1, "b c"), "a 1 b c"), ("a value", ("bad", x), None)):
            R.group = "%s(%s)" % (cn, nm)

            def err():
                o = I.call(I.global_(X + cn), list(args), {"extra": 1})
                return box((I.force(get(I, o, "message")), I.force(I.call(ExtV("builtins.str"), [o], {})), I.force(I.call(ExtV("builtins.repr"), [o], {})), to_str(I, x)))
            def one():
                out = R.ev(I, err)
                if not R.no_raise("constructor", out):
                    return
                m, s1, s2, xs = out.value.v
                w = [want] if want is not None else ["bad ", xs.key]
                w2 = [cn + " : " + w[0]] + w[1:]
                norm = lambda t: [f for f in frags(t) if f != ""]
                R.require("message", norm(m) == [f for f in w if f != ""], "message %r" % (m,))
                R.require("str", norm(s1) == w2, "str %r" % (s1,))
                R.require("repr", norm(s2) == w2, "repr %r" % (s2,))
            R.guard(nm, one)

            def raising():
                raise_ = I.call(I.global_(X + cn), ["a"], {})
                return raise_
            for base in ("builtins.Exception", X + "BaseError"):
                cl = ExtV(base) if base.startswith("builtins") else I.global_(base)
                out = R.ev(I, lambda: I.call(ExtV("builtins.isinstance"), [raising(), cl], {}))
                R.require("is a %s" % base.split(".")[-1], out.value is True, "isinstance gives %r" % (out.value,))
    # ---------------------------------------------------------------- geodesic and integrator
    P = I.global_("einsteinpy.geodesic")  # noqa: F841
    for cls in ("Geodesic", "Timelike", "Nulllike"):
        where_name[0] = cls

        def geod():
            st = I.st
            o = I.call(I.global_("einsteinpy.geodesic." + cls), [], dict(metric="Kerr", metric_params=(S("as"),), position=list_(I, c19.X3), momentum=list_(I, c19.P3), steps=2))
            return o

        def go():
            st = I.st
            I.st = I.st.copy()
            try:
                c19.stub_step(I, [])
                shows(I, R.loc_of(I, "einsteinpy.geodesic." + cls + ".__repr__"), geod,
                      [("Type", a("kind")), ("Metric", a("metric_name")), ("Metric Parameters", a("metric_params")), ("Initial 4-Position", a("position")), ("Initial 4-Momentum", a("momentum")),
                       ("Trajectory", a("trajectory")), ("Coordinate System", a("coords"))], [gtz(S("as")), gtz(1 - S("as"))])
            finally:
                I.st = st
        R.guard(cls, go)
    where_name[0] = "GeodesicIntegrator"
    gm = PyFn(lambda K, b, k: K.new_arr((4, 4), [ONE if i == j else ZERO for i in range(4) for j in range(4)]), "gm")
    R.guard("integrator", lambda: shows(I, R.loc_of(I, GI + ".__str__"), lambda: I.call(I.global_(GI), [], dict(metric=gm, metric_params=(S("k"),), q0=list_(I, vec("q")), p0=list_(I, vec("p")), time_like=True, steps=7, delta=S("dl"), rtol=S("rt"), atol=S("at"), order=4, omega=S("om"), suppress_warnings=True)),
            [(n, a(n)) for n in ("metric_params", "q0", "p0", "time_like", "steps", "delta", "omega", "order", "rtol", "atol", "suppress_warnings")]))
    # ---------------------------------------------------------------- tensors
    al = lambda n: (lambda o: get(J, o, n))
    T = "einsteinpy.symbolic.tensor.Tensor"
    comps = lambda: [S("a"), S("b"), S("c"), S("e")]
    for nm in (None, "Nm"):
        where_name[0] = "Tensor, name %s" % nm

        def go2():
            R.where = R.loc_of(J, T + ".__str__")
            R.group = where_name[0]
            mk = lambda: J.call(J.global_(T), [arr(J, comps(), (2, 2))], dict(config="ul", name=nm) if nm else dict(config="ul"))
            for b in ("str", "repr"):
                def f():
                    o = mk()
                    return box((J.force(J.call(ExtV("builtins." + b), [o], {})), to_str(J, J.force(get(J, o, "arr")))))
                out = R.ev(J, f)
                if R.no_raise(b, out):
                    t, v = out.value.v
                    fr = frags(t)
                    R.require(b + " shows the components", fr[-1:] == [v.key], "text %r" % (fr,))
                    R.require(b + " says what it is", isinstance(fr[0], str) and fr[0].startswith("Tensor") and (nm is None or b == "repr" or nm in fr[0]) and "None" not in fr[0], "text %r" % (fr,))
        R.guard("tensor", go2)


def list_(I, xs):
    return I.new_list(list(xs))
