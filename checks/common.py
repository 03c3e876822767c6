"""Shared specification vocabulary."""
from sa import terms as tm
from sa.terms import T
from sa.values import (QuantV, Unit, Ite, AnalysisError, Opaque, PyFn, eqz, gtz, ite, b_and, b_or, b_not, Ref, ExcV, ExtV,
                       Inst)

C = tm.sym("c", True)
G = tm.sym("G", True)
EPS0 = tm.sym("eps0", True)
KC = tm.ONE / (tm.PI * 4 * EPS0)
ONE, ZERO = tm.ONE, tm.ZERO


def S(n, pos=False):
    return tm.sym(n, pos)


def unit(I, name):
    return I.models.as_unit(I, name)


def Q(I, v, un):
    return QuantV(tm.as_t(v), unit(I, un) if isinstance(un, str) else un)


def sq(x):
    return x * x


def vec4():
    return [S("t"), S("r", True), S("th"), S("ph")]


def arr(I, els, shape=None):
    if els and all(type(x) is int for x in els):        # a numpy array of integers
        return I.new_arr(shape or (len(els),), list(els), "np", "int")
    return I.new_arr(shape or (len(els),), [tm.as_t(x) for x in els])


def bl(I, **over):
    kw = dict(t=Q(I, S("t0"), "s"), r=Q(I, S("r0", True), "m"), theta=Q(I, S("th0"), "rad"), phi=Q(I, S("ph0"), "rad"),
              v_r=Q(I, S("vr"), "m / s"), v_th=Q(I, S("vth"), "rad / s"), v_p=Q(I, S("vp"), "rad / s"))
    kw.update(over)
    return I.call(I.global_("einsteinpy.coordinates.BoyerLindquistDifferential"), [], kw)


def sph(I, **over):
    kw = dict(t=Q(I, S("t0"), "s"), r=Q(I, S("r0", True), "m"), theta=Q(I, S("th0"), "rad"), phi=Q(I, S("ph0"), "rad"),
              v_r=Q(I, S("vr"), "m / s"), v_th=Q(I, S("vth"), "rad / s"), v_p=Q(I, S("vp"), "rad / s"))
    kw.update(over)
    return I.call(I.global_("einsteinpy.coordinates.SphericalDifferential"), [], kw)


def cart(I, **over):
    kw = dict(t=Q(I, S("t0"), "s"), x=Q(I, S("x0"), "m"), y=Q(I, S("y0"), "m"), z=Q(I, S("z0"), "m"),
              v_x=Q(I, S("vx"), "m / s"), v_y=Q(I, S("vy"), "m / s"), v_z=Q(I, S("vz"), "m / s"))
    kw.update(over)
    return I.call(I.global_("einsteinpy.coordinates.CartesianDifferential"), [], kw)


SPIN_OK = lambda a: [b_not(gtz(-a)), b_not(gtz(a - 1))]


def make_metric(I, name, M=None, a=None, Qc=None, q=None, coords=None):
    """name in schw / kerr / kn"""
    M = M if M is not None else Q(I, S("M", True), "kg")
    if name == "schw":
        return I.call(I.global_("einsteinpy.metric.Schwarzschild"), [], dict(coords=coords or sph(I), M=M))
    a = a if a is not None else Q(I, S("a"), "")
    if name == "kerr":
        return I.call(I.global_("einsteinpy.metric.Kerr"), [], dict(coords=coords or bl(I), M=M, a=a))
    Qc = Qc if Qc is not None else Q(I, S("Q"), "C")
    kw = dict(coords=coords or bl(I), M=M, a=a, Q=Qc)
    if q is not None:
        kw["q"] = q
    return I.call(I.global_("einsteinpy.metric.KerrNewman"), [], kw)


PYNAME = {"schw": "Schwarzschild", "kerr": "Kerr", "kn": "KerrNewman"}
MODQ = {"schw": "einsteinpy.metric.Schwarzschild", "kerr": "einsteinpy.metric.Kerr", "kn": "einsteinpy.metric.KerrNewman"}


def params(M=None, a=None, Qc=None):
    M = M if M is not None else S("M", True)
    a = a if a is not None else S("a")
    Qc = Qc if Qc is not None else S("Q")
    rs = G * M * 2 / (C * C)
    al = G * M * a / (C * C)
    rq2 = Qc * Qc * G * KC / (C ** 4)
    return rs, al, rq2


def spec_metric(name, x=None, M=None, a=None, Qc=None):
    """textbook covariant metric, signature (+,-,-,-), coordinates (t, r, theta, phi)"""
    t, r, th, ph = x or vec4()
    rs, al, rq2 = params(M, a, Qc)
    s, co = tm.sin(th), tm.cos(th)
    if name == "schw":
        f = ONE - rs / r
        d = [f * C * C, -ONE / f, -r * r, -(r * s) * (r * s)]
        return tuple(tuple(d[i] if i == j else ZERO for j in range(4)) for i in range(4))
    if name == "kerr":
        rq2 = ZERO
    Sg = r * r + al * al * co * co
    D = r * r - rs * r + al * al + rq2
    g = [[ZERO] * 4 for _ in range(4)]
    m = rs * r - rq2
    g[0][0] = C * C * (ONE - m / Sg)
    g[1][1] = -Sg / D
    g[2][2] = -Sg
    g[3][3] = -(r * r + al * al + m * al * al * s * s / Sg) * s * s
    g[0][3] = g[3][0] = C * m * al * s * s / Sg
    return tuple(tuple(x) for x in g)


def spec_inverse(g):
    """inverse of a symmetric metric with only a (0,3) off-diagonal block"""
    det = g[0][0] * g[3][3] - g[0][3] * g[0][3]
    z = [[ZERO] * 4 for _ in range(4)]
    z[0][0] = g[3][3] / det
    z[3][3] = g[0][0] / det
    z[0][3] = z[3][0] = -g[0][3] / det
    z[1][1] = ONE / g[1][1]
    z[2][2] = ONE / g[2][2]
    return tuple(tuple(x) for x in z)


def spec_christoffel(g, gi, x):
    n = len(x)
    dg = [[[tm.diff(g[i][j], x[k]) for k in range(n)] for j in range(n)] for i in range(n)]
    out = []
    for i in range(n):
        pl = []
        for j in range(n):
            row = []
            for k in range(n):
                s = ZERO
                for l in range(n):
                    if gi[i][l].is_zero():
                        continue
                    s = s + gi[i][l] * (dg[l][j][k] + dg[l][k][j] - dg[j][k][l])
                row.append(s / 2)
            pl.append(tuple(row))
        out.append(tuple(pl))
    return tuple(out)


def matmul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return tuple(tuple(tm.tsum(a[i][l] * b[l][j] for l in range(k)) for j in range(m)) for i in range(n))


def eye(n):
    return tuple(tuple(ONE if i == j else ZERO for j in range(n)) for i in range(n))


def get(I, o, name):
    return I.getattr_(o, name)


def meth(I, o, name, *args, **kw):
    return I.call(I.getattr_(o, name), list(args), kw)


def must_raise(R, I, name, fn, exc, pre=(), where=None):
    """fn() never completes normally; every exception is one of exc"""
    out = R.ev(I, fn, pre)
    R.raises_iff(name, out, True, exc, where)
    return out


def regular(R, name, I, fn, loci, pre=(), where=None):
    """no denominator evaluated by fn vanishes identically on a locus where the quantity is regular;
    loci: [(label, substitution {term: term})]"""
    log = I.div_log = []
    try:
        R.ev(I, fn, pre)
    finally:
        I.div_log = None
    from sa.values import ATOMS
    seen = {}
    for d, loc, facts in log:
        seen.setdefault((d, frozenset(facts.items())), loc)
    for label, m in loci:
        bad = None
        for (d, facts), loc in seen.items():
            try:
                v = tm.subs(d, m)
                z = v.is_zero()
            except ZeroDivisionError:
                continue           # an inner denominator vanishes: reported on its own
            if z and not any(_contradicts(ATOMS[i], val, m) for i, val in facts):
                bad = (d, loc)
                break
        if bad:
            R.fail("%s regular at %s" % (name, label), "divides by %s, which is zero at %s" % (tm.short(bad[0]), label), "src/" + bad[1])
        else:
            R.ok("%s regular at %s (%d denominators)" % (name, label, len(seen)), "nf")


def _contradicts(a, val, m):
    """the path predicate excludes the locus"""
    if a.kind not in ("eqz", "gtz"):
        return False
    try:
        c = tm.subs(a.data, m).as_const()
    except ZeroDivisionError:
        return False
    return c is not None and ((c == 0) if a.kind == "eqz" else (c > 0)) != val


def outcls(I, v):
    from sa.values import Inst
    c = I.content(v) if isinstance(v, Ref) else v
    return c.cls.name if isinstance(c, Inst) else None


# ---- coordinate systems: textbook position maps -------------------------------------------------
def to_cart(system, p, al):
    """(a,b,c) -> (x,y,z)"""
    if system == "Cartesian":
        return tuple(p)
    r, th, ph = p
    rho = r if system == "Spherical" else tm.sqrt(r * r + al * al)
    return (rho * tm.sin(th) * tm.cos(ph), rho * tm.sin(th) * tm.sin(ph), r * tm.cos(th))


def from_cart(system, p, al):
    x, y, z = p
    if system == "Cartesian":
        return tuple(p)
    R2 = x * x + y * y + z * z
    if system == "Spherical":
        r = tm.sqrt(R2)
    else:
        w = R2 - al * al
        r = tm.sqrt((w + tm.sqrt(w * w + 4 * al * al * z * z)) / 2)
    return (r, tm.acos(z / r), tm.atan2(y, x))


SYS = ("Cartesian", "Spherical", "BoyerLindquist")
CN = {"Cartesian": ("x", "y", "z"), "Spherical": ("r", "theta", "phi"), "BoyerLindquist": ("r", "theta", "phi")}
VN = {"Cartesian": ("v_x", "v_y", "v_z"), "Spherical": ("v_r", "v_th", "v_p"), "BoyerLindquist": ("v_r", "v_th", "v_p")}
SHORT = {"Cartesian": "cartesian", "Spherical": "spherical", "BoyerLindquist": "bl"}
PU = {"Cartesian": ("m", "m", "m"), "Spherical": ("m", "rad", "rad"), "BoyerLindquist": ("m", "rad", "rad")}
VU = {"Cartesian": ("m / s", "m / s", "m / s"), "Spherical": ("m / s", "rad / s", "rad / s"), "BoyerLindquist": ("m / s", "rad / s", "rad / s")}
BUILD = {"Cartesian": cart, "Spherical": sph, "BoyerLindquist": bl}


def psyms(s):
    return (S("x0"), S("y0"), S("z0")) if s == "Cartesian" else (S("r0", True), S("th0"), S("ph0"))


def vsyms(s):
    return (S("vx"), S("vy"), S("vz")) if s == "Cartesian" else (S("vr"), S("vth"), S("vp"))


def pos_obj(I, s, p=None):
    p = p or psyms(s)
    kw = dict(t=Q(I, S("t0"), "s"))
    kw.update({n: Q(I, v, u) for n, v, u in zip(CN[s], p, PU[s])})
    return I.call(I.global_("einsteinpy.coordinates." + s), [], kw)


def conv_spec(src, dst, p, al):
    return from_cart(dst, to_cart(src, p, al), al)


RANGES = {"th0": (0.05, 3.09), "ph0": (-3.1, 3.1), "a": (0.02, 0.98)}


METRIC_LOCI = [("theta = pi/2", {S("th"): tm.PI / 2}), ("phi = 0", {S("ph"): ZERO}), ("t = 0", {S("t"): ZERO}), ("a = 0", {S("a"): ZERO}),
               ("Q = 0", {S("Q"): ZERO})]


def metric_regular(R, I, method, call):
    for n in MODQ:
        if n != "kn" and method.startswith("em_"):
            continue
        R.group = PYNAME[n]
        regular(R, method, I, lambda: call(get(I, make_metric(I, n), method)), METRIC_LOCI, SPIN_OK(S("a")), R.loc_of(I, MODQ[n] + "." + method))


def ints_of(I, o):
    """integer attributes of an object"""
    return {k: v for k, v in I.content(o).d.items() if isinstance(v, int) and not isinstance(v, bool)}


def havoc_counters(I, o, before, after):
    """any history: an integer attribute that one call changed (a counter) gets an arbitrary value"""
    n = []
    for k, v in after.items():
        if k in before and before[k] != v:
            s = S("any_" + k)
            I.put(o, I.content(o).with_(k, s))
            n.append((k, s))
    return n


INT_X = {S("t"): 2, S("r"): 7, S("th"): 1, S("ph"): 3}
for _i in range(4):
    INT_X[S("u%d" % _i)] = _i + 2


def deep_subs(v, m):
    if isinstance(v, (tuple, list)):
        return tuple(deep_subs(e, m) for e in v)
    return tm.subs(v, m) if isinstance(v, tm.T) else v


def int_case(R, I, name, fn, n, pre=(), where=None):
    """an integer array stands for the same event as the float array: fn(event of n entries) at integers = fn at symbols with the integers put in"""
    xs = (vec4() + [S("u%d" % i) for i in range(4)])[:n]
    ref = R.ev(I, lambda: fn(arr(I, xs)), pre)
    out = R.ev(I, lambda: fn(arr(I, tuple(INT_X[x] for x in xs))), pre)
    if R.no_raise("%s at symbols" % name, ref) and R.no_raise("%s at integers" % name, out):
        R.same_all(name + " at integers", out.value, deep_subs(ref.value, {x: tm.as_t(INT_X[x]) for x in xs}), out, where=where)


def metric_ints(R, I, methods, call=None, n=4):
    for k in MODQ:
        R.group = PYNAME[k] + " integer event"
        for m in methods:
            if k != "kn" and m.startswith("em_"):
                continue
            int_case(R, I, m, lambda x: (call or (lambda f, y: I.call(f, [y], {})))(get(I, make_metric(I, k), m), x), n, SPIN_OK(S("a")), R.loc_of(I, MODQ[k]))
