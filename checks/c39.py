"""C39: the Schwarzschild shadow."""
from .common import *

MIN_OBLIGATIONS = 150
CN = "einsteinpy.rays.Shadow"
H = tm.as_t(tm.Fraction(1, 2))


def quad(f, a, b):
    """stands for the integral: linear in the integrand, odd under exchange of the limits, and tells integrands and limits apart"""
    return (b - a) * f((a + b) * H)


class World:
    def __init__(self, I, pattern):
        self.I, self.pattern = I, pattern
        self.lins, self.newtons, self.quads, self.roots, self.itps = [], [], [], [], []
        self.isreal = 0
        h = I.hooks
        h["numpy.linspace"] = self.linspace
        h["scipy.optimize.newton"] = self.newton
        h["scipy.integrate.fixed_quad"] = self.fixed_quad
        h["numpy.isreal"] = self.is_real
        h["numpy.emath.sqrt"] = lambda J, a, k: tm.func("csqrt", [tm.as_t(J.force(a[0]))])
        h["scipy.interpolate.interp1d"] = self.interp1d

    def linspace(self, J, a, k):
        a = list(a) + [k[n] for n in ("start", "stop", "num")[len(a):] if n in k]
        lo, hi = a[0], a[1]
        n = J.force(a[2]) if len(a) > 2 else 50
        n = int(str(n))
        self.lins.append((lo, hi, n))
        names = ("b", "s", "w", "v")
        return arr(J, [S("%s%d" % (names[len(self.lins) - 1], i), True) for i in range(n)])

    def args(self, k, a, i):
        v = k.get("args", a[i] if len(a) > i else ())
        return tuple(self.I.iterate(self.I.force(v)))

    def newton(self, J, a, k):
        r = S("x", True)
        eq = J.call(k.get("func", a[0] if a else None), [r] + list(self.args(k, a, 3)), {})
        root = S("r%d" % len(self.newtons), True)
        self.newtons.append((eq, k.get("x0", a[1] if len(a) > 1 else None), {n: v for n, v in k.items() if n not in ("func", "x0", "args")}))
        self.roots.append(root)
        return root

    def is_real(self, J, a, k):
        v = J.force(a[0])
        for i, r in enumerate(self.roots):
            if tm.equal(tm.as_t(v), r):
                self.isreal += 1
                return self.pattern[i]
        return True

    def fixed_quad(self, J, a, k):
        f = k.get("func", a[0] if a else None)
        lo, hi = (tm.as_t(J.force(x)) for x in (k.get("a", a[1] if len(a) > 1 else None), k.get("b", a[2] if len(a) > 2 else None)))
        ex = list(self.args(k, a, 3))
        n = k.get("n", a[4] if len(a) > 4 else 5)
        self.quads.append(n)
        v = quad(lambda r: tm.as_t(J.force(J.call(f, [r] + ex, {}))), lo, hi)
        return (v, None)

    def interp1d(self, J, a, k):
        x, y = k.get("x", a[0] if a else None), k.get("y", a[1] if len(a) > 1 else None)
        xs, ys = tuple(J.iterate(x)), tuple(J.iterate(y))
        self.itps.append((xs, ys, {n: v for n, v in k.items() if n not in "xy"} if len(a) < 3 else dict(k, kind=a[2])))
        return PyFn(lambda J2, b, kk: arr(J2, [tm.func("itp", [tm.as_t(J2.force(e))]) for e in J2.iterate(b[0])]), "itp")


def integrand(M, r, b, s):
    """Bambi, PRD 87, 107501: g^3 g_tt k_t / (r^2 |k^r|), s = +1 receding (red), -1 approaching (blue); observer at infinity, free infall emitters"""
    gtt = ONE - 2 * M / r
    grr = ONE / gtt
    k = tm.sqrt(gtt / grr * (ONE - b * b * gtt / (r * r)))
    g = ONE / (ONE / gtt + s * k * (grr / gtt) * tm.sqrt((ONE - gtt) / (gtt * grr)))
    return g ** 3 * gtt / (r * r) / k


def run(R):
    R.rule("Shadow: n_rays impact parameters from b_crit = 3 sqrt(3) M to the field of view; for each the turning point equation r/sqrt(1 - 2M/r) = b is solved over the complex numbers and the ray is "
           "kept when the root is real; its intensity is the blue shifted integral on the way in plus the red shifted one on the way out; as many rays below b_crit get the red shifted "
           "integral from the horizon 2M outwards; profiles are symmetric; smoothen interpolates the same profile cubically")
    I = R.interp()
    cls = I.global_(CN)
    I.global_("einsteinpy.plotting")  # load before hooking
    M, F, lim = S("M", True), S("F", True), S("lim", True)

    def ray(Mv, Fv, b, rt):
        return quad(lambda r: -integrand(Mv, r, b, -ONE), Fv, rt) + quad(lambda r: integrand(Mv, r, b, ONE), rt, Fv)

    def inner(Mv, Fv, b):
        return quad(lambda r: integrand(Mv, r, b, ONE), 2 * Mv, Fv)
    R.where = R.loc_of(I, CN + ".__init__")

    def case(mu, fu, ms, fs, n, pattern, limit, smooth=None):
        R.group = "M in %s, fov in %s, %d rays, real roots %s%s" % (mu, fu, n, "".join("NY"[p] for p in pattern), ", limit given" if limit else "")
        Mv, Fv = M * tm.as_t(ms), F * tm.as_t(fs)
        w = World(I, pattern)
        L = lim if limit else tm.as_t(tm.Fraction(1, 1000))
        kw = {"limit": lim} if limit else {}

        def mk():
            o = I.call(cls, [Q(I, M, mu), n, Q(I, F, fu)], kw)
            if smooth is not None:
                meth(I, o, "smoothen", *([] if smooth == 500 else [smooth]))
            res = tuple(get(I, o, a) for a in ("fb1", "fb2", "intensity"))
            return res + tuple(get(I, get(I, o, a), "value") for a in ("mass", "fov", "b_crit")) + (get(I, o, "horizon"), get(I, o, "z"), get(I, o, "n_rays"), get(I, o, "limit"))
        sy = [S("s%d" % i, True) for i in range(sum(pattern))] + [S("b%d" % i, True) for i in range(n)]
        order = [gtz(q - p) for j, q in enumerate(sy) for p in sy[:j]]
        out = R.ev(I, mk, [gtz(Fv - 3 * tm.sqrt(tm.as_t(3)) * Mv)] + order, deep=True)
        I.hooks.clear()
        if not R.no_raise("Shadow", out):
            return
        keep = [i for i in range(n) if pattern[i]]
        if not all(pattern) and not w.isreal:
            return                                      # reality is decided in another way: no verdict on dropping
        bc = 3 * tm.sqrt(tm.as_t(3)) * Mv
        fb1, fb2, it, mv, fv, bcv, hz, z, nr, lm = out.value
        R.same_all("mass, fov, b_crit, horizon", (mv, fv, bcv, hz), (Mv, Fv, bc, 2 * Mv), out)
        R.same_all("n_rays, limit", (tm.as_t(nr), lm), (tm.as_t(n), L), out)
        R.require("grids", len(w.lins) == (2 if smooth is None else 3), "%d linspace calls" % len(w.lins))
        ranges = [(bc, Fv, n), (L, bc, len(keep))]
        for (lo, hi, cnt), (a, b, c), nm in zip(w.lins, ranges, ("outer", "inner")):
            R.same_all(nm + " impact parameters", (lo, hi, tm.as_t(cnt)), (a, b, tm.as_t(c)), out)
        R.require("one root per ray", len(w.newtons) == n, "%d equations" % len(w.newtons))
        x = S("x", True)
        bs = [S("b%d" % i, True) for i in range(n)]
        for i, (eq, x0, extra) in enumerate(w.newtons):
            R.equal("turning point equation %d" % i, eq, x / tm.func("csqrt", [ONE - 2 * Mv / x]) - bs[i], out.facts, out.guard)
            R.equal("first guess %d" % i, tm.as_t(I.force(x0)), tm.as_t(tm.Fraction(1, 10)))
            R.require("method %d" % i, not extra, "further arguments %r" % (extra,))
        R.require("quadrature order", all(tm.as_t(q).is_const() and int(str(q)) >= 5 if not isinstance(q, int) else q >= 5 for q in w.quads), "n = %r" % (w.quads,))
        ob = [bs[i] for i in keep]
        ib = [S("s%d" % i, True) for i in range(len(keep))]
        R.same_all("turning points", z, tuple((bs[i], S("r%d" % i, True)) for i in keep), out)
        want = tuple(inner(Mv, Fv, b) for b in ib) + tuple(ray(Mv, Fv, bs[i], S("r%d" % i, True)) for i in keep)
        if smooth is None:
            R.same_all("fb1", fb1, tuple(ib + ob), out)
            R.same_all("fb2", fb2, tuple(-b for b in ib + ob), out)
            R.same_all("intensity", it, want, out)
        else:
            ws = tuple(S("w%d" % i, True) for i in range(smooth))
            lo, hi, cnt = w.lins[2]
            R.same_all("smoothen range", (lo, hi, tm.as_t(cnt)), (ib[0], ob[-1], tm.as_t(smooth)), out)
            R.same_all("fb1", fb1, ws, out)
            R.same_all("fb2", fb2, tuple(-b for b in ws), out)
            R.same_all("intensity", it, tuple(tm.func("itp", [b]) for b in ws), out)
            R.require("one interpolation", len(w.itps) == 1, "%d" % len(w.itps))
            for xs, ys, extra in w.itps:
                R.same_all("nodes", xs, tuple(ib + ob), out)
                R.same_all("values", ys, want, out)
                R.require("cubic", str(extra.get("kind")) == "cubic" and set(extra) <= {"kind", "copy", "assume_sorted"}, "%r" % (extra,))
    Fr = tm.Fraction
    for mu, fu, ms, fs in (("kg", "km", 1, 1), ("g", "m", Fr(1, 1000), Fr(1, 1000)), ("t", "cm", 1000, Fr(1, 100000))):
        for n, pat in ((2, (True, True)), (3, (True, True, True)), (3, (True, False, True)), (2, (False, True)), (1, (True,))):
            R.guard("case", lambda: case(mu, fu, ms, fs, n, pat, n == 3))
        if mu == "kg":
            R.guard("smooth", lambda: case(mu, fu, ms, fs, 2, (True, True), False, 3))
            R.guard("smooth", lambda: case(mu, fu, ms, fs, 3, (True, True, False), False, 2))
    I.hooks.clear()
    R.group = ""
    for nm, a in (("mass in m", ("m", "km")), ("fov in kg", ("kg", "kg"))):
        must_raise(R, I, nm, lambda a=a: I.call(cls, [Q(I, M, a[0]), 2, Q(I, F, a[1])], {}), ("UnitConversionError", "UnitsError"))
    must_raise(R, I, "plain mass", lambda: I.call(cls, [M, 2, Q(I, F, "km")], {}), ("TypeError",))
