"""Vocabulary of the symbolic-tensor checks: metric families and textbook curvature."""
from .common import *

SY = "einsteinpy.symbolic."
X4 = (S("t"), S("r"), S("th"), S("ph"))


def fn(name, *xs):
    return tm.func(name, tuple(xs))


def diag_metric(*ds):
    n = len(ds)
    return tuple(tuple(ds[i] if i == j else ZERO for j in range(n)) for i in range(n))


def sym_metric(n, xs, f):
    return tuple(tuple(f(min(i, j), max(i, j)) for j in range(n)) for i in range(n))


def sym_interp(R):
    I = R.interp(structural_eq=True)
    I.opaque_inverse = False
    return I


def families(high=False):
    """(label, coordinates, covariant components); the functions are uninterpreted"""
    t, r, th, ph = X4
    x, y, z = S("x"), S("y"), S("z")
    out = []
    out.append(("2D general", (x, y), sym_metric(2, None, lambda i, j: fn("g%d%d" % (i, j), x, y))))
    out.append(("3D diagonal", (x, y, z), diag_metric(fn("a", x, y, z), fn("b", x, y, z), fn("c", x, y, z))))
    out.append(("3D block", (x, y, z), ((fn("a", z), fn("h", x, y, z), ZERO), (fn("h", x, y, z), fn("b", x), ZERO), (ZERO, ZERO, fn("c", x, y)))))
    out.append(("4D static spherical", X4, diag_metric(-fn("A", r), fn("B", r), r * r, sq(r * tm.sin(th)))))
    out.append(("4D FRW", X4, diag_metric(-ONE, sq(fn("a", t)) / (ONE - S("k") * r * r), sq(fn("a", t) * r), sq(fn("a", t) * r * tm.sin(th)))))
    out.append(("4D diagonal", X4, diag_metric(-fn("A", r, th), fn("B", t, ph), fn("C", t, r), fn("D", r, th))))
    out.append(("4D stationary axisymmetric", X4, ((fn("A", r, th), ZERO, ZERO, fn("W", r, th)), (ZERO, fn("B", th), ZERO, ZERO),
                                                   (ZERO, ZERO, fn("C", r), ZERO), (fn("W", r, th), ZERO, ZERO, fn("D", r, th)))))
    u, v, w = S("u"), S("v"), S("w")
    H = fn("H", u, x, y)
    out.append(("4D pp-wave", (u, v, x, y), ((H, ONE, ZERO, ZERO), (ONE, ZERO, ZERO, ZERO), (ZERO, ZERO, ONE, ZERO), (ZERO, ZERO, ZERO, ONE))))
    out.append(("2D null coordinates", (u, v), ((ZERO, fn("f", u, v)), (fn("f", u, v), ZERO))))
    out.append(("3D constant", (x, y, z), ((-ONE, ONE, ZERO), (ONE, ONE, ZERO), (ZERO, ZERO, ONE))))
    X7 = (t, r, th, ph, u, v, w)
    D = diag_metric(-fn("A", r), fn("B", t), sq(fn("F", u)), fn("C", ph), fn("D", t))
    out.append(("5D with off-diagonal end", X7[:5], tuple(tuple(fn("h", r) if (i, j) in ((3, 4), (4, 3)) else D[i][j] for j in range(5)) for i in range(5))))
    out.append(("6D warped product", X7[:6], diag_metric(-ONE, fn("a", t), fn("a", t), fn("b", v), fn("b", v), fn("c", th))))
    if high:
        out.append(("7D warped product", X7, diag_metric(-ONE, fn("a", t), ONE, fn("b", w), S("k"), fn("c", r), fn("d", th))))
        out.append(("1D", (x,), ((fn("g", x),),)))
    return out


def deep():
    """additional families of the thorough tier"""
    x = X4[:3]
    r, th = X4[1:3]
    return [("3D dense", x, sym_metric(3, None, lambda i, j: fn("g%d%d" % (i, j), x[0]))),
            ("4D dense in r", X4, sym_metric(4, None, lambda i, j: fn("g%d%d" % (i, j), r) if (i, j) != (1, 2) else S("k")))]


def inverse(g):
    """inverse of a symmetric matrix by cofactors over its non-zero pattern"""
    n = len(g)

    def det(rows, cols):
        if not rows:
            return ONE
        i, rest = rows[0], rows[1:]
        s = ZERO
        for k, j in enumerate(cols):
            if g[i][j].is_zero():
                continue
            m = g[i][j] * det(rest, cols[:k] + cols[k + 1:])
            s = s + m if k % 2 == 0 else s - m
        return s
    al = tuple(range(n))
    D = det(al, al)
    return tuple(tuple((ONE if (i + j) % 2 == 0 else -ONE) * det(al[:j] + al[j + 1:], al[:i] + al[i + 1:]) / D for j in range(n)) for i in range(n))


def riemann(Gm, x):
    """R^t_{s r n} from Gamma^t_{s n}"""
    n = len(x)
    return tuple(tuple(tuple(tuple(
        ZERO if r == m else
        tm.diff(Gm[t][s][m], x[r]) - tm.diff(Gm[t][s][r], x[m]) + tm.tsum(Gm[p][s][m] * Gm[t][p][r] - Gm[p][s][r] * Gm[t][p][m] for p in range(n))
        for m in range(n)) for r in range(n)) for s in range(n)) for t in range(n))


def ricci(Rm):
    n = len(Rm)
    return tuple(tuple(tm.tsum(Rm[k][i][k][j] for k in range(n)) for j in range(n)) for i in range(n))


def scalar(Rc, gi):
    n = len(Rc)
    return tm.tsum(gi[i][j] * Rc[i][j] for i in range(n) for j in range(n) if not gi[i][j].is_zero())


def lower_first(Rm, g):
    n = len(Rm)
    return tuple(tuple(tuple(tuple(tm.tsum(g[t][p] * Rm[p][s][r][m] for p in range(n) if not g[t][p].is_zero())
                                   for m in range(n)) for r in range(n)) for s in range(n)) for t in range(n))


def einstein(Rc, sc, g):
    n = len(g)
    return tuple(tuple(Rc[i][j] - g[i][j] * sc / 2 for j in range(n)) for i in range(n))


def schouten(Rc, sc, g):
    n = len(g)
    return tuple(tuple((Rc[i][j] - g[i][j] * sc / (2 * (n - 1))) / (n - 2) for j in range(n)) for i in range(n))


def weyl(Rl, Rc, sc, g):
    n = len(g)

    def W(i, k, l, m):
        return Rl[i][k][l][m] + (Rc[i][m] * g[k][l] - Rc[i][l] * g[k][m] + Rc[k][l] * g[i][m] - Rc[k][m] * g[i][l]) / (n - 2) \
            + sc * (g[i][l] * g[k][m] - g[i][m] * g[k][l]) / ((n - 1) * (n - 2))
    return tuple(tuple(tuple(tuple(W(i, k, l, m) for m in range(n)) for l in range(n)) for k in range(n)) for i in range(n))


class Curv:
    """textbook curvature of a metric, computed lazily"""

    def __init__(self, x, g, gi=None):
        self.x, self.g, self.gi = x, g, gi or inverse(g)
        self._d = {}

    def __getattr__(self, k):
        if k not in ("gam", "riem", "ric", "sc", "ein", "riem_l", "sch", "wey"):
            raise AttributeError(k)
        if k not in self._d:
            self._d[k] = {"gam": lambda: spec_christoffel(self.g, self.gi, self.x), "riem": lambda: riemann(self.gam, self.x),
                          "ric": lambda: ricci(self.riem), "sc": lambda: scalar(self.ric, self.gi), "ein": lambda: einstein(self.ric, self.sc, self.g),
                          "riem_l": lambda: lower_first(self.riem, self.g), "sch": lambda: schouten(self.ric, self.sc, self.g),
                          "wey": lambda: weyl(self.riem_l, self.ric, self.sc, self.g)}[k]()
        return self._d[k]


def nested(I, v):
    return I.new_list([nested(I, x) for x in v]) if isinstance(v, (tuple, list)) else v


def metric(I, x, g, config="ll", name=None, syms=None):
    kw = {} if config is None else dict(config=config)
    if name is not None:
        kw["name"] = name
    return I.call(I.global_(SY + "MetricTensor"), [nested(I, g), tuple(x) if syms is None else syms], kw)


def tens(I, cls, x, v, **kw):
    return I.call(I.global_(SY + cls), [nested(I, v), tuple(x)], kw)


def comp(I, o):
    return meth(I, o, "tensor")


def from_(I, cls, how, o, **kw):
    return I.call(I.getattr_(I.global_(SY + cls), "from_" + how), [o], kw)
