"""C36: what the plotters draw."""
from .common import *
from sa.values import Opaque
from sa.harness import plain

MIN_OBLIGATIONS = 200
P = "einsteinpy.plotting.geodesic."
CLS = (("StaticGeodesicPlotter", "static."), ("InteractiveGeodesicPlotter", "interactive."))
NROW = 3


class Grid:
    """models numpy.linspace by two generic grid points and remembers the interval they stand for"""

    def __init__(self, I):
        self.n = 0
        self.range = {}
        I.hooks["numpy.linspace"] = self

    def __call__(self, J, a, k):
        self.n += 1
        lo, hi = tm.as_t(J.force(a[0])), tm.as_t(J.force(a[1]))
        ss = [S("u%d_%d" % (self.n, i)) for i in range(2)]
        for s in ss:
            self.range[s] = (lo, hi)
        return arr(J, ss)


def trow(i):
    return [S("T%d_%d" % (i, j)) for j in range(8)]


def geodesic(I):
    tr = I.new_arr((NROW, 8), [x for i in range(NROW) for x in trow(i)])
    lam = arr(I, [S("l%d" % i) for i in range(NROW)])
    return I.alloc(Inst(ExtV("stub.Geodesic"), dict(metric_params=(S("a"), S("Q")), trajectory=(lam, tr), kind="Time-like", coords="Cartesian")))


def col(j):
    return tuple(trow(i)[j] for i in range(NROW))


def deref(I, out, v):
    base = I.st
    I.st = out.st
    try:
        return plain(I, v, None, (), True)
    finally:
        I.st = base


def calls(I, out, name):
    """[(positional, keyword)] of the recorded library calls whose name ends so"""
    r = []
    for e in out.trace:
        if e.name.startswith("call:") and (e.name.endswith("." + name) or e.name.endswith(":" + name)):
            if any(x not in out.pre_facts for x in e.facts):
                continue                    # drawn under some condition only: does not count as drawn
            r.append((tuple(deref(I, out, a) for a in e.args), {k: deref(I, out, v) for k, v in e.kwargs.items()}, e))
    return r


def surf_args(I, out):
    """[(x, y, z, label, colour)] of the surfaces drawn, either backend"""
    r = []
    for a, k, e in calls(I, out, "plot_surface"):
        r.append((a[:3], k.get("label"), k.get("color")))
    for a, k, e in calls(I, out, "Surface"):
        cs = k.get("colorscale")
        r.append(((k.get("x"), k.get("y"), k.get("z")), k.get("name"), cs[0][1] if isinstance(cs, tuple) and cs else cs))
    return r


def area_args(I, out):
    r = []
    for a, k, e in calls(I, out, "fill"):
        r.append((a[:2], k.get("label"), a[2] if len(a) > 2 else k.get("color")))
    for a, k, e in calls(I, out, "Scatter"):
        if "fill" in k:
            r.append(((k.get("x"), k.get("y")), k.get("name"), k.get("fillcolor")))
    return r


def horizon(a):
    return ONE + tm.sqrt(ONE - a * a)


def run(R):
    R.rule("both geodesic plotters draw the outer horizon r = 1 + sqrt(1 - a^2) and, when asked, the ergosphere r = 1 + sqrt(1 - a^2 cos^2 theta) with a = metric_params[0], the trajectory's "
           "columns 1, 2, 3 (or the two requested ones) and, parametrically, each coordinate against the affine parameter; invalid aspects and coordinates raise; the shadow and hypersurface "
           "plotters pass on exactly the curves of their objects")
    I = R.interp()
    grid = Grid(I)
    fig, ax, line = Opaque("fig"), Opaque("ax"), Opaque("line")
    I.hooks["matplotlib.pyplot.subplots"] = lambda J, a, k: (fig, ax)
    I.hooks["matplotlib.pyplot.axes"] = lambda J, a, k: ax
    I.hooks["opaque:ax.plot"] = lambda J, a, k: (line,)
    a_ = S("a")
    pre = SPIN_OK(a_)

    def polar_var(t):
        """the grid variables a term depends on, with their intervals"""
        return {s: r for s, r in grid.range.items() if not tm.diff(tm.as_t(t), s).is_zero()}

    def on_surface(lbl, out, xyz, radius, where):
        X, Y, Z = xyz
        if not (isinstance(X, tuple) and isinstance(Z, tuple)):
            raise AnalysisError("surface data is not an array: %r" % (X,))
        flat = lambda M: [e for r in M for e in r] if M and isinstance(M[0], tuple) else list(M)
        for i, (x, y, z) in enumerate(zip(flat(X), flat(Y), flat(Z))):
            x, y, z = tm.as_t(x), tm.as_t(y), tm.as_t(z)
            r2 = x * x + y * y + z * z
            th = [s for s in polar_var(z)]
            if len(th) != 1:
                R.fail("%s [%d]" % (lbl, i), "height depends on %d grid variables" % len(th), where)
                continue
            th = th[0]
            r = radius(th)
            R.equal("%s r [%d]" % (lbl, i), r2, r * r, out.facts, out.guard, where)
            R.equal("%s z [%d]" % (lbl, i), z, r * tm.cos(th), out.facts, out.guard, where)
            az = [s for s in polar_var(x) if s is not th and s != th]
            R.require("%s azimuth [%d]" % (lbl, i), len(az) == 1, "depends on %d azimuths" % len(az), where)
            if len(az) == 1:
                lo, hi = grid.range[th]
                R.require("%s polar range [%d]" % (lbl, i), lo.is_zero() and tm.equal(hi, tm.PI), "polar angle runs over [%r, %r]" % (lo, hi), where)
                lo, hi = grid.range[az[0]]
                R.require("%s azimuth range [%d]" % (lbl, i), tm.equal(hi - lo, tm.PI * 2), "azimuth runs over [%r, %r]" % (lo, hi), where)
                sx = x / (r * tm.sin(th))
                sw = tm.cos(az[0]), tm.sin(az[0])
                R.require("%s covers the sphere [%d]" % (lbl, i), tm.equal(sx, sw[0]) or tm.equal(sx, sw[1]) or tm.equal(sx, -sw[0]) or tm.equal(sx, -sw[1]),
                          "x / (r sin theta) = %s" % tm.short(sx), where)

    def in_plane(lbl, out, xy, radius, where):
        X, Y = xy
        if not isinstance(X, tuple):
            raise AnalysisError("curve data is not an array: %r" % (X,))
        for i, (x, y) in enumerate(zip(X, Y)):
            th = list(polar_var(y))
            if len(th) != 1:
                R.fail("%s [%d]" % (lbl, i), "depends on %d grid variables" % len(th), where)
                continue
            r = radius(th[0])
            R.equal("%s r [%d]" % (lbl, i), x * x + y * y, r * r, out.facts, out.guard, where)
            R.equal("%s axis [%d]" % (lbl, i), y, r * tm.cos(th[0]), out.facts, out.guard, where)
            lo, hi = grid.range[th[0]]
            R.require("%s range [%d]" % (lbl, i), tm.equal(hi - lo, tm.PI * 2), "angle runs over [%r, %r]" % (lo, hi), where)

    ergo = lambda th: ONE + tm.sqrt(ONE - sq(a_ * tm.cos(th)))
    hor = lambda th: horizon(a_)

    for cls, mod in CLS:
        cn = P + mod + cls
        for draw in (None, True, False):
            kw = dict(bh_colors=("c0", "c1"))
            if draw is not None:
                kw["draw_ergosphere"] = draw

            def three(cls=cls, cn=cn, kw=kw, draw=draw):
                R.group = "%s.plot draw_ergosphere=%s" % (cls, draw)
                R.where = R.loc_of(I, cn + "._draw_bh")
                out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], dict(kw)), "plot", geodesic(I)), pre)
                if not R.no_raise("plot", out):
                    return
                sf = surf_args(I, out)
                want = [("BH Event Horizon (Outer)", "c0", hor)] + ([("BH Ergosphere (Outer)", "c1", ergo)] if draw is not False else [])
                R.require("surfaces", sorted(s[1] for s in sf) == sorted(w[0] for w in want), "draws %s" % [s[1] for s in sf])
                for nm, c, rad in want:
                    for s in sf:
                        if s[1] == nm:
                            R.equal(nm + " colour", s[2], c)
                            on_surface(nm, out, s[0], rad, R.where)
                if cls[0] == "I":
                    R.require("traces added", len(calls(I, out, "add_trace")) == len(want) + 1, "%d traces are added" % len(calls(I, out, "add_trace")))
                R.where = R.loc_of(I, cn + ".plot")
                cur = [a[:3] for a, k, e in calls(I, out, "plot") if len(a) >= 3] + [(k["x"], k["y"], k["z"]) for a, k, e in calls(I, out, "Scatter3d")]
                R.require("one trajectory", len(cur) == 1, "%d curves" % len(cur))
                for c in cur:
                    R.same_all("trajectory", tuple(c), (col(1), col(2), col(3)), out)
            R.guard("3D", three)

            def two(cls=cls, cn=cn, kw=kw, draw=draw):
                for A in (1, 2, 3):
                    for B in (1, 2, 3):
                        R.group = "%s.plot2D%r draw_ergosphere=%s" % (cls, (A, B), draw)
                        R.where = R.loc_of(I, cn + "._draw_bh_2D")
                        out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], dict(kw)), "plot2D", geodesic(I), coordinates=(A, B)), pre)
                        if not R.no_raise("plot2D", out):
                            continue
                        ar = area_args(I, out)
                        want = [("BH Event Horizon (Outer)", "c0", hor)] + ([("BH Ergosphere (Outer)", "c1", ergo)] if draw is not False else [])
                        R.require("areas", sorted(s[1] for s in ar) == sorted(w[0] for w in want), "draws %s" % [s[1] for s in ar])
                        for nm, c, rad in want:
                            for s in ar:
                                if s[1] == nm:
                                    R.equal(nm + " colour", s[2], c)
                                    in_plane(nm, out, s[0], rad, R.where)
                        R.where = R.loc_of(I, cn + ".plot2D")
                        cur = [a[:2] for a, k, e in calls(I, out, "plot")] + [(k["x"], k["y"]) for a, k, e in calls(I, out, "Scatter") if "fill" not in k]
                        R.require("one trajectory", len(cur) == 1, "%d curves" % len(cur))
                        for c in cur:
                            R.same_all("trajectory", tuple(c), (col(A), col(B)), out)
                        if cls[0] == "S":
                            lab = (calls(I, out, "set_xlabel")[-1][0][0], calls(I, out, "set_ylabel")[-1][0][0])
                        else:
                            k = [k for a, k, e in calls(I, out, "update_layout") if "xaxis_title" in k][-1]
                            lab = (k["xaxis_title"], k["yaxis_title"])
                        for l, ix in zip(lab, (A, B)):
                            R.require("axis label X%d" % ix, isinstance(l, str) and "X%d" % ix in l, "axis is labelled %r" % (l,))
            R.guard("2D", two)

        def misc(cls=cls, cn=cn):
            R.group = cls
            R.where = R.loc_of(I, cn + ".plot2D")
            out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], {}), "plot2D", geodesic(I)), pre)
            cur = [a[:2] for a, k, e in calls(I, out, "plot")] + [(k["x"], k["y"]) for a, k, e in calls(I, out, "Scatter") if "fill" not in k]
            R.require("plot2D default: one curve", len(cur) == 1, "%d" % len(cur))
            for c in cur:
                R.same_all("plot2D default", tuple(c), (col(1), col(2)), out)
            for bad in ((0, 1), (1, 0), (4, 1), (1, 4), (-1, 2), (2, -1), (7, 7)):
                must_raise(R, I, "coordinates %r" % (bad,), lambda: meth(I, I.call(I.global_(cn), [], {}), "plot2D", geodesic(I), bad), ("IndexError",), pre)
            R.where = R.loc_of(I, cn + ".plot")
            good = {"S": ("auto", "equal", "equalxy", "equalyz", "equalxz"), "I": ("auto", "data", "manual", "cube")}[cls[0]]
            for asp in good:
                out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], {}), "plot", geodesic(I), aspect=asp), pre)
                if R.no_raise("aspect %r" % asp, out):
                    got = [a[0] for a, k, e in calls(I, out, "set_aspect")] + [k["scene_aspectmode"] for a, k, e in calls(I, out, "update_layout") if "scene_aspectmode" in k]
                    R.require("aspect %r applied" % asp, got == [asp], "applies %r" % (got,))
            for asp in ("", "square", "Auto", "cube" if cls[0] == "S" else "equal"):
                must_raise(R, I, "aspect %r" % asp, lambda: meth(I, I.call(I.global_(cn), [], {}), "plot", geodesic(I), aspect=asp), ("ValueError",), pre)
            R.where = R.loc_of(I, cn + ".parametric_plot")
            out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], {}), "parametric_plot", geodesic(I), colors=("k1", "k2", "k3")), pre)
            if R.no_raise("parametric_plot", out):
                cur = [(a[0], a[1], k.get("label"), k.get("color")) for a, k, e in calls(I, out, "plot")]
                cur += [(k["x"], k["y"], k.get("name"), dict(k["line"].d)["color"] if hasattr(k["line"], "d") else None) for a, k, e in calls(I, out, "Scatter")]
                R.require("three curves", len(cur) == 3, "%d curves" % len(cur))
                for i, c in enumerate(cur):
                    lam = tuple(S("l%d" % j) for j in range(NROW))
                    n = "X%d" % (i + 1)
                    R.same_all("parametric " + n, (c[0], c[1]), (lam, col(i + 1)), out)
                    R.require("parametric label " + n, isinstance(c[2], str) and n in c[2] and "Cartesian" in c[2], "label %r" % (c[2],))
                    R.equal("parametric colour " + n, c[3], "k%d" % (i + 1))
            # a plot of one geodesic uses its own spin only
            out = R.ev(I, lambda: get(I, I.call(I.global_(cn), [], {}), "draw_ergosphere"))
            R.equal("draw_ergosphere default", out.value, True)
        R.guard(cls, misc)

    def anim():
        cn = P + "static.StaticGeodesicPlotter"
        R.group = "StaticGeodesicPlotter.animate"
        R.where = R.loc_of(I, cn + ".animate")
        holder = []
        I.hooks["matplotlib.animation.FuncAnimation"] = lambda J, a, k: (holder.append((a, k)), Opaque("ani"))[1]

        def f():
            del holder[:]
            meth(I, I.call(I.global_(cn), [], {}), "animate", geodesic(I), interval=S("dt"))
            a, k = holder[0]
            J = dict(zip(("fig", "func", "frames", "init_func", "fargs"), a))
            J.update(k)
            fn = J["func"]
            fargs = list(I.iterate(J["fargs"])) if J.get("fargs") is not None else []
            for num in (0, 1, 2, NROW - 1):
                I.call(fn, [num] + fargs, {})
            return J.get("frames"), J.get("interval"), J["fig"] is fig
        out = R.ev(I, f, pre)
        if R.no_raise("animate", out):
            R.same_all("one frame per point, interval", out.value, (NROW, S("dt"), True), out)
            d2 = [a[0] for a, k, e in calls(I, out, "set_data")]
            d3 = [a[0] for a, k, e in calls(I, out, "set_3d_properties")]
            R.require("every frame updates the line", len(d2) == 4 and len(d3) == 4, "%d, %d updates" % (len(d2), len(d3)))
            for n, a, b in zip((0, 1, 2, NROW - 1), d2, d3):
                R.same_all("frame %d x, y" % n, a, (col(1)[:n], col(2)[:n]), out)
                R.same_all("frame %d z" % n, b, col(3)[:n], out)
            sf = surf_args(I, out)
            for s in sf:
                on_surface("animate " + str(s[1]), out, s[0], hor if "Horizon" in s[1] else ergo, R.where)
    R.guard("animate", anim)

    def limits():
        """the fixed axes of the animation enclose the whole trajectory: values m, m + s, m + 2s (s > 0) in every order"""
        cn = P + "static.StaticGeodesicPlotter"
        R.group = "StaticGeodesicPlotter.animate"
        R.where = R.loc_of(I, cn + ".animate")
        import itertools
        for perm in itertools.permutations(range(3)):
            m, st = {j: S("m%d" % j) for j in (1, 2, 3)}, {j: S("s%d" % j, True) for j in (1, 2, 3)}

            def geo():
                rows = [[m[j] + perm[(i + j) % 3] * st[j] if j in m else S("T%d_%d" % (i, j)) for j in range(8)] for i in range(3)]
                return I.alloc(Inst(ExtV("stub.Geodesic"), dict(metric_params=(S("a"), S("Q")), trajectory=(arr(I, [S("l%d" % i) for i in range(3)]), I.new_arr((3, 8), [x for r in rows for x in r])),
                                                                kind="Time-like", coords="Cartesian")))
            out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [], {}), "animate", geo()), pre)
            if not R.no_raise("animate", out):
                continue
            for j, nm in ((1, "x"), (2, "y"), (3, "z")):
                for a, k, e in calls(I, out, "set_%slim3d" % nm)[-1:]:
                    lo, hi = a[0] if len(a) == 1 else a
                    q = ((m[j] - tm.as_t(lo)) / st[j]).as_const(), ((tm.as_t(hi) - m[j]) / st[j] - 2).as_const()
                    R.require("%s limits enclose the trajectory" % nm, all(x is not None and x >= 0 for x in q), "limits %r, %r for values from %r to %r" % (lo, hi, m[j], m[j] + 2 * st[j]))
    R.guard("limits", limits)

    def output():
        """show, clear, save act on the plotter's own figure, under the name given"""
        for nm, axn, want in ((None, "3d", "Geodesic.png"), (None, "rectilinear", "Parametric.png"), ("a.b.pdf", "3d", "a.b.pdf"), ("x.svg", "rectilinear", "x.svg")):
            cn = P + "static.StaticGeodesicPlotter"
            R.group = "StaticGeodesicPlotter.save(%r), axes %s" % (nm, axn)
            R.where = R.loc_of(I, cn + ".save")

            def f():
                o = I.call(I.global_(cn), [], {})
                I.setattr_(o, "ax", I.alloc(Inst(ExtV("stub.Axes"), dict(name=axn))))
                meth(I, o, "save", *([nm] if nm else []))
            out = R.ev(I, f)
            if R.no_raise("save", out):
                m = calls(I, out, "savefig")
                R.require("saved once, under its name", [(a[0] if a else k.get("fname")) for a, k, e in m] == [want], "saved as %r" % ([x[:2] for x in m],))
        for nm, want in ((None, ("Geodesic", "png")), ("d/a.b.svg", ("d/a.b", "svg")), ("k.jpeg", ("k", "jpeg")), ("w", ("w", ""))):
            cn = P + "interactive.InteractiveGeodesicPlotter"
            R.group = "InteractiveGeodesicPlotter.save(%r)" % nm
            R.where = R.loc_of(I, cn + ".save")

            def f():
                o = I.call(I.global_(cn), [], {})
                meth(I, o, "save", *([nm] if nm else []))
                return get(I, o, "fig")
            out = R.ev(I, f)
            if R.no_raise("save", out):
                m = calls(I, out, "offline.plot")
                R.require("saved once", len(m) == 1, "%d" % len(m))
                for a, k, e in m:
                    R.require("its figure", a[0] == out.value, "%r" % (a,))
                    R.require("file name and type", (k.get("image_filename"), k.get("image")) == want, "%r" % (k,))
        cn = P + "interactive.InteractiveGeodesicPlotter"
        R.group = "InteractiveGeodesicPlotter.show"
        R.where = R.loc_of(I, cn + ".show")
        out = R.ev(I, lambda: (lambda o: (meth(I, o, "show"), get(I, o, "fig")))(I.call(I.global_(cn), [], {})))
        if R.no_raise("show", out):
            R.require("show gives the figure", out.value[0] == out.value[1], "%r" % (out.value,))
        cn = P + "static.StaticGeodesicPlotter"
        R.group = "StaticGeodesicPlotter"
        for axn in ("3d", "rectilinear"):
            R.where = R.loc_of(I, cn + ".show")
            az, el = S("az"), S("el")
            sz = {}

            def f():
                o = I.call(I.global_(cn), [], {})
                meth(I, o, "plot" if axn == "3d" else "parametric_plot", geodesic(I))
                a = I.alloc(Inst(ExtV("stub.Axes"), dict(name=axn)))
                I.setattr_(a, "view_init", PyFn(lambda J, p, k: sz.update(view=(p, k)), "view_init"))
                I.setattr_(o, "ax", a)
                meth(I, o, "show", azim=az, elev=el)
            I.hooks["opaque:fig.get_size_inches"] = lambda J, a, k: (tm.as_t(6), tm.as_t(6))
            out = R.ev(I, f, pre)
            if R.no_raise("show", out):
                R.require("shown, axes " + axn, len(calls(I, out, "pyplot.show")) == 1, "not shown")
                v = sz.get("view")
                if axn == "3d":
                    R.require("view angles", v is not None and dict(zip(("elev", "azim"), v[0]), **v[1]) == dict(azim=az, elev=el), "%r" % (v,))
                else:
                    R.require("no view angles", v is None, "%r" % (v,))
        R.where = R.loc_of(I, cn + ".clear")
        out = R.ev(I, lambda: (lambda o: (meth(I, o, "plot", geodesic(I)), meth(I, o, "clear")))(I.call(I.global_(cn), [], {})), pre)
        if R.no_raise("clear", out):
            R.require("cleared", len([e for e in out.trace if e.name.endswith((".clf", ":fig.clf", ".clear", ":fig.clear"))]) == 1, "%r" % [e.name for e in out.trace])
    R.guard("output", output)

    def shadow():
        cn = "einsteinpy.plotting.ShadowPlotter"
        R.group = "ShadowPlotter"
        R.where = R.loc_of(I, cn + ".plot")
        b1, b2, it = [[S("%s%d" % (p, i)) for i in range(3)] for p in ("b", "n", "i")]
        mk = lambda: I.alloc(Inst(ExtV("stub.Shadow"), dict(fb1=arr(I, b1), fb2=arr(I, b2), intensity=arr(I, it))))
        for kw in ({}, dict(is_line_plot=True)):
            out = R.ev(I, lambda: meth(I, I.call(I.global_(cn), [mk()], dict(kw)), "plot"))
            if R.no_raise("line plot %s" % kw, out):
                cur = sorted((a[:2] for a, k, e in calls(I, out, "plot")), key=str)
                want = sorted([(tuple(b1), tuple(it)), (tuple(b2), tuple(it))], key=str)
                R.require("two curves", len(cur) == 2, "%d" % len(cur))
                R.same_all("line plot %s" % kw, tuple(cur), tuple(want), out)

        def cont():
            p = I.call(I.global_(cn), [mk()], dict(is_line_plot=False))
            meth(I, p, "plot")
            meth(I, p, "show")
        grid3 = lambda J, a, k: (J.event("linspace", (a[0], a[1])), arr(J, [S("v%d" % i) for i in range(3)]))[1]
        I.hooks["numpy.linspace"] = grid3
        out = R.ev(I, cont)
        I.hooks["numpy.linspace"] = grid
        if R.no_raise("contour plot", out):
            m = calls(I, out, "pcolormesh")
            R.require("one mesh", len(m) == 1, "%d" % len(m))
            v = [S("v%d" % i) for i in range(3)]
            for a, k, e in m:
                R.same_all("x", a[0], tuple(tuple(b * tm.cos(t) for b in b1) for t in v), out)
                R.same_all("y", a[1], tuple(tuple(b * tm.sin(t) for b in b1) for t in v), out)
                R.same_all("intensity", a[2], tuple(tuple(it) for t in v), out)
            ls = [e for e in out.trace if e.name == "linspace"]
            R.require("full turn", len(ls) == 1 and tm.equal(tm.as_t(ls[0].args[1]) - tm.as_t(ls[0].args[0]), tm.PI * 2), "azimuth range")
    R.guard("shadow", shadow)

    def hyper():
        cn = "einsteinpy.plotting.HypersurfacePlotter"
        R.group = "HypersurfacePlotter"
        R.where = R.loc_of(I, cn + ".plot")
        X, Y = [[[S("%s%d%d" % (p, i, j)) for j in range(3)] for i in range(2)] for p in "XY"]
        Z = [S("Z%d" % i) for i in range(6)]
        al = []
        for ty, meth_ in (("wireframe", "plot_wireframe"), ("surface", "plot_surface"), (None, "plot_wireframe")):
            def f():
                def gv(J, a, k):
                    al.append(a[0] if a else k.get("alpha"))
                    return (J.new_arr((2, 3), [x for r in X for x in r]), J.new_arr((2, 3), [x for r in Y for x in r]), arr(J, Z))
                o = I.alloc(Inst(ExtV("stub.Embedding"), dict(get_values_surface=PyFn(gv, "get_values_surface"))))
                kw = dict(alpha=S("alpha"))
                if ty:
                    kw["plot_type"] = ty
                meth(I, I.call(I.global_(cn), [o], kw), "plot")
            del al[:]
            out = R.ev(I, f)
            if R.no_raise(str(ty), out):
                m = calls(I, out, "plot_wireframe") + calls(I, out, "plot_surface")
                R.require("%s drawn once" % ty, len(m) == 1 and m[0][2].name.endswith(meth_), "draws %s" % [x[2].name for x in m])
                for a, k, e in m:
                    t2 = lambda M: tuple(tuple(r) for r in M)
                    R.same_all("%s surface" % ty, a[:3], (t2(X), t2(Y), (tuple(Z[:3]), tuple(Z[3:]))), out)
                R.require("%s alpha" % ty, len(al) == 1 and al[0] == S("alpha"), "resolution %r" % (al,))
    R.guard("hyper", hyper)
    I.hooks.clear()
