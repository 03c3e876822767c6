"""C41: the bundled example, the plotter selection and the Julia set."""
from .common import *
from sa.values import Opaque, WrapV
from .c36 import deref

MIN_OBLIGATIONS = 20
P = "einsteinpy.plotting."
FR = tm.Fraction


def run(R):
    R.rule("precession() is the time-like Schwarzschild geodesic from r = 40 on the equator with p_phi = 3.83405, 5500 steps of 1; GeodesicPlotter is the interactive plotter exactly in a notebook kernel; "
           "pixel (i, j) of the Julia set is (n / iter_max)^0.2, n being the number of iterations z -> z^2 + c from the pixel's point that stay below zabs_max, and fractal() draws divs of them")
    I = R.interp()

    # ---------------------------------------------------------------- example
    def example():
        R.group = "precession"
        R.where = R.loc_of(I, "einsteinpy.examples.precession")
        st = I.st
        I.st = I.st.copy()
        seen = []
        try:
            TL = I.global_("einsteinpy.geodesic.Timelike")
            def calc(J, a, k):
                seen.append({n: J.force(v) for n, v in k.items()})
                return Opaque("trajectory")
            I.setattr_(I.global_("einsteinpy.geodesic.Geodesic"), "calculate_trajectory", WrapV("stub", PyFn(calc, "calculate_trajectory")))

            def go():
                o = I.call(I.global_("einsteinpy.examples.precession"), [], {})
                return (outcls(I, o), get(I, o, "metric_name"), get(I, o, "kind"), get(I, o, "coords"), get(I, o, "metric_params"), get(I, o, "time_like"),
                        get(I, o, "position"), get(I, o, "momentum"))
            out = R.ev(I, go, deep=True)
        finally:
            I.st = st
        if not R.no_raise("precession", out):
            return
        v = out.value
        R.require("class", v[0] == "Timelike", "a %s" % v[0])
        R.require("metric and kind", v[1:4] == ("Schwarzschild", "Time-like", "Cartesian"), "%r" % (v[1:4],))
        R.require("time-like", v[5] is True, "time_like = %r" % (v[5],))
        R.same_all("position", v[6], (ZERO, tm.as_t(40), tm.PI / 2, ZERO), out)
        R.same_all("momentum", v[7][1:], (ZERO, ZERO, tm.as_t(FR("3.83405"))), out)
        r = tm.as_t(40)
        f = 1 - 2 / r
        pt2 = f * (1 + tm.as_t(FR("3.83405")) ** 2 / (r * r))
        R.equal("on the mass shell", v[7][0] * v[7][0], pt2, out.facts, out.guard)
        R.require("one integration", len(seen) == 1, "%d" % len(seen))
        for k in seen:
            R.equal("steps", tm.as_t(k.get("steps", 50)), tm.as_t(5500))
            R.equal("delta", tm.as_t(k.get("delta", FR(1, 2))), ONE)
            R.require("other options are defaults", set(k) <= {"steps", "delta"}, "%r" % sorted(k))

    R.guard("precession", example)

    # ---------------------------------------------------------------- plotter selection
    def plotter():
        f = I.global_(P + "geodesic.core.in_ipynb")
        R.where = R.loc_of(I, P + "geodesic.core.in_ipynb")
        R.group = "GeodesicPlotter"
        bases = R.ev(I, lambda: tuple(I.getattr_(b, "__name__") for b in I.iterate(I.getattr_(I.global_(P + "GeodesicPlotter"), "__bases__"))))
        R.require("outside IPython", bases.value == ("StaticGeodesicPlotter",), "bases %r" % (bases.value,))
        for shell, want in (("ZMQInteractiveShell", "Interactive"), ("TerminalInteractiveShell", "Static"), ("SomethingElse", "Static"), (None, "Static")):
            K = R.interp()
            if shell:
                K.extra_builtins = {"get_ipython": PyFn(lambda J, a, k: J.alloc(Inst(ExtV("stub." + shell), {"__class__": ExtV("stub." + shell)})), "get_ipython")}
            out = R.ev(K, lambda: K.getattr_(K.call(K.global_(P + "geodesic.core.in_ipynb"), [], {}), "__name__"))
            if R.no_raise("in_ipynb", out):
                R.require("shell %s" % shell, out.value == want + "GeodesicPlotter", "gives %r" % (out.value,))
    R.guard("plotter", plotter)

    # ---------------------------------------------------------------- Julia set
    def julia():
        R.where = R.loc_of(I, P + "fractal._fractal_img")
        ang, zm = S("ang"), S("zm", True)
        x0, x1, y0, y1 = (S(n) for n in ("xa", "xb", "ya", "yb"))
        for dims, iters in (((2, 1), 1), ((1, 2), 2), ((2, 2), 1), ((1, 1), 3)):
            R.group = "Julia set %dx%d, %d iterations" % (dims + (iters,))
            out = R.ev(I, lambda: I.call(I.global_(P + "fractal._fractal_img"), [], dict(dims=dims, angle=ang, zabs_max=zm, iter_max=iters, x_range=(x0, x1), y_range=(y0, y1))), deep=True)
            if not R.no_raise("image", out):
                continue
            c = tm.as_t(FR("0.8")) * tm.exp(tm.IMAG * ang)
            for i in range(dims[0]):
                for j in range(dims[1]):
                    z = (x0 + tm.as_t(FR(i, dims[0])) * (x1 - x0)) + tm.IMAG * (y0 + tm.as_t(FR(j, dims[1])) * (y1 - y0))
                    zs = [z]
                    for _ in range(iters):
                        zs.append(zs[-1] * zs[-1] + c)
                    val = ONE
                    for n in reversed(range(iters)):
                        val = ite(gtz(zm - tm.absval(zs[n])), val, tm.as_t(FR(n, iters)) ** FR(1, 5))
                    got = out.value[i][j]
                    R.equal("pixel (%d, %d)" % (i, j), got, val, out.facts, out.guard)
    def escape():
        """escape time counted one by one: the orbit rests on the fixed point of z^2 + 4/5 and abs() alone says when it leaves"""
        R.where = R.loc_of(I, P + "fractal._fractal_img")
        im = tm.sqrt(tm.as_t(FR(11, 20)))
        st0 = I.st
        for iters in (1, 7, 63, 64, 101):
            for n in sorted({0, 1, 2, 3, 6, 7, 15, 31, 32, 33, 50, 59, 60, 61, 62, 63, 64, 80, 99, 100, 101}):
                if n > iters:
                    continue
                R.group = "escape after %d of %d iterations" % (n, iters)
                I.st = st0.copy()
                calls = []

                def mag(J, a, k):
                    calls.append(a[0])
                    return tm.as_t(1 if len(calls) <= n else 50)
                try:
                    I.hooks.update({"builtins.abs": mag, "numpy.abs": mag, "numpy.absolute": mag})
                    out = R.ev(I, lambda: I.call(I.global_(P + "fractal._fractal_img"), [], dict(
                        dims=(1, 1), angle=0, zabs_max=20, iter_max=iters, x_range=(tm.as_t(FR(1, 2)),) * 2, y_range=(im, im))), deep=True)
                finally:
                    I.st = st0
                    I.hooks.clear()
                if not calls:
                    R.notes.append("the modulus is not taken by abs(): escape counts covered by the symbolic images only")
                    return
                if R.no_raise("image", out):
                    R.equal("pixel", out.value[0][0], tm.as_t(FR(n, iters)) ** FR(1, 5) if n else ZERO, out.facts, out.guard)

    def edge():
        """|z| is exactly zabs_max: no longer below it"""
        R.where = R.loc_of(I, P + "fractal._fractal_img")
        q = tm.as_t
        for x, y, zm, iters, n in ((2, 0, 2, 3, 0), (FR(3, 5), FR(4, 5), 1, 2, 0), (-3, 0, 3, 1, 0), (1, 0, FR(9, 5), 4, 1), (2, 0, FR(24, 5), 4, 1), (0, 0, FR(36, 25), 5, 2)):
            R.group = "image of %s%+s i, zabs_max=%s" % (x, y, zm)
            out = R.ev(I, lambda: I.call(I.global_(P + "fractal._fractal_img"), [], dict(
                dims=(1, 1), angle=0, zabs_max=q(zm), iter_max=iters, x_range=(q(x),) * 2, y_range=(q(y),) * 2)), deep=True)
            if R.no_raise("image", out):
                R.equal("pixel", out.value[0][0], q(FR(n, iters)) ** FR(1, 5) if n else ZERO, out.facts, out.guard)
    try:
        I.global_(P + "fractal._fractal_img")
        has_img = True
    except Exception:          # a private helper: without it the picture itself is not analysed
        has_img = False
    if has_img:
        R.guard("edge", edge)
        R.guard("julia", julia)
        R.guard("escape", escape)

    # ---------------------------------------------------------------- the figure around it
    def figure():
        R.where = R.loc_of(I, P + "fractal.fractal")
        st0 = I.st
        for divs, show in ((1, False), (3, False), (4, True)):
            R.group = "fractal(divs=%d, show=%s)" % (divs, show)
            I.st = st0.copy()
            log = dict(shown=0, layout=[], imgs=[], lins=[])
            try:
                fig = I.alloc(Inst(ExtV("stub.Figure"), dict(data=I.new_list([]))))

                def heat(J, a, k):
                    return J.alloc(Inst(ExtV("stub.Heatmap"), dict(k, visible=None)))

                def setm(n, f):
                    I.setattr_(fig, n, PyFn(f, n))

                def add(J, a, k):
                    J.call(J.getattr_(J.getattr_(fig, "data"), "append"), list(a) or list(k.values()), {})
                    return fig

                def layout(J, a, k):
                    log["layout"].append(dict(k))

                def show_(J, a, k):
                    log["shown"] += 1

                def img(J, a, k):
                    ang = k.get("angle", a[1] if len(a) > 1 else None)
                    log["imgs"].append((ang, k.get("zabs_max"), k.get("iter_max")))
                    return tm.func("img", [tm.as_t(J.force(ang))])
                setm("add_trace", add)
                setm("update_layout", layout)
                setm("show", show_)

                def lin(J, a, k):
                    n = int(str(J.force(k.get("num", a[2] if len(a) > 2 else 50))))
                    log["lins"].append((a[0], a[1], n))
                    return arr(J, [S("g%d" % i) for i in range(n)])
                I.hooks.update({"plotly.graph_objects.Figure": lambda J, a, k: fig, "plotly.graph_objects.Heatmap": heat, "numpy.linspace": lin})
                I.setattr_(I.global_(P + "fractal"), "_fractal_img", PyFn(img, "_fractal_img"))

                def go():
                    o = I.call(I.global_(P + "fractal.fractal"), [], dict(start_angle=S("s"), end_angle=S("e"), divs=divs, show=show))
                    d = list(I.iterate(get(I, fig, "data")))
                    return o == fig, tuple(get(I, h, "z") for h in d), tuple(get(I, h, "visible") for h in d)
                out = R.ev(I, go)
                if R.no_raise("fractal", out):
                    same, zs, vis = out.value
                    R.require("returns the figure", same is True, "%r" % (same,))
                    R.require("shown when asked", log["shown"] == int(show), "%d" % log["shown"])
                    R.require("one grid of angles", len(log["lins"]) == 1 and log["lins"][0][2] == divs, "%r" % (log["lins"],))
                    if log["lins"]:
                        R.same_all("angles", tuple(tm.as_t(x) for x in log["lins"][0][:2]), (S("s"), S("e")), out)
                    R.same_all("one image per angle", zs, tuple(tm.func("img", [S("g%d" % i)]) for i in range(divs)), out)
                    R.require("the last one is visible", vis == (None,) * (divs - 1) + (True,), "visible %r" % (vis,))
                    sl = [deref(I, out, k["sliders"]) for k in log["layout"] if "sliders" in k]
                    R.require("slider", len(sl) == 1, "%d" % len(sl))
                    if sl:
                        d = sl[0][0].d
                        act = d["active"]
                        R.require("slider starts at the last image", act == divs - 1, "active %r" % (act,))
                        for i, s in enumerate(d["steps"]):
                            want = ("visible", tuple(j == i for j in range(divs)))
                            s = s.d
                            R.require("step %d shows only image %d" % (i, i), tuple(s["args"]) == want and s["method"] == "restyle", "%r" % (s,))
                        R.require("one step per image", len(d["steps"]) == divs, "%d" % len(d["steps"]))
            finally:
                I.st = st0
                I.hooks.clear()
    if has_img:
        R.guard("figure", figure)
